//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the binary carries the race detector.
const RaceEnabled = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceErrors() int                   { return runtime.RaceErrors() }
