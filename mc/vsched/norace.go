//go:build !race

package vsched

import "unsafe"

// RaceEnabled reports whether the binary carries the race detector.
const RaceEnabled = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}
func raceErrors() int                   { return 0 }
