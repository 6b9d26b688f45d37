package vsched

import (
	"runtime"
	"unsafe"
)

// Hooks for the shim packages.

// Point is a scheduling point; outside an execution en must hold already.
func Point(op string, en func() bool) {
	if x == nil {
		if en != nil && !en() {
			panic("vsched: " + op + " would block outside an execution")
		}
		return
	}
	x.point(op, en)
}

// Exiting reports whether the current goroutine is being unwound.
func Exiting() bool { return x != nil && x.aborted }

// Exit unwinds the current goroutine.
func Exit() { runtime.Goexit() }

func RaceAcquire(p unsafe.Pointer)      { raceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { raceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { raceReleaseMerge(p) }

// Spawn starts a goroutine (for AfterFunc and the like).
func Spawn(name string, f func()) { spawn(x, name, f) }
