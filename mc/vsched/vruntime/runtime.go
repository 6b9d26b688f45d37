// Package runtime shadows runtime for packages under test: statistics come from the harness when
// it provides them. Built with race instrumentation, as ReadMemStats writes to its argument.
package runtime

import (
	"runtime"

	"go.opencensus.io/internal/vsched"
)

type (
	MemStats           = runtime.MemStats
	Error              = runtime.Error
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	Func               = runtime.Func
	StackRecord        = runtime.StackRecord
	TypeAssertionError = runtime.TypeAssertionError
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

// The harness's statistics.
var (
	FakeMem        func() MemStats
	FakeGoroutines func() int
	FakeCgo        func() int64
)

func ReadMemStats(m *MemStats) {
	vsched.Point("ReadMemStats", nil)
	if FakeMem != nil {
		*m = FakeMem()
		return
	}
	runtime.ReadMemStats(m)
}

func NumGoroutine() int {
	if FakeGoroutines != nil {
		return FakeGoroutines()
	}
	return runtime.NumGoroutine()
}

func NumCgoCall() int64 {
	if FakeCgo != nil {
		return FakeCgo()
	}
	return runtime.NumCgoCall()
}

func Gosched()                                  { vsched.Point("Gosched", nil) }
func GC()                                       {}
func GOROOT() string                            { return "" }
func KeepAlive(x any)                           { runtime.KeepAlive(x) }
func SetFinalizer(obj, f any)                   {}
func NumCPU() int                               { return runtime.NumCPU() }
func GOMAXPROCS(n int) int                      { return runtime.GOMAXPROCS(0) }
func Goexit()                                   { runtime.Goexit() }
func Stack(b []byte, all bool) int              { return runtime.Stack(b, all) }
func Caller(n int) (uintptr, string, int, bool) { return runtime.Caller(n + 1) }
func Callers(n int, pc []uintptr) int           { return runtime.Callers(n+1, pc) }
func CallersFrames(c []uintptr) *runtime.Frames { return runtime.CallersFrames(c) }
func FuncForPC(pc uintptr) *runtime.Func        { return runtime.FuncForPC(pc) }
func Version() string                           { return runtime.Version() }
func LockOSThread()                             {}
func UnlockOSThread()                           {}
