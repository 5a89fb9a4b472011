// Package srt stands in for package runtime.
package srt

import (
	"runtime"

	"simrt/sim"
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
	Func     = runtime.Func
	Frame    = runtime.Frame
	Frames   = runtime.Frames
)

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

func Gosched()                                  { sim.Yield("gosched") }
func GC()                                       {}
func NumCPU() int                               { return 4 }
func GOMAXPROCS(int) int                        { return 4 }
func NumGoroutine() int                         { return len(sim.LiveTasks()) }
func ReadMemStats(m *MemStats)                  { *m = MemStats{} }
func Caller(s int) (uintptr, string, int, bool) { return runtime.Caller(s + 1) }
func Callers(s int, pc []uintptr) int           { return runtime.Callers(s+1, pc) }
func CallersFrames(c []uintptr) *Frames         { return runtime.CallersFrames(c) }
func FuncForPC(pc uintptr) *Func                { return runtime.FuncForPC(pc) }
func Stack(buf []byte, all bool) int            { return 0 }
func KeepAlive(x any)                           { runtime.KeepAlive(x) }
func SetFinalizer(obj any, finalizer any)       {}
func Goexit()                                   { sim.Exit() }
func Version() string                           { return runtime.Version() }
