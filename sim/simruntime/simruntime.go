// Package simruntime stands in for package runtime in instrumented copies of the code under test: how many processors
// there are is the simulator's decision. Code that uses more of package runtime than this keeps the real one.
package simruntime

import (
	"mksim/simhook"
	"runtime"
)

const (
	GOOS   = runtime.GOOS
	GOARCH = runtime.GOARCH
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
	Func     = runtime.Func
)

// Procs, when set, is the simulated number of processors.
var Procs func() int

func procs() int {
	if Procs == nil {
		return runtime.NumCPU()
	}
	return Procs()
}

func NumCPU() int                                  { return procs() }
func GOMAXPROCS(int) int                           { return procs() }
func Gosched()                                     { simhook.Y() }
func GC()                                          {}
func KeepAlive(x any)                              { runtime.KeepAlive(x) }
func ReadMemStats(m *MemStats)                     { *m = MemStats{} }
func Caller(skip int) (uintptr, string, int, bool) { return runtime.Caller(skip + 1) }
func FuncForPC(pc uintptr) *Func                   { return runtime.FuncForPC(pc) }
