//go:build race

package simhook

import (
	"runtime"
	"unsafe"
)

// Race tells that the race detector is compiled in.
const Race = true

// Off and On bracket synchronisation of the simulator itself, which the code under test must not profit from.
func Off() { runtime.RaceDisable() }
func On()  { runtime.RaceEnable() }

// Release and Acquire order a thread's end before what follows.
func Release(p *int32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func Acquire(p *int32) { runtime.RaceAcquire(unsafe.Pointer(p)) }
