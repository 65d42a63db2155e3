//go:build !race

package simhook

// Race tells that the race detector is compiled in.
const Race = false

func Off()           {}
func On()            {}
func Release(*int32) {}
func Acquire(*int32) {}
