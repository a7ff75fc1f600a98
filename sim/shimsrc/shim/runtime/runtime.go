package runtime

import (
	std "runtime"

	"vsim/shimsrc/rt"
)

func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func GC()                  {}
func Goexit()              { std.Goexit() }
func Gosched() {
	if rt.P != nil {
		rt.P.Gosched()
	}
}
func NumGoroutine() int {
	if rt.P == nil || rt.P.Threads() == 0 {
		return 1
	}
	return rt.P.Threads()
}
