package reset

import (
	shimflag "vsim/shimsrc/shim/flag"
	shimlog "vsim/shimsrc/shim/log"
	shimrand "vsim/shimsrc/shim/math/rand"
	shimos "vsim/shimsrc/shim/os"
	shimtime "vsim/shimsrc/shim/time"
)

// Reset gives the shims their process start state.
func Reset() {
	shimos.SimReset()
	shimtime.SimReset()
	shimrand.SimReset()
	shimlog.SimReset()
	shimflag.SimReset()
}
