package harness

import (
	"math/rand/v2"
	"runtime"
	"sync"
)

// hookOn says if synchronisation operations (of any code) are slow and eager
// to yield, which widens the windows between them. Free runs have it on,
// scheduled runs are left alone. It never changes in a -race build.
var hookOn = raceBuild

// installHook must be called while nothing else is running. The random
// numbers come from the runtime: a generator with shared state would order the
// goroutines that use it, which hides data races.
func installHook() {
	sync.PVHook = func() {
		if !hookOn {
			return
		}
		switch r := rand.Uint32(); r & 15 {
		case 0:
			runtime.Gosched()
		case 1:
			spin(int(r>>8) & 1023)
		case 2:
			if r&(15<<8) == 0 {
				spin(int(r>>12) & 16383)
			}
		}
	}
}

func setHook(on bool) {
	if !raceBuild {
		hookOn = on
	}
}
