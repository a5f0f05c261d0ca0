package harness

import (
	"fmt"
	"sync"

	"pgregory.net/rapid"
)

// CrowdCase is a call with many functions or batches.
type CrowdCase struct {
	Check   string  `json:"check"` // property
	Fam     string  `json:"fam"`
	Fn      string  `json:"fn"`
	N       int     `json:"n"`                 // functions, or elements of the range in batches of one
	Barrier bool    `json:"barrier,omitempty"` // every function waits until all have started
	Ev      FnEvent `json:"ev"`
	Event   bool    `json:"event,omitempty"`
	Block   bool    `json:"block,omitempty"` // functions right of the event block until the call has returned
	Procs   int     `json:"procs"`
}

func execCrowd(c *Ctx, cs *CrowdCase) {
	n := cs.N
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, n: n, lo: 0, hi: n, nbatch: n, codec: bitsCodec{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	starts := make([]int, n)
	ended := make([]int, n)
	total, over := 0, false
	returned := make(chan struct{})
	call.fail = func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		c.Failf(f, a...)
	}
	neutral := cs.Fn == "And" || cs.Fn == "RangeAnd"
	call.leaf = func(x iv) bool {
		if x.hi != x.lo+1 || x.lo < 0 || x.hi > n {
			call.fail("%s.%s: batch %v of [0,%d) in %d batches", cs.Fam, cs.Fn, x, n, n)
			return neutral
		}
		mu.Lock()
		starts[x.lo]++
		total++
		if total == n {
			cond.Broadcast()
		}
		for cs.Barrier && total < n {
			cond.Wait()
		}
		mu.Unlock()
		if cs.Block && x.lo > cs.Ev.P {
			<-returned
		}
		b := neutral
		if cs.Event && x.lo == cs.Ev.P {
			if cs.Ev.Panic {
				throw(cs.Ev.Kind, 1000+x.lo)
			}
			b = !neutral
		}
		mu.Lock()
		ended[x.lo]++
		if over && !cs.Event {
			c.Failf("function %d is still running when the call has returned", x.lo)
		}
		mu.Unlock()
		return b
	}
	call.join = func(x, y iv, _ int) bool { return false }
	var res fnResult
	pv, bad := plainRun(cs.Procs, func() {
		defer close(returned)
		res = call.invoke()
		mu.Lock()
		over = true
		mu.Unlock()
	})
	if s := leaked(); s != "" {
		c.Failf("goroutines left blocked for ever:\n%s", clip(s, 3000))
		return
	}
	c.NonTrivial(n >= 100)
	c.Label("crowd of %d", n/1000*1000)
	if cs.Event && cs.Ev.Panic {
		if !bad {
			c.Failf("function %d panicked, the call returned normally", cs.Ev.P)
		} else {
			checkPanic(c, fmt.Sprintf("%s.%s of %d", cs.Fam, cs.Fn, n), pv, cs.Ev.Kind, 1000+cs.Ev.P)
		}
		return
	}
	if bad {
		c.Failf("unexpected panic: %v", clip(fmt.Sprint(pv), 500))
		return
	}
	if cs.Event {
		if res.hasB && res.b != !neutral {
			c.Failf("%s.%s of %d returned %v although function %d is decisive", cs.Fam, cs.Fn, n, res.b, cs.Ev.P)
		}
		if cs.Fam == "speculative" && res.hasIv && (res.iv != iv{cs.Ev.P, cs.Ev.P + 1}) {
			c.Failf("%s.%s of %d: function %d is decisive, the result is that of %v", cs.Fam, cs.Fn, n, cs.Ev.P, res.iv)
		}
	} else {
		if res.hasB && res.b != neutral {
			c.Failf("%s.%s of %d returned %v although nothing is decisive", cs.Fam, cs.Fn, n, res.b)
		}
		if res.hasIv && (res.iv != iv{0, n}) {
			c.Failf("%s.%s of %d: the result covers %v", cs.Fam, cs.Fn, n, res.iv)
		}
	}
	for i := range starts {
		if starts[i] > 1 || (!cs.Event || cs.Fam == "parallel") && ended[i] != 1 {
			c.Failf("%s.%s of %d: function %d was called %d times and ended %d times", cs.Fam, cs.Fn, n, i, starts[i], ended[i])
			return
		}
	}
}

func init() {
	executor("crowd", execCrowd)
	for _, p := range []string{"P01", "P02", "P04", "P05", "P06", "P07"} {
		register(&Campaign{Prop: p, Name: "crowd", Exec: "crowd", Quick: 200, Thorough: 4000, Gen: func(t *rapid.T) any {
			cs := &CrowdCase{Check: p, Procs: freeProcs(t)}
			rng := rapid.Bool().Draw(t, "isrange")
			fams := []string{"parallel", "speculative"}
			switch p {
			case "P01":
				rng = false
			case "P02":
				rng = true
			case "P06", "P07":
				fams = fams[1:]
			}
			cs.Fam = genFam(t, fams...)
			cs.Fn = genFn(t, cs.Fam, rng)
			cs.N = rapid.SampledFrom([]int{300, 2000, 3000, 6000, 12000}).Draw(t, "most")
			cs.N = rapid.IntRange(cs.N/3, cs.N).Draw(t, "n")
			switch p {
			case "P04":
				cs.Barrier = true
			case "P05":
				cs.Event = true
				cs.Ev = FnEvent{P: rapid.IntRange(0, cs.N-1).Draw(t, "at"), Panic: true, Kind: rapid.IntRange(0, panicKinds-1).Draw(t, "kind")}
			case "P06", "P07":
				cs.Event = p == "P07" || rapid.Bool().Draw(t, "decisive")
				cs.Ev = FnEvent{P: rapid.IntRange(0, cs.N-1).Draw(t, "at")}
				cs.Block = p == "P07"
			}
			return cs
		}})
	}
}
