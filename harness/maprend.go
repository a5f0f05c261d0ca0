package harness

import (
	"sync"

	"pgregory.net/rapid"
)

// MapRendCase is a parallel or speculative operation over all splits whose
// callbacks wait for each other.
type MapRendCase struct {
	Fam   string   `json:"fam"` // par, spec
	Fn    string   `json:"fn"`  // one of aggFns, or Range
	Size  int      `json:"size"`
	Keys  int      `json:"keys"`            // entries
	Waits [][2]int `json:"waits,omitempty"` // the callback on the first split waits until one has started on the second
	Plan  Plan     `json:"plan"`
}

func execMapRend(c *Ctx, cs *MapRendCase) {
	hashHook = nil
	what := "Map." + map[string]string{"par": "Parallel", "spec": "Speculative"}[cs.Fam] + cs.Fn
	m, n := newMapN(cs.Size, max(1, cs.Plan.Procs))
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	posOf := map[interface{}]int{}
	used := make([]bool, n)
	for i := 0; i < cs.Keys; i++ {
		k := kNum(mix(uint64(i)))
		m.LoadOrStore(k, i)
		posOf[k] = v.of(k)
		used[posOf[k]] = true
	}
	s := newSched(cs.Plan)
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) { mu.Lock(); defer mu.Unlock(); c.Failf(f, a...) }
	started := make([]chan struct{}, n)
	once := make([]sync.Once, n)
	for i := range started {
		started[i] = make(chan struct{})
	}
	waits := make([][]int, n)
	real := 0
	for _, w := range cs.Waits {
		p, q := w[0]%n, w[1]%n
		if p != q && (cs.Fn != "Range" || used[p] && used[q]) {
			waits[p] = append(waits[p], q)
			real++
		}
	}
	enter := func(p int) {
		once[p].Do(func() { close(started[p]) })
		s.Point(p)
		for _, q := range waits[p] {
			<-started[q]
		}
	}
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, n: n, codec: &tableCodec{}, fail: fail}
	call.leaf = func(x iv) bool {
		enter(x.lo)
		return cs.Fn == "And"
	}
	call.join = func(x, y iv, ticket int) bool { return false }
	at := func(sp amap) iv {
		p, ok := v.pos[mapID(sp)]
		if !ok {
			fail("%s called with something that is not a split", what)
			return iv{0, 1}
		}
		return iv{p, p + 1}
	}
	var res fnResult
	pv, didPanic := s.Run(func() {
		switch {
		case cs.Fn != "Range":
			res = call.invokeMap(m, at)
		case cs.Fam == "par":
			m.ParallelRange(func(k, _ interface{}) { enter(posOf[k]) })
		default:
			m.SpeculativeRange(func(k, _ interface{}) bool { enter(posOf[k]); return true })
		}
	})
	if didPanic {
		c.Failf("%s: unexpected panic: %v", what, pv)
		return
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	if res.hasIv && res.iv != call.total() {
		c.Failf("%s: result covers %v, want all splits", what, res.iv)
	}
	if res.hasB && res.b != (cs.Fn == "And") {
		c.Failf("%s: returned %v", what, res.b)
	}
	v.checkFree(c, "after "+what)
	c.Label("%s", what)
	c.Label("procs %d", cs.Plan.Procs)
	c.NonTrivial(real > 0)
}

func init() {
	executor("maprend", execMapRend)
	register(&Campaign{Prop: "M07", Name: "map-rendezvous", Exec: "maprend", Quick: 8000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &MapRendCase{Fam: rapid.SampledFrom([]string{"par", "spec"}).Draw(t, "fam"), Size: genSplits(t), Plan: genPlan(t, 10)}
		fns := aggFns
		if cs.Fam == "spec" {
			fns = aggSpecFns
		}
		cs.Fn = rapid.SampledFrom(append([]string{"Range", "Range"}, fns...)).Draw(t, "fn")
		cs.Keys = rapid.IntRange(0, 60).Draw(t, "keys")
		if cs.Size > 0 {
			cs.Plan.Procs = cs.Size + rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "moreprocs")
		}
		n := cs.Size
		if n <= 0 {
			n = max(1, cs.Plan.Procs)
		}
		if rapid.Bool().Draw(t, "barrier") {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j += max(1, n/8) {
					cs.Waits = append(cs.Waits, [2]int{i, j})
				}
			}
		} else {
			for i := rapid.IntRange(1, 8).Draw(t, "nwaits"); i > 0; i-- {
				cs.Waits = append(cs.Waits, [2]int{rapid.IntRange(0, n-1).Draw(t, "p"), rapid.IntRange(0, n-1).Draw(t, "q")})
			}
		}
		return cs
	}})
}
