package harness

import (
	"fmt"
	"sync"

	psync "github.com/exascience/pargo/sync"
)

// MapAggCase is one predicate or reduction over all splits of a map.
type MapAggCase struct {
	Fam    string    `json:"fam"` // seq, par, spec
	Fn     string    `json:"fn"`
	Size   int       `json:"size"`
	Fill   int       `json:"fill"` // entries
	Events []FnEvent `json:"events,omitempty"`
	Join   *FnEvent  `json:"join,omitempty"`
	Block  []int     `json:"block,omitempty"`
	Free   bool      `json:"free,omitempty"` // race build, no gates
	Pert   []int     `json:"pert,omitempty"`
	Odd    []FnOdd   `json:"odd,omitempty"` // scheduled runs
	Plan   Plan      `json:"plan"`
}

var aggFns = []string{"And", "Or", "Reduce", "ReduceFloat64", "ReduceInt", "ReduceString", "ReduceFloat64Sum", "ReduceFloat64Product", "ReduceIntSum", "ReduceIntProduct", "ReduceStringSum"}
var aggSpecFns = []string{"And", "Or", "Reduce", "ReduceFloat64", "ReduceInt", "ReduceString"}

func (c *fnCall) invokeMap(m *psync.Map, at func(s amap) iv) fnResult {
	pred := func(s amap) bool { return c.leaf(at(s)) }
	leafI := func(s amap) int { t, _ := c.doLeaf(at(s)); return t }
	joinI := func(x, y int) int { t, _ := c.doJoin(x, y); return t }
	leafA := func(s amap) interface{} { return anyOf(leafI(s)) }
	joinA := func(x, y interface{}) interface{} { return anyOf(joinI(ifInt(x), ifInt(y))) }
	leafF := func(s amap) float64 { return float64(leafI(s)) }
	joinF := func(x, y float64) float64 { return float64(joinI(int(x), int(y))) }
	leafS := func(s amap) string { return strOf(leafI(s)) }
	joinS := func(x, y string) string { return strOf(joinI(atoi(x), atoi(y))) }
	weigh := func(s amap) iv { x := at(s); c.leaf(x); return x }
	fsum := func(s amap) float64 { return c.sumF(weigh(s)) }
	fprod := func(s amap) float64 { return c.prodF(weigh(s)) }
	isum := func(s amap) int { return c.sumI(weigh(s)) }
	iprod := func(s amap) int { return c.prodI(weigh(s)) }
	ssum := func(s amap) string { return c.str(weigh(s)) }
	switch c.fam + c.fn {
	case "seqAnd":
		return fnResult{hasB: true, b: m.And(pred)}
	case "seqOr":
		return fnResult{hasB: true, b: m.Or(pred)}
	case "parAnd":
		return fnResult{hasB: true, b: m.ParallelAnd(pred)}
	case "parOr":
		return fnResult{hasB: true, b: m.ParallelOr(pred)}
	case "specAnd":
		return fnResult{hasB: true, b: m.SpeculativeAnd(pred)}
	case "specOr":
		return fnResult{hasB: true, b: m.SpeculativeOr(pred)}

	case "seqReduce":
		return c.ret(ifInt(m.Reduce(leafA, joinA)), false, false)
	case "parReduce":
		return c.ret(ifInt(m.ParallelReduce(leafA, joinA)), false, false)
	case "seqReduceInt":
		return c.ret(m.ReduceInt(leafI, joinI), false, false)
	case "parReduceInt":
		return c.ret(m.ParallelReduceInt(leafI, joinI), false, false)
	case "seqReduceFloat64":
		return c.ret(int(m.ReduceFloat64(leafF, joinF)), false, false)
	case "parReduceFloat64":
		return c.ret(int(m.ParallelReduceFloat64(leafF, joinF)), false, false)
	case "seqReduceString":
		return c.ret(atoi(m.ReduceString(leafS, joinS)), false, false)
	case "parReduceString":
		return c.ret(atoi(m.ParallelReduceString(leafS, joinS)), false, false)
	case "seqReduceFloat64Sum":
		return c.eq(m.ReduceFloat64Sum(fsum), c.totSumF())
	case "parReduceFloat64Sum":
		return c.eq(m.ParallelReduceFloat64Sum(fsum), c.totSumF())
	case "seqReduceFloat64Product":
		return c.eq(m.ReduceFloat64Product(fprod), c.totProdF())
	case "parReduceFloat64Product":
		return c.eq(m.ParallelReduceFloat64Product(fprod), c.totProdF())
	case "seqReduceIntSum":
		return c.eq(m.ReduceIntSum(isum), c.totSumI())
	case "parReduceIntSum":
		return c.eq(m.ParallelReduceIntSum(isum), c.totSumI())
	case "seqReduceIntProduct":
		return c.eq(m.ReduceIntProduct(iprod), c.totProdI())
	case "parReduceIntProduct":
		return c.eq(m.ParallelReduceIntProduct(iprod), c.totProdI())
	case "seqReduceStringSum":
		return c.strSum(m.ReduceStringSum(ssum))
	case "parReduceStringSum":
		return c.strSum(m.ParallelReduceStringSum(ssum))

	case "specReduce":
		v, b := m.SpeculativeReduce(func(s amap) (interface{}, bool) { t, b := c.doLeaf(at(s)); return anyOf(t), b },
			func(x, y interface{}) (interface{}, bool) { t, b := c.doJoin(ifInt(x), ifInt(y)); return anyOf(t), b })
		return c.ret(ifInt(v), b, true)
	case "specReduceInt":
		v, b := m.SpeculativeReduceInt(func(s amap) (int, bool) { return c.doLeaf(at(s)) }, c.doJoin)
		return c.ret(v, b, true)
	case "specReduceFloat64":
		v, b := m.SpeculativeReduceFloat64(func(s amap) (float64, bool) { t, b := c.doLeaf(at(s)); return float64(t), b },
			func(x, y float64) (float64, bool) { t, b := c.doJoin(int(x), int(y)); return float64(t), b })
		return c.ret(int(v), b, true)
	case "specReduceString":
		v, b := m.SpeculativeReduceString(func(s amap) (string, bool) { t, b := c.doLeaf(at(s)); return strOf(t), b },
			func(x, y string) (string, bool) { t, b := c.doJoin(atoi(x), atoi(y)); return strOf(t), b })
		return c.ret(atoi(v), b, true)
	}
	panic("HARNESS: unknown map function " + c.fam + c.fn)
}

func execMapAgg(c *Ctx, cs *MapAggCase) {
	hashHook = nil
	what := "Map." + map[string]string{"par": "Parallel", "spec": "Speculative"}[cs.Fam] + cs.Fn
	m, n := newMapN(cs.Size, max(cs.Plan.Procs, 1))
	if cs.Fill > 0 {
		for i := 0; i < cs.Fill; i++ {
			m.LoadOrStore(kNum(mix(uint64(i))), i)
		}
	}
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	before := v.content()
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = len(v.order[i])
	}
	for i := range cs.Events {
		cs.Events[i].P %= n
	}
	if !hasJoin(cs.Fn) || len(cs.Events) > 0 || n < 2 {
		cs.Join = nil
	}
	joinAt := -1
	if cs.Join != nil {
		joinAt = 1 + cs.Join.P%(n-1)
	}
	var events []*FnEvent // by split
	events = make([]*FnEvent, n)
	first := n // left-most event
	for i := range cs.Events {
		e := &cs.Events[i]
		if events[e.P] == nil {
			events[e.P] = e
		}
		first = min(first, e.P)
	}
	anyPanic := false
	for i := range cs.Events {
		anyPanic = anyPanic || cs.Events[i].Panic
	}
	boolOf := func(decisive bool) bool { return decisive != (cs.Fn == "And") }

	gated := cs.Fam != "seq" && !cs.Free
	var s *Sched
	if gated {
		s = newSched(cs.Plan)
	}
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) { mu.Lock(); defer mu.Unlock(); c.Failf(f, a...) }
	visits := make([]int, n) // plain writes in race runs
	var order []int
	finished, joinRuns, joinTicket := 0, 0, -1
	returned := make(chan struct{})
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, n: n, codec: &tableCodec{}, fail: fail}
	if cs.Free {
		call.codec = bitsCodec{}
	} else {
		call.setOdd(cs.Odd)
	}
	at := func(sp amap) iv {
		p, ok := v.pos[mapID(sp)]
		if !ok {
			fail("%s called with something that is not a split", what)
			return iv{0, 1}
		}
		if sizes[p] != len(sp) {
			fail("%s: split %d has %d entries inside the callback, want %d", what, p, len(sp), sizes[p])
		}
		return iv{p, p + 1}
	}
	call.leaf = func(x iv) bool {
		p := x.lo
		if cs.Free {
			if len(cs.Pert) > 0 {
				perturb(cs.Pert[p%len(cs.Pert)])
			}
			visits[p]++
			if len(cs.Pert) > 0 {
				perturb(cs.Pert[(p+1)%len(cs.Pert)] >> 3)
			}
		} else {
			mu.Lock()
			visits[p]++
			order = append(order, p)
			mu.Unlock()
			if gated {
				s.Point(p)
			}
			if first < p {
				for _, b := range cs.Block {
					if b%n == p {
						<-returned
						break
					}
				}
			}
			if sp := v.split[p]; sp != nil && !held(sp) {
				fail("%s: the write lock of split %d is not held inside the callback", what, p)
			}
			if cs.Fam == "seq" {
				for q, sp := range v.split {
					if sp != nil && q != p && locked(sp) {
						fail("%s: the lock of split %d is held while the callback runs on split %d", what, q, p)
					}
				}
			}
			mu.Lock()
			finished++
			mu.Unlock()
		}
		if e := events[p]; e != nil {
			if e.Panic {
				throw(e.Kind, 1000+p)
			}
			return boolOf(true)
		}
		return boolOf(false)
	}
	call.join = func(x, y iv, ticket int) bool {
		if gated {
			s.Point(y.lo)
		}
		if cs.Join != nil && y.lo == joinAt {
			mu.Lock()
			joinTicket = ticket
			joinRuns++
			mu.Unlock()
			if cs.Join.Panic {
				throw(cs.Join.Kind, 1000)
			}
			return true
		}
		return false
	}
	var res fnResult
	finAtReturn := 0
	body := func() {
		defer func() {
			mu.Lock()
			finAtReturn = finished
			mu.Unlock()
			close(returned)
		}()
		res = call.invokeMap(m, at)
	}
	var pv interface{}
	var didPanic bool
	if gated {
		pv, didPanic = s.Run(body)
	} else {
		pv, didPanic = plainRun(cs.Plan.Procs, body)
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	// visits may still be written without synchronisation in free runs
	readable := !cs.Free || first == n || (cs.Fam != "spec" && !anyPanic)

	// who was visited
	if readable {
		total := 0
		for p, k := range visits {
			total += k
			if k > 1 {
				c.Failf("%s: split %d visited %d times", what, p, k)
			}
			if k == 0 && p < first && (cs.Join == nil || cs.Fam != "seq") {
				c.Failf("%s: split %d not visited", what, p)
			}
		}
		if first < n && visits[first] == 0 {
			c.Failf("%s: split %d not visited", what, first)
		}
		stops := cs.Fn == "And" || cs.Fn == "Or" || cs.Fam == "spec" || cs.Fam == "seq"
		for p, k := range visits {
			if k == 0 && p > first && !stops {
				c.Failf("%s: split %d not visited", what, p)
			}
			if k > 0 && p > first && cs.Fam == "seq" {
				// values of Reduce functions do not stop anything
				if cs.Fn == "And" || cs.Fn == "Or" || events[first].Panic {
					c.Failf("%s: split %d visited after the result was known at %d", what, p, first)
				}
			}
		}
		if cs.Fam == "seq" && !cs.Free {
			for i, p := range order {
				if p != i {
					c.Failf("%s: splits not visited in order: %v", what, order)
					break
				}
			}
		}
		if !didPanic && cs.Fam != "spec" && !cs.Free && finAtReturn != total {
			c.Failf("%s: returned when %d of %d callbacks had terminated", what, finAtReturn, total)
		}
		if cs.Fam == "spec" && first == n && cs.Join == nil && !cs.Free && finAtReturn != n {
			c.Failf("%s: returned when %d of %d callbacks had terminated, without a decision", what, finAtReturn, n)
		}
	}
	// outcome
	firstPanic := n
	anyStop := false
	for p, e := range events {
		if e == nil {
			continue
		}
		if e.Panic {
			if !readable || visits[p] > 0 {
				firstPanic = min(firstPanic, p)
			}
		} else {
			anyStop = true
		}
	}
	switch {
	case cs.Join != nil:
		if joinRuns != 1 {
			c.Failf("%s: the join of the two sides of split %d ran %d times", what, joinAt, joinRuns)
			break
		}
		if cs.Join.Panic {
			if !didPanic {
				c.Failf("%s: a join panicked, the call returned normally", what)
			} else {
				checkPanic(c, what, pv, cs.Join.Kind, 1000)
			}
		} else if didPanic {
			c.Failf("%s: unexpected panic %v", what, pv)
		} else if cs.Fam == "spec" {
			if !res.b || res.ticket != joinTicket {
				c.Failf("%s: the join at %d returned true with value %d, the call returned (%d %v, %v)", what, joinAt, joinTicket, res.ticket, res.iv, res.b)
			}
		} else if res.iv != call.total() {
			c.Failf("%s: result covers %v, want all splits", what, res.iv)
		}
	case cs.Fam != "spec" && firstPanic < n:
		if !didPanic {
			c.Failf("%s: the callback on split %d panicked, the call returned normally", what, firstPanic)
		} else {
			checkPanic(c, what, pv, events[firstPanic].Kind, 1000+firstPanic)
		}
	case cs.Fam == "spec" && first < n && events[first].Panic:
		if !didPanic {
			// a decisive result elsewhere may win
			if !anyStop || res.b != boolOf(true) {
				c.Failf("%s: the left-most event is a panic, the call returned normally", what)
			}
		} else {
			checkPanic(c, what, pv, events[first].Kind, 1000+first)
		}
	case didPanic:
		c.Failf("%s: unexpected panic: %v", what, clip(fmt.Sprint(pv), 500))
	case cs.Fam == "spec" && first < n:
		if res.b != boolOf(true) {
			c.Failf("%s: the result for split %d is decisive, the call returned %v", what, first, res.b)
		}
		if res.hasIv && res.iv != (iv{first, first + 1}) {
			c.Failf("%s: the left-most decisive split is %d, the result is that of %v", what, first, res.iv)
		}
	default:
		if res.hasB && res.b != boolOf(first < n) {
			c.Failf("%s: returned %v, want %v", what, res.b, boolOf(first < n))
		}
		if res.hasIv && res.iv != call.total() {
			c.Failf("%s: result covers %v, want all splits", what, res.iv)
		}
	}
	if v.checkFree(c, "after "+what) {
		if d := sameMap(v.content(), before); d != "" {
			c.Failf("after %s: %s", what, d)
		}
	}
	c.Label("%s", what)
	if cs.Join != nil {
		c.Label("join event")
	}
	if first < n {
		if events[first].Panic {
			c.Label("panic")
		} else {
			c.Label("decisive")
		}
	}
	if s != nil && s.MaxWaiting >= 2 {
		c.Label("parked>=2")
	}
	c.NonTrivial(n >= 2)
}
