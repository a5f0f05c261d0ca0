package harness

import (
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	psync "github.com/exascience/pargo/sync"
)

// MapConcCase is a concurrent history of single-key operations.
type MapConcCase struct {
	Size    int       `json:"size"`
	Keys    []KeySpec `json:"keys"`
	Init    []int     `json:"init,omitempty"` // keys present at the start
	Threads [][]MapOp `json:"threads"`
	Pert    []int     `json:"pert,omitempty"`
	Free    bool      `json:"free,omitempty"`
	Plan    Plan      `json:"plan"`
}

type keyState struct {
	val interface{}
	ok  bool
}

type mapIn struct {
	key int
	op  *MapOp
}

// linModel is the sequential specification of one key. Values are ints.
var linModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		max := 0
		for _, o := range h {
			k := o.Input.(mapIn).key
			by[k] = append(by[k], o)
			if k > max {
				max = k
			}
		}
		var out [][]porcupine.Operation
		for k := 0; k <= max; k++ {
			if len(by[k]) > 0 {
				out = append(out, by[k])
			}
		}
		return out
	},
	Init: func() interface{} { return keyState{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		st := state.(keyState)
		op := input.(mapIn).op
		got := output.(opResult)
		v := interface{}(op.V)
		switch op.Op {
		case "init":
			return true, keyState{v, true}
		case "Load":
			if !st.ok {
				return got.val == nil && !got.flag, st
			}
			return got.flag && got.val == st.val, st
		case "LoadOrStore", "LoadOrCompute":
			if got.calls > 1 || (op.Op == "LoadOrCompute" && got.calls == 0 && !got.flag) {
				return false, st
			}
			if st.ok {
				return got.flag && got.val == st.val, st
			}
			return !got.flag && got.val == v, keyState{v, true}
		case "Delete":
			return true, keyState{}
		case "DeleteOrStore", "DeleteOrCompute":
			calls := 0
			if op.Op == "DeleteOrCompute" && !st.ok {
				calls = 1
			}
			if got.calls != calls {
				return false, st
			}
			if st.ok {
				return got.flag && got.val == st.val, keyState{}
			}
			return !got.flag && got.val == v, keyState{v, true}
		case "Modify", "Split":
			if got.calls != 1 || got.seenOk != st.ok || got.seen != st.val {
				return false, st
			}
			nv, store := modify(op.Mod, op.V, st.val, st.ok)
			if got.val != nv || got.flag != store {
				return false, st
			}
			if store {
				return true, keyState{nv, true}
			}
			return true, keyState{}
		}
		panic("HARNESS: unknown operation " + op.Op)
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

func execMapConc(c *Ctx, cs *MapConcCase) {
	hashHook = nil
	m, n := newMapN(cs.Size, max(1, cs.Plan.Procs))
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	ident := map[interface{}]int{} // keys may be given twice
	canon := make([]int, len(keys))
	for i, k := range keys {
		if j, ok := ident[k]; ok {
			canon[i] = j
		} else {
			ident[k], canon[i] = i, i
		}
	}
	var hist []porcupine.Operation
	val := 10000 // unique, outside of valueTable
	initial := map[int]bool{}
	for _, k := range cs.Init {
		k = canon[k%len(keys)]
		if !initial[k] {
			initial[k] = true
			val++
			m.LoadOrStore(keys[k], val)
			hist = append(hist, porcupine.Operation{Input: mapIn{k, &MapOp{Op: "init", V: val}}, Output: opResult{}, Call: -2, Return: -1})
		}
	}
	for i := range cs.Threads {
		for j := range cs.Threads[i] {
			val += 100
			cs.Threads[i][j].V = val
		}
	}

	var s *Sched
	if !cs.Free {
		s = newSched(cs.Plan)
		hashHook = func(h uint64) { s.Point(int(h % 1000)) }
	} else if pt := cs.Pert; len(pt) > 0 {
		hashHook = func(h uint64) { perturb(pt[h%uint64(len(pt))]) }
	}
	defer func() { hashHook = nil }()
	start := time.Now()
	var clock int64 // gated runs: a logical clock
	now := func() int64 {
		if cs.Free { // no synchronisation between threads
			return int64(time.Since(start))
		}
		return atomic.AddInt64(&clock, 1)
	}
	logs := make([][]porcupine.Operation, len(cs.Threads))
	body := func() {
		var wg sync.WaitGroup
		for i := range cs.Threads {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range cs.Threads[i] {
					op := &cs.Threads[i][j]
					t0 := now()
					r := apply(m, keys, op, func(op *MapOp) {
						if s != nil {
							s.Point(op.K)
						} else if len(cs.Pert) > 0 {
							perturb(cs.Pert[(i+j)%len(cs.Pert)])
						}
					})
					logs[i] = append(logs[i], porcupine.Operation{ClientId: i, Input: mapIn{canon[op.K%len(keys)], op}, Output: r, Call: t0, Return: now()})
				}
			}()
		}
		wg.Wait()
	}
	var pv interface{}
	var p bool
	if s != nil {
		pv, p = s.Run(body)
	} else {
		pv, p = plainRun(cs.Plan.Procs, body)
	}
	hashHook = nil
	if p {
		c.Failf("panic: %v", clip(fmt.Sprint(pv), 500))
		return
	}
	end := now() + 1
	classes := map[string]bool{}
	for _, l := range logs {
		for _, o := range l {
			classes[fmt.Sprintf("%s/%v", o.Input.(mapIn).op.Op, o.Output.(opResult).flag)] = true
		}
		hist = append(hist, l...)
	}
	if !v.checkFree(c, "after the last operation") {
		return
	}
	content := v.content()
	for i, k := range keys {
		if canon[i] == i {
			x, ok := content[k]
			hist = append(hist, porcupine.Operation{Input: mapIn{i, &MapOp{Op: "Load", K: i}}, Output: opResult{val: x, flag: ok}, Call: end, Return: end + 1})
			delete(content, k)
		}
	}
	if len(content) != 0 {
		c.Failf("the map holds keys that were never stored: %v", content)
	}
	switch porcupine.CheckOperationsTimeout(linModel, hist, 10*time.Second) {
	case porcupine.Illegal:
		c.Failf("history not linearizable: %s", showHistory(hist, keys))
	case porcupine.Unknown:
		c.Label("linearizability undecided")
	}
	for l := range classes {
		c.Label("%s", l)
	}
	overlap := false
	for i := range hist {
		for j := range hist {
			if i < j && hist[i].ClientId != hist[j].ClientId && hist[i].Input.(mapIn).key == hist[j].Input.(mapIn).key &&
				hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
				overlap = true
			}
		}
	}
	if overlap {
		c.Label("overlapping operations on one key")
	}
	c.NonTrivial(overlap)
}

func showHistory(h []porcupine.Operation, keys interface{}) string {
	s := ""
	for _, o := range h {
		in, out := o.Input.(mapIn), o.Output.(opResult)
		s += fmt.Sprintf("[%d,%d] #%d %s(key %d, %d, mod %d) = %v, %v (calls %d, saw %v %v); ", o.Call, o.Return, o.ClientId, in.op.Op, in.key, in.op.V, in.op.Mod%5, out.val, out.flag, out.calls, out.seen, out.seenOk)
	}
	return clip(s, 3000)
}

// MapStormCase starts several threads at once that all want to be the first
// to store a key, many times over.
type MapStormCase struct {
	Size    int   `json:"size"`
	Threads int   `json:"threads"`
	Rounds  int   `json:"rounds"`
	Ops     []int `json:"ops"`            // per thread: 0 LoadOrStore, 1 LoadOrCompute, 2 Modify count, 3 DeleteOrStore, 4 DeleteOrCompute
	Held    bool  `json:"held,omitempty"` // the split is locked until all threads are under way
	Pert    []int `json:"pert,omitempty"`
	Procs   int   `json:"procs"`
}

func execMapStorm(c *Ctx, cs *MapStormCase) {
	hashHook = nil
	m, _ := newMapN(cs.Size, cs.Procs)
	n := len(cs.Ops)
	type res struct {
		val  int
		flag bool
	}
	for r := 0; r < cs.Rounds && !c.Failed(); r++ {
		key := kNum(mix(uint64(r)))
		rs := make([]res, n)
		var ready int32
		var wg sync.WaitGroup
		body := func() {
			sp := m.Split(key)
			if cs.Held {
				sp.Lock()
			}
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					atomic.AddInt32(&ready, 1)
					if !cs.Held {
						for atomic.LoadInt32(&ready) < int32(n) {
							runtime.Gosched()
						}
					}
					if len(cs.Pert) > 0 {
						perturb(cs.Pert[(i+r)%len(cs.Pert)])
					}
					mine := 1000 + i
					switch cs.Ops[i] % 5 {
					case 0:
						v, l := m.LoadOrStore(key, mine)
						rs[i] = res{v.(int), l}
					case 1:
						v, l := m.LoadOrCompute(key, func() interface{} { return mine })
						rs[i] = res{v.(int), l}
					case 2:
						v, s := m.Modify(key, func(x interface{}, ok bool) (interface{}, bool) {
							if !ok {
								return 1, true
							}
							return x.(int) + 1, true
						})
						rs[i] = res{v.(int), s}
					case 3:
						v, d := m.DeleteOrStore(key, mine)
						rs[i] = res{v.(int), d}
					case 4:
						v, d := m.DeleteOrCompute(key, func() interface{} { return mine })
						rs[i] = res{v.(int), d}
					}
				}()
			}
			if cs.Held {
				for k := 0; k < 1000 && (atomic.LoadInt32(&ready) < int32(n) || k < 20); k++ {
					runtime.Gosched()
				}
				sp.Unlock()
			}
			wg.Wait()
		}
		if pv, p := plainRun(cs.Procs, body); p {
			c.Failf("panic: %v", clip(fmt.Sprint(pv), 500))
			return
		}
		final, ok := m.Load(key)
		// conservation laws
		los, stores := 0, 0
		counts, toggles := 0, 0
		for i := range rs {
			switch cs.Ops[i] % 5 {
			case 0, 1:
				los++
				if !rs[i].flag {
					stores++
				}
			case 2:
				counts++
			default:
				toggles++
			}
		}
		switch {
		case los == n:
			if !ok || stores != 1 {
				c.Failf("round %d: %d of %d LoadOrStore/LoadOrCompute calls on a new key stored: %v", r, stores, n, rs)
			}
			for i := range rs {
				if rs[i].val != final {
					c.Failf("round %d: LoadOrStore/LoadOrCompute calls disagree: %v, the map has %v", r, rs, final)
				}
			}
		case counts == n:
			seen := map[int]bool{}
			for i := range rs {
				seen[rs[i].val] = true
			}
			if !ok || final != n || len(seen) != n {
				c.Failf("round %d: %d increments left %v (results %v)", r, n, final, rs)
			}
		case toggles == n:
			stored, deleted := 0, 0
			vals := map[int]int{}
			for i := range rs {
				if rs[i].flag {
					deleted++
					vals[rs[i].val]--
				} else {
					stored++
					vals[rs[i].val]++
					if rs[i].val != 1000+i {
						c.Failf("round %d: DeleteOrStore/DeleteOrCompute stored %d, returned %d", r, 1000+i, rs[i].val)
					}
				}
			}
			if stored-deleted != n%2 || ok != (n%2 == 1) {
				c.Failf("round %d: %d toggles stored %d times and deleted %d times, present: %v", r, n, stored, deleted, ok)
			}
			for x, k := range vals {
				if k < 0 || (k > 0 && !(ok && final == x)) {
					c.Failf("round %d: value %d stored %+d times more than deleted, the map has %v", r, x, k, final)
				}
			}
		default:
			// mixed: whatever was read must have been written
			if ok {
				x := final.(int)
				if !(x >= 1 && x <= 2*n || x >= 1000 && x < 1000+2*n) {
					c.Failf("round %d: the map has %v, which nobody stored", r, final)
				}
			}
		}
	}
	c.Label("threads %d", n)
	c.NonTrivial(n >= 2)
}

// ---------------------------------------------------------------------------
// Locks

// MapLockCase looks at the locks from inside a callback.
type MapLockCase struct {
	Fill   int       `json:"fill,omitempty"` // further entries
	Size   int       `json:"size"`
	Keys   []KeySpec `json:"keys"`
	Init   []int     `json:"init,omitempty"`
	Op     MapOp     `json:"op"` // an operation or a traversal
	At     int       `json:"at"` // traversals: the call to look from
	Others []MapOp   `json:"others,omitempty"`
	Procs  int       `json:"procs"`
}

func execMapLock(c *Ctx, cs *MapLockCase) {
	hashHook = nil
	m, n := newMapN(cs.Size, cs.Procs)
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	ref := amap{}
	fillMap(m, ref, cs.Fill)
	for _, k := range cs.Init {
		m.LoadOrStore(keys[k%len(keys)], k)
		if _, ok := ref[keys[k%len(keys)]]; !ok {
			ref[keys[k%len(keys)]] = k
		}
	}
	what := "Map." + cs.Op.Op
	var failMu sync.Mutex
	fail := func(f string, a ...interface{}) { failMu.Lock(); defer failMu.Unlock(); c.Failf(f, a...) }
	ran, others := 0, 0
	// look inspects all locks from a callback running on split own (-1: none).
	look := func(own int, alone bool) {
		ran++
		for q, sp := range v.split {
			if sp == nil {
				continue
			}
			if q == own {
				if !held(sp) {
					fail("%s: the write lock of the split is not held inside the callback", what)
				}
			} else if alone && locked(sp) {
				fail("%s: the lock of split %d is held inside the callback (on split %d)", what, q, own)
			}
		}
		// operations elsewhere must complete now
		done := make(chan struct{})
		go func() {
			defer close(done)
			for i := range cs.Others {
				op := &cs.Others[i]
				if v.of(keys[op.K%len(keys)]) == own {
					continue
				}
				others++
				apply(m, keys, op, nil)
			}
		}()
		<-done
	}
	body := func() {
		var mu sync.Mutex
		cnt := 0
		turn := func() bool { mu.Lock(); defer mu.Unlock(); cnt++; return cnt == 1+cs.At%max(1, len(ref)) }
		turnS := func() bool { mu.Lock(); defer mu.Unlock(); cnt++; return cnt == 1+cs.At%n }
		switch cs.Op.Op {
		case "Range":
			m.Range(func(k, x interface{}) bool {
				if turn() {
					look(v.of(k.(interface{ Hash() uint64 })), true)
				}
				return true
			})
		case "ParallelRange":
			m.ParallelRange(func(k, x interface{}) {
				if turn() {
					look(v.of(k.(interface{ Hash() uint64 })), false)
				}
			})
		case "SpeculativeRange":
			m.SpeculativeRange(func(k, x interface{}) bool {
				if turn() {
					look(v.of(k.(interface{ Hash() uint64 })), false)
				}
				return true
			})
		case "And":
			m.And(func(s amap) bool {
				if turnS() {
					look(v.pos[mapID(s)], true)
				}
				return true
			})
		case "Or":
			m.Or(func(s amap) bool {
				if turnS() {
					look(v.pos[mapID(s)], true)
				}
				return false
			})
		case "ReduceInt":
			m.ReduceIntSum(func(s amap) int {
				if turnS() {
					look(v.pos[mapID(s)], true)
				}
				return 0
			})
		case "ParallelAnd":
			m.ParallelAnd(func(s amap) bool {
				if turnS() {
					look(v.pos[mapID(s)], false)
				}
				return true
			})
		case "ParallelReduce":
			m.ParallelReduceIntSum(func(s amap) int {
				if turnS() {
					look(v.pos[mapID(s)], false)
				}
				return 0
			})
		default:
			own := v.of(keys[cs.Op.K%len(keys)])
			apply(m, keys, &cs.Op, func(op *MapOp) {
				if op.Op == "LoadOrCompute" {
					look(-1, true)
				} else {
					look(own, true)
				}
			})
		}
	}
	if pv, p := plainRun(cs.Procs, body); p {
		c.Failf("%s: panic: %v", what, clip(fmt.Sprint(pv), 500))
		return
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	v.checkFree(c, "after "+what)
	c.Label("%s", what)
	if others > 0 {
		c.Label("operations inside the callback")
	}
	c.NonTrivial(ran > 0 && n > 1)
}

// MapExclCase runs many operations whose callbacks touch unsynchronised data
// that belongs to the split (race build).
type MapExclCase struct {
	Fill    int       `json:"fill,omitempty"` // further entries
	Size    int       `json:"size"`
	Keys    []KeySpec `json:"keys"`
	Init    []int     `json:"init,omitempty"`
	Threads [][]MapOp `json:"threads"`
	Pert    []int     `json:"pert,omitempty"`
	Procs   int       `json:"procs"`
}

func execMapExcl(c *Ctx, cs *MapExclCase) {
	hashHook = nil
	m, n := newMapN(cs.Size, cs.Procs)
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	owner := make([]int, len(keys))
	keyPos := map[interface{}]int{}
	for i, k := range keys {
		owner[i] = v.of(k)
		keyPos[k] = owner[i]
	}
	extra := amap{}
	fillMap(m, extra, cs.Fill)
	for k := range extra {
		keyPos[k] = v.of(k.(kNum))
	}
	for _, k := range cs.Init {
		m.LoadOrStore(keys[k%len(keys)], k)
	}
	counters := make([]int, n) // plain
	want := make([]int64, n)
	touch := func(p, pt int) {
		if p < 0 || p >= n {
			return
		}
		counters[p]++
		atomic.AddInt64(&want[p], 1)
		if len(cs.Pert) > 0 {
			perturb(cs.Pert[pt%len(cs.Pert)])
		}
		counters[p]++
	}
	_, p := plainRun(cs.Procs, func() {
		var wg sync.WaitGroup
		for i := range cs.Threads {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range cs.Threads[i] {
					op := &cs.Threads[i][j]
					ki := op.K % len(keys)
					entry := func(k, x interface{}) bool { touch(keyPos[k], i+j); return true }
					pred := func(b bool) func(s amap) bool {
						return func(s amap) bool {
							touch(v.pos[mapID(s)], i+j)
							if op.Mod%2 == 1 { // the callback may change the split
								for k := range s {
									delete(s, k)
									break
								}
							}
							return b
						}
					}
					num := func(s amap) int { pred(true)(s); return len(s) }
					switch op.Op {
					case "Range":
						m.Range(entry)
					case "ParallelRange":
						m.ParallelRange(func(k, x interface{}) { entry(k, x) })
					case "SpeculativeRange":
						m.SpeculativeRange(entry)
					case "And":
						m.And(pred(true))
					case "Or":
						m.Or(pred(false))
					case "ParallelAnd":
						m.ParallelAnd(pred(true))
					case "ParallelOr":
						m.ParallelOr(pred(false))
					case "SpeculativeAnd":
						m.SpeculativeAnd(pred(true))
					case "SpeculativeOr":
						m.SpeculativeOr(pred(false))
					case "Reduce":
						m.ReduceInt(num, func(x, y int) int { return x + y })
					case "ParallelReduce":
						m.ParallelReduceInt(num, func(x, y int) int { return x + y })
					case "SpeculativeReduce":
						m.SpeculativeReduceInt(func(s amap) (int, bool) { return num(s), false }, func(x, y int) (int, bool) { return x + y, false })
					case "LoadOrCompute":
						apply(m, keys, op, nil)
					default:
						apply(m, keys, op, func(op *MapOp) { touch(owner[ki], i+j) })
					}
				}
			}()
		}
		wg.Wait()
	})
	if p {
		c.Failf("panic")
		return
	}
	for q := range counters {
		if int64(counters[q]) != 2*want[q] {
			c.Failf("callbacks on split %d overlapped: %d updates, %d counted", q, 2*want[q], counters[q])
		}
	}
	v.checkFree(c, "after all operations")
	c.NonTrivial(len(cs.Threads) >= 2)
}

// ---------------------------------------------------------------------------
// Traversals

// MapTravCase is a traversal, possibly with concurrent mutation.
type MapTravCase struct {
	Fn      string    `json:"fn"` // Range, ParallelRange, SpeculativeRange
	Size    int       `json:"size"`
	Keys    []KeySpec `json:"keys"`
	Stable  int       `json:"stable"` // the first so many keys are present and not touched
	Init    []int     `json:"init,omitempty"`
	Threads [][]MapOp `json:"threads,omitempty"` // mutation of the other keys
	FalseAt []int     `json:"falseat,omitempty"` // keys for which the function returns false
	PanicAt int       `json:"panicat,omitempty"` // 1 + key for which it panics
	Kind    int       `json:"kind,omitempty"`
	Block   bool      `json:"block,omitempty"` // SpeculativeRange: calls right of the left-most split with a false block until the return
	Free    bool      `json:"free,omitempty"`
	Pert    []int     `json:"pert,omitempty"`
	Plan    Plan      `json:"plan"`
}

func execMapTrav(c *Ctx, cs *MapTravCase) {
	hashHook = nil
	what := "Map." + cs.Fn
	m, n := newMapN(cs.Size, max(1, cs.Plan.Procs))
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	idx := map[interface{}]int{}
	pos := make([]int, len(keys))
	stable := cs.Stable % (len(keys) + 1)
	if len(cs.Threads) == 0 {
		stable = len(keys)
	}
	for i, k := range keys {
		if _, dup := idx[k]; !dup {
			idx[k] = i
		}
		pos[i] = v.of(k)
	}
	vals := make([]int, len(keys)) // stable keys: the value
	present := 0
	for i, k := range keys {
		if idx[k] != i {
			continue
		}
		if i < stable {
			vals[i] = 500 + i
			m.LoadOrStore(k, vals[i])
			present++
		}
	}
	for _, k := range cs.Init {
		if k = idx[keys[k%len(keys)]]; k >= stable {
			m.LoadOrStore(keys[k], (k+1)*100000+99999)
		}
	}
	falseAt := make([]bool, len(keys))
	leftFalse := n
	if cs.Fn != "ParallelRange" && len(cs.Threads) == 0 {
		for _, k := range cs.FalseAt {
			k = idx[keys[k%len(keys)]]
			falseAt[k] = true
			leftFalse = min(leftFalse, pos[k])
		}
	}
	anyFalse := leftFalse < n
	panicAt := -1
	if cs.PanicAt > 0 && !anyFalse && len(cs.Threads) == 0 {
		panicAt = idx[keys[(cs.PanicAt-1)%len(keys)]]
	}
	var mu sync.Mutex
	fail := func(f string, a ...interface{}) { mu.Lock(); defer mu.Unlock(); c.Failf(f, a...) }
	seen := make([]int, len(keys)) // plain writes in free runs
	stoppedSplit := make([]bool, n)
	stopped := false
	returned := make(chan struct{})
	var s *Sched
	if !cs.Free && cs.Fn != "Range" || len(cs.Threads) > 0 && !cs.Free {
		s = newSched(cs.Plan)
	}
	finished := 0
	f := func(k, x interface{}) bool {
		i, ok := idx[k]
		if !ok {
			fail("%s: visited the key %v, which was never stored", what, k)
			return true
		}
		if i < stable {
			if x != interface{}(vals[i]) {
				fail("%s: visited key %v with value %v, want %v", what, k, x, vals[i])
			}
		} else if w, isInt := x.(int); !isInt || w/100000-1 != i {
			// values of volatile keys are (key+1)*100000+something
			fail("%s: visited key %d with value %v, which it never had", what, i, x)
		}
		if cs.Free {
			if len(cs.Pert) > 0 {
				perturb(cs.Pert[i%len(cs.Pert)])
			}
			seen[i]++
		} else {
			mu.Lock()
			seen[i]++
			if stoppedSplit[pos[i]] {
				c.Failf("%s: called for another entry of split %d after returning false there", what, pos[i])
			}
			if stopped && cs.Fn == "Range" {
				c.Failf("%s: called after having returned false", what)
			}
			mu.Unlock()
			if s != nil {
				s.Point(pos[i])
			}
			if cs.Block && pos[i] > leftFalse {
				<-returned
			}
			if sp := v.split[pos[i]]; sp != nil && !held(sp) {
				fail("%s: the write lock of the split is not held", what)
			}
		}
		if i == panicAt {
			throw(cs.Kind, 1000+i)
		}
		if cs.Free {
			return !falseAt[i]
		}
		mu.Lock()
		defer mu.Unlock()
		finished++
		if falseAt[i] {
			stoppedSplit[pos[i]] = true
			stopped = true
			return false
		}
		return true
	}
	finAtReturn := 0
	var tp interface{}
	var tpanic bool
	traverse := func() {
		defer func() {
			if tpanic {
				tp = recover()
			}
			mu.Lock()
			finAtReturn = finished
			mu.Unlock()
			close(returned)
		}()
		tpanic = true
		switch cs.Fn {
		case "Range":
			m.Range(f)
		case "ParallelRange":
			m.ParallelRange(func(k, x interface{}) { f(k, x) })
		default:
			m.SpeculativeRange(f)
		}
		tpanic = false
	}
	body := func() {
		var wg sync.WaitGroup
		for i := range cs.Threads {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range cs.Threads[i] {
					op := cs.Threads[i][j]
					k := op.K % len(keys)
					if idx[keys[k]] < stable {
						continue
					}
					op.K = idx[keys[k]]
					op.V = (op.K+1)*100000 + i*100 + j
					if op.Mod%5 == 4 { // no counting
						op.Mod = 0
					}
					if s != nil {
						s.Point(n + i)
					} else if len(cs.Pert) > 0 {
						perturb(cs.Pert[(i+j)%len(cs.Pert)])
					}
					apply(m, keys, &op, nil)
				}
			}()
		}
		traverse()
		wg.Wait()
	}
	var pv interface{}
	var p bool
	if s != nil {
		pv, p = s.Run(body)
	} else {
		pv, p = plainRun(cs.Plan.Procs, body)
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	if p {
		c.Failf("%s: harness threads panicked: %v", what, clip(fmt.Sprint(pv), 500))
		return
	}
	if tpanic {
		if panicAt < 0 {
			c.Failf("%s: unexpected panic: %v", what, clip(fmt.Sprint(tp), 500))
			return
		}
		checkPanic(c, what, tp, cs.Kind, 1000+panicAt)
	} else if panicAt >= 0 {
		c.Failf("%s: the function panicked, the call returned normally", what)
	}
	if !(cs.Free && cs.Fn == "SpeculativeRange" && anyFalse) {
		for i, k := range seen {
			if k > 1 {
				c.Failf("%s: key %d visited %d times", what, i, k)
			}
			if k == 0 && i < stable && idx[keys[i]] == i && !anyFalse && panicAt < 0 {
				c.Failf("%s: key %v not visited", what, keys[i])
			}
		}
		if anyFalse && !cs.Free {
			// the left-most split with a false entry is reached
			if !stopped {
				c.Failf("%s: no call for a key whose result is false", what)
			}
			if cs.Fn == "SpeculativeRange" {
				for i := range keys { // nothing stops left of it
					if idx[keys[i]] == i && pos[i] < leftFalse && seen[i] == 0 {
						c.Failf("%s: key %v not visited, although left of the first false result", what, keys[i])
					}
				}
			}
		}
	}
	if !anyFalse && panicAt < 0 && !cs.Free && len(cs.Threads) == 0 && finAtReturn != present {
		c.Failf("%s: returned when %d of %d calls had terminated", what, finAtReturn, present)
	}
	if v.checkFree(c, "after "+what) && len(cs.Threads) == 0 {
		want := amap{}
		for i, k := range keys {
			if idx[k] == i {
				want[k] = vals[i]
			}
		}
		if d := sameMap(v.content(), want); d != "" {
			c.Failf("after %s: %s", what, d)
		}
	}
	c.Label("%s", what)
	if anyFalse {
		c.Label("false")
	}
	if panicAt >= 0 {
		c.Label("panic")
	}
	if len(cs.Threads) > 0 {
		c.Label("concurrent mutation")
	}
	c.NonTrivial(present >= 2 && n >= 2)
}

// ---------------------------------------------------------------------------
// Panics in single-key operations

// MapPanicCase lets a callback panic between ordinary operations.
type MapPanicCase struct {
	Fill  int       `json:"fill,omitempty"` // further entries
	Size  int       `json:"size"`
	Keys  []KeySpec `json:"keys"`
	Ops   []MapOp   `json:"ops"` // those with Panic != 0 panic in their callback (kind Panic-1)
	Procs int       `json:"procs"`
}

func execMapPanic(c *Ctx, cs *MapPanicCase) {
	hashHook = nil
	m, n := newMapN(cs.Size, cs.Procs)
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	ref := amap{}
	fillMap(m, ref, cs.Fill)
	panics := 0
	for i := range cs.Ops {
		op := &cs.Ops[i]
		what := fmt.Sprintf("operation %d, %s", i, op.Op)
		if op.Op == "Split" {
			continue
		}
		if op.Bad > 0 {
			bad := badKey(op.Bad-1, keys[op.K%len(keys)].Hash(), 1000+i)
			one := *op
			one.K = 0
			pv, p := plainRun(cs.Procs, func() { apply(m, []psync.Hasher{bad}, &one, nil) })
			if !p {
				c.Failf("%s: a key that is not hashable was accepted", what)
			} else if k, ok := bad.(kThrow); ok {
				checkPanic(c, what, pv, k.kind, k.id)
			}
			c.Label("bad key in %s", op.Op)
			panics++
			if c.Failed() || !v.checkFree(c, "after "+what+" with a key that is not hashable") {
				return
			}
			if d := sameMap(v.content(), ref); d != "" {
				c.Failf("after %s with a key that is not hashable: %s", what, d)
				return
			}
			continue
		}
		var got opResult
		called := false
		pv, p := plainRun(cs.Procs, func() {
			got = apply(m, keys, op, func(op *MapOp) {
				if op.Panic > 0 {
					called = true
					throw(op.Panic-1, 1000+i)
				}
			})
		})
		if op.Panic > 0 && called {
			panics++
			c.Label("panic in %s", op.Op)
			if !p {
				c.Failf("%s: the callback panicked, the call returned normally", what)
			} else {
				checkPanic(c, what, pv, op.Panic-1, 1000+i)
			}
		} else {
			if p {
				c.Failf("%s: unexpected panic: %v", what, clip(fmt.Sprint(pv), 500))
				return
			}
			if want := model(ref, keys, op, nil); !reflect.DeepEqual(got, want) {
				c.Failf("%s: got %+v, want %+v", what, got, want)
				return
			}
		}
		if c.Failed() || !v.checkFree(c, "after "+what) {
			return
		}
		if d := sameMap(v.content(), ref); d != "" {
			c.Failf("after %s: %s", what, d)
			return
		}
	}
	c.NonTrivial(panics > 0)
}
