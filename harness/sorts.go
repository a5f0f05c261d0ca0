package harness

import (
	"fmt"
	"math"
	gosort "sort"
	"strings"
	"sync"
	"sync/atomic"

	psort "github.com/exascience/pargo/sort"
	"pgregory.net/rapid"
)

// SortCase describes contents compactly, so that large ones shrink.
type SortCase struct {
	Fn      string   `json:"fn"`   // Sort, StableSort, IsSorted
	Type    string   `json:"type"` // int, float, string, box
	N       int      `json:"n"`
	Pat     int      `json:"pat"`
	K       int      `json:"k"` // number of distinct keys (or another parameter of the pattern)
	Seed    int      `json:"seed"`
	Segs    [][2]int `json:"segs,omitempty"`    // key ranges of equal-sized segments (pattern 6)
	Edits   [][2]int `json:"edits,omitempty"`   // positions (modulo n) and keys
	Special int      `json:"special,omitempty"` // float: every key divisible by it becomes NaN, an infinity or a zero; int: extreme values
	At      []int    `json:"at,omitempty"`      // IsSorted: positions of single descents to try
	Every   int      `json:"every,omitempty"`   // scheduled runs: park every so many accesses
	Pert    []int    `json:"pert,omitempty"`
	Procs   int      `json:"procs"`
	Plan    Plan     `json:"plan"`

	// S05: method Fault panics at its FaultAt-th call (from it on if FaultAll)
	Fault     string `json:"fault,omitempty"`
	FaultAt   int    `json:"faultat,omitempty"`
	FaultKind int    `json:"faultkind,omitempty"`
	FaultAll  bool   `json:"faultall,omitempty"`
}

func (cs *SortCase) keys() []int {
	n, k := cs.N, cs.K
	if k < 1 {
		k = 1
	}
	ks := make([]int, n)
	rnd := func(i int) int { return int(mix(uint64(i)*2654435761+uint64(cs.Seed)) >> 1) }
	for i := range ks {
		switch cs.Pat {
		case 0:
			ks[i] = rnd(i) % k
		case 1:
			ks[i] = i * k / n
		case 2:
			ks[i] = (n - 1 - i) * k / n
		case 3: // organ pipe
			ks[i] = min(i, n-1-i) * k / n
		case 4: // saw tooth
			ks[i] = i % k
		case 5:
			ks[i] = 7
		case 6: // segments
			if len(cs.Segs) > 0 {
				s := cs.Segs[i*len(cs.Segs)/n]
				lo, hi := min(s[0], s[1]), max(s[0], s[1])
				ks[i] = lo + rnd(i)%(hi-lo+1)
			}
		case 7, 10: // sorted with k swaps (below)
			ks[i] = i / (1 + cs.Seed%5)
		case 8: // two keys, in blocks of k
			ks[i] = (i / k) % 2
		case 9: // reversed saw
			ks[i] = k - i%k
		case 11: // valley
			ks[i] = max(i, n-1-i) * k / n
		}
	}
	if cs.Pat == 7 && n > 0 {
		for i := 0; i < k%50; i++ {
			a, b := rnd(i)%n, rnd(i+1000)%n
			ks[a], ks[b] = ks[b], ks[a]
		}
	}
	if cs.Pat == 6 && cs.K%2 == 0 && len(cs.Segs) > 0 { // sorted runs
		for s := 0; s < len(cs.Segs); s++ {
			lo, hi := (s*n+len(cs.Segs)-1)/len(cs.Segs), ((s+1)*n+len(cs.Segs)-1)/len(cs.Segs)
			gosort.Ints(ks[min(lo, n):min(hi, n)])
		}
	}
	for _, e := range cs.Edits {
		if n > 0 {
			ks[e[0]%n] = e[1]
		}
	}
	return ks
}

func (cs *SortCase) ints() []int {
	ks := cs.keys()
	if cs.Special > 0 {
		for i, k := range ks {
			if k%cs.Special == 0 {
				switch (k / cs.Special) % 3 {
				case 0:
					ks[i] = math.MinInt64
				case 1:
					ks[i] = math.MaxInt64
				default:
					ks[i] = -k
				}
			}
		}
	}
	return ks
}

func (cs *SortCase) floats() []float64 {
	ks := cs.keys()
	fs := make([]float64, len(ks))
	for i, k := range ks {
		fs[i] = float64(k) / 8
		if cs.Special > 0 && k%cs.Special == 0 {
			switch (k / cs.Special) % 6 {
			case 0, 1:
				fs[i] = math.NaN()
			case 2:
				fs[i] = math.Inf(-1)
			case 3:
				fs[i] = math.Inf(1)
			case 4:
				fs[i] = math.Copysign(0, -1)
			case 5:
				fs[i] = 0
			}
		}
	}
	return fs
}

func (cs *SortCase) strings() []string {
	ks := cs.keys()
	ss := make([]string, len(ks))
	for i, k := range ks {
		if cs.Special > 0 && k%cs.Special == 0 {
			if ss[i] = strings.Repeat("a", k%7); k%3 == 0 { // not UTF-8
				ss[i] += string([]byte{byte(0x80 + k%100)})
			}
		} else {
			ss[i] = fmt.Sprintf("a%06d", k)
		}
	}
	return ss
}

type box struct{ key, id int }

func boxesOf(ks []int) []box {
	bs := make([]box, len(ks))
	for i, k := range ks {
		bs[i] = box{k, i}
	}
	return bs
}

// boxSlice is a user-defined collection without instrumentation.
type boxSlice []box

func (s boxSlice) Len() int           { return len(s) }
func (s boxSlice) Less(i, j int) bool { return s[i].key < s[j].key }
func (s boxSlice) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
func (s boxSlice) SequentialSort(i, j int) {
	gosort.SliceStable(s[i:j], func(a, b int) bool { return s[i+a].key < s[i+b].key })
}
func (s boxSlice) NewTemp() psort.StableSorter { return make(boxSlice, len(s)) }
func (s boxSlice) Assign(source psort.StableSorter) func(i, j, n int) {
	src := source.(boxSlice)
	return func(i, j, n int) { copy(s[i:i+n], src[j:j+n]) }
}

// checkBoxes verifies the result of sorting boxes made from ks.
func checkBoxes(c *Ctx, what string, ks []int, got []box, stable bool) {
	seen := make([]bool, len(ks))
	for i, b := range got {
		if b.id < 0 || b.id >= len(ks) || seen[b.id] || ks[b.id] != b.key {
			c.Failf("%s: not a permutation of the input: element %v at %d was not there or is there twice", what, b, i)
			return
		}
		seen[b.id] = true
	}
	for i := 1; i < len(got); i++ {
		a, b := got[i-1], got[i]
		if b.key < a.key {
			c.Failf("%s: not sorted: key %d at %d after key %d", what, b.key, i, a.key)
			return
		}
		if stable && b.key == a.key && b.id < a.id {
			c.Failf("%s: not stable: equal elements %d and %d are exchanged at %d", what, b.id, a.id, i)
			return
		}
	}
}

// execSort runs Sort, StableSort on plain collections.
func execSort(c *Ctx, cs *SortCase) {
	what := cs.Fn + "(" + cs.Type + ")"
	var got interface{}
	var check func()
	call := func(data psort.Sorter, st psort.StableSorter) func() {
		if cs.Fn == "StableSort" {
			return func() { psort.StableSort(st) }
		}
		return func() { psort.Sort(data) }
	}
	var run func()
	switch cs.Type {
	case "int":
		d := cs.ints()
		want := append([]int(nil), d...)
		gosort.Ints(want)
		run = call(psort.IntSlice(d), psort.IntSlice(d))
		check = func() {
			for i := range d {
				if d[i] != want[i] {
					c.Failf("%s: element %d of %d is %d, want %d", what, i, len(d), d[i], want[i])
					return
				}
			}
		}
	case "float":
		d := cs.floats()
		want := append([]float64(nil), d...)
		gosort.Stable(gosort.Float64Slice(want))
		run = call(psort.Float64Slice(d), psort.Float64Slice(d))
		check = func() {
			zeros := 0
			for i := range d {
				a, b := d[i], want[i]
				if !(a == b || (math.IsNaN(a) && math.IsNaN(b))) {
					c.Failf("%s: element %d of %d is %v, want %v", what, i, len(d), a, b)
					return
				}
				if cs.Fn == "StableSort" && math.Signbit(a) != math.Signbit(b) && !math.IsNaN(a) {
					c.Failf("%s: not stable: zeros exchanged at %d", what, i)
				}
				if math.Signbit(a) && a == 0 {
					zeros++
				}
				if math.Signbit(b) && b == 0 {
					zeros--
				}
			}
			if zeros != 0 {
				c.Failf("%s: negative zeros lost or gained: %+d", what, zeros)
			}
		}
	case "string":
		d := cs.strings()
		want := append([]string(nil), d...)
		gosort.Strings(want)
		run = call(psort.StringSlice(d), psort.StringSlice(d))
		check = func() {
			for i := range d {
				if d[i] != want[i] {
					c.Failf("%s: element %d of %d is %q, want %q", what, i, len(d), d[i], want[i])
					return
				}
			}
		}
	default:
		ks := cs.keys()
		d := boxesOf(ks)
		run = call(boxSlice(d), boxSlice(d))
		check = func() { checkBoxes(c, what, ks, d, cs.Fn == "StableSort") }
	}
	_ = got
	if pv, p := plainRun(cs.Procs, run); p {
		c.Failf("%s: panic %v", what, clip(fmt.Sprint(pv), 800))
		return
	}
	check()
	c.Label("%s", what)
	c.Label("pattern %d", cs.Pat)
	sizeLabel(c, cs.N)
	if cs.Fn == "StableSort" {
		c.NonTrivial(cs.N >= 0x3000)
	} else {
		c.NonTrivial(cs.N >= 0x500)
	}
}

func sizeLabel(c *Ctx, n int) {
	switch {
	case n < 0x500:
		c.Label("n<1280")
	case n < 0x3000:
		c.Label("n 1280..12287")
	case n < 4*0x3000:
		c.Label("n 12288..49151")
	default:
		c.Label("n>=49152")
	}
}

// execIsSorted compares the predicates with the definition.
func execIsSorted(c *Ctx, cs *SortCase) {
	what := "IsSorted(" + cs.Type + ")"
	ask := func(label string, got func() bool, want bool) {
		var g bool
		if pv, p := plainRun(cs.Procs, func() { g = got() }); p {
			c.Failf("%s: panic %v", what, clip(fmt.Sprint(pv), 800))
		} else if g != want {
			c.Failf("%s of %d elements: %v, want %v (%s)", what, cs.N, g, want, label)
		}
		if lk := leaked(); lk != "" {
			c.Failf("%s: goroutines left: %s", what, lk)
		}
	}
	nontriv := false
	// positions: descents between at-1 and at in otherwise sorted data
	at := append([]int(nil), cs.At...)
	if cs.Special == 99 { // all positions
		at = nil
		for i := 1; i < cs.N; i++ {
			at = append(at, i)
		}
	}
	for i := range at {
		if cs.N >= 2 {
			at[i] = 1 + at[i]%(cs.N-1)
		}
	}
	switch cs.Type {
	case "int":
		d := cs.ints()
		ask("as generated", func() bool { return psort.IntsAreSorted(d) }, gosort.IntsAreSorted(d))
		gosort.Ints(d)
		ask("sorted", func() bool { return psort.IntsAreSorted(d) }, true)
		for _, p := range at {
			if cs.N < 2 || c.Failed() {
				break
			}
			// only p-1 > p: raise nothing else
			a, b := d[p-1], d[p]
			d[p-1], d[p] = b, a
			want := gosort.IntsAreSorted(d)
			ask(fmt.Sprintf("exchange at %d", p), func() bool { return psort.IntsAreSorted(d) }, want)
			nontriv = nontriv || !want
			d[p-1], d[p] = a, b
		}
	case "float":
		d := cs.floats()
		ask("as generated", func() bool { return psort.Float64sAreSorted(d) }, gosort.Float64sAreSorted(d))
		gosort.Float64s(d)
		ask("sorted", func() bool { return psort.Float64sAreSorted(d) }, true)
		for _, p := range at {
			if cs.N < 2 || c.Failed() {
				break
			}
			a, b := d[p-1], d[p]
			d[p-1], d[p] = b, a
			want := gosort.Float64sAreSorted(d)
			ask(fmt.Sprintf("exchange at %d", p), func() bool { return psort.Float64sAreSorted(d) }, want)
			nontriv = nontriv || !want
			d[p-1], d[p] = a, b
		}
	case "string":
		d := cs.strings()
		ask("as generated", func() bool { return psort.StringsAreSorted(d) }, gosort.StringsAreSorted(d))
		gosort.Strings(d)
		ask("sorted", func() bool { return psort.StringsAreSorted(d) }, true)
		for _, p := range at {
			if cs.N < 2 || c.Failed() {
				break
			}
			a, b := d[p-1], d[p]
			d[p-1], d[p] = b, a
			want := gosort.StringsAreSorted(d)
			ask(fmt.Sprintf("exchange at %d", p), func() bool { return psort.StringsAreSorted(d) }, want)
			nontriv = nontriv || !want
			d[p-1], d[p] = a, b
		}
	default:
		// every pair but (p-1, p) compares as sorted
		for _, p := range append(at, -1, 0) {
			d := &oneDescent{n: cs.N, at: p}
			want := !(p >= 1 && p < cs.N)
			ask(fmt.Sprintf("single descent at %d", p), func() bool { return psort.IsSorted(d) }, want)
			if atomic.LoadInt32(&d.bad) != 0 {
				c.Failf("%s: compares elements other than neighbours or out of range", what)
			}
			nontriv = nontriv || !want
			if c.Failed() {
				break
			}
		}
	}
	c.Label("%s", what)
	sizeLabel(c, cs.N)
	c.NonTrivial(nontriv && cs.N >= 0x500)
}

// oneDescent is a sequence 0, 1, ..., with exactly one descent.
type oneDescent struct {
	n, at int
	bad   int32
}

func (d *oneDescent) Len() int { return d.n }
func (d *oneDescent) Less(i, j int) bool {
	if i < 0 || j < 0 || i >= d.n || j >= d.n {
		atomic.StoreInt32(&d.bad, 1)
		return false
	}
	// elements are 2*index, except that the one at d.at is one less than its predecessor's
	val := func(i int) int {
		if d.at < 1 || i < d.at {
			return 2 * i
		}
		return 2*i - 3 // at: 2*at-3 < 2*(at-1)
	}
	return val(i) < val(j)
}
func (d *oneDescent) Swap(i, j int) { atomic.StoreInt32(&d.bad, 1) }

// ---------------------------------------------------------------------------
// Access discipline

// guarded is a collection that checks every access. In scheduled runs accesses
// park at gates, so that overlapping ones really overlap; in race runs the
// accesses are plain memory accesses judged by the race detector.
type guarded struct {
	st    *guardState
	id    int // 0: the collection, 1..: temporaries
	boxes []box
}

type span struct {
	arr, lo, hi int
	write       bool
	op          string
}

type guardState struct {
	mu     sync.Mutex
	active map[*span]bool
	msg    string
	closed int32
	count  int32
	calls  int64
	every  int32
	sched  *Sched
	pert   []int
	temps  int32
	bad    atomic.Value

	fault  *SortCase
	calls0 int32
	fired  []int
}

// trip panics if this call of method op is to fail.
func (g *guardState) trip(op string) {
	f := g.fault
	if f == nil || f.Fault != op {
		return
	}
	n := int(atomic.AddInt32(&g.calls0, 1)) - 1
	if n == f.FaultAt || f.FaultAll && n > f.FaultAt {
		g.mu.Lock()
		g.fired = append(g.fired, n)
		g.mu.Unlock()
		throw(f.FaultKind, 1000+n)
	}
}

func (g *guardState) fail(format string, a ...interface{}) {
	g.bad.CompareAndSwap(nil, fmt.Sprintf(format, a...))
}

// access performs f as an access to the given spans.
func (d *guarded) access(op string, f func(), spans ...span) {
	g := d.st
	for i := range spans {
		s := &spans[i]
		if s.lo < 0 || s.hi < s.lo || s.hi > len(d.boxes) {
			g.fail("%s: access outside of the collection: [%d,%d)", op, s.lo, s.hi)
			return
		}
	}
	if atomic.LoadInt32(&g.closed) != 0 {
		g.fail("%s: access after the call has returned", op)
		return
	}
	g.trip(op)
	if g.sched == nil { // race run
		if len(g.pert) > 0 && len(spans) > 0 {
			k := spans[0].lo
			if (k & 63) == 0 {
				perturb(g.pert[(k>>6)%len(g.pert)])
			}
		}
		f()
		return
	}
	g.mu.Lock()
	var mine []*span
	for i := range spans {
		s := &spans[i]
		s.op = op
		if s.lo == s.hi {
			continue
		}
		for o := range g.active {
			if o.arr == s.arr && o.lo < s.hi && s.lo < o.hi && (o.write || s.write) {
				g.fail("%s on [%d,%d) overlaps with %s on [%d,%d)", op, s.lo, s.hi, o.op, o.lo, o.hi)
			}
		}
		mine = append(mine, s)
	}
	for _, s := range mine {
		g.active[s] = true
	}
	g.count++
	park := g.every > 0 && g.count%g.every == 0
	g.mu.Unlock()
	if park && len(spans) > 0 {
		g.sched.Point(spans[0].lo)
		if atomic.LoadInt32(&g.closed) != 0 {
			g.fail("%s: access in progress when the call returned", op)
		}
	}
	f()
	g.mu.Lock()
	for _, s := range mine {
		delete(g.active, s)
	}
	g.mu.Unlock()
}

func (d *guarded) rd(lo, hi int) span { return span{arr: d.id, lo: lo, hi: hi} }
func (d *guarded) wr(lo, hi int) span { return span{arr: d.id, lo: lo, hi: hi, write: true} }

func (d *guarded) Len() int {
	d.access("Len", func() {})
	return len(d.boxes)
}

func (d *guarded) Less(i, j int) (r bool) {
	d.access("Less", func() { r = d.boxes[i].key < d.boxes[j].key }, d.rd(i, i+1), d.rd(j, j+1))
	return
}

func (d *guarded) Swap(i, j int) {
	if i == j {
		d.access("Swap", func() {}, d.rd(i, i+1))
		return
	}
	d.access("Swap", func() { d.boxes[i], d.boxes[j] = d.boxes[j], d.boxes[i] }, d.wr(i, i+1), d.wr(j, j+1))
}

func (d *guarded) SequentialSort(i, j int) {
	d.access("SequentialSort", func() { boxSlice(d.boxes).SequentialSort(i, j) }, d.wr(i, j))
}

func (d *guarded) NewTemp() (t psort.StableSorter) {
	d.access("NewTemp", func() {
		t = &guarded{st: d.st, id: int(atomic.AddInt32(&d.st.temps, 1)), boxes: make([]box, len(d.boxes))}
	})
	return
}

func (d *guarded) Assign(source psort.StableSorter) func(i, j, n int) {
	src := source.(*guarded)
	d.st.trip("Bind")
	return func(i, j, n int) {
		s := src.rd(j, j+n)
		if n < 0 || j < 0 || j+n > len(src.boxes) {
			d.st.fail("Assign: source range [%d,%d) outside of the collection", j, j+n)
			return
		}
		d.access("Assign", func() { copy(d.boxes[i:i+n], src.boxes[j:j+n]) }, d.wr(i, i+n), s)
	}
}

func execSortGuard(c *Ctx, cs *SortCase) {
	what := cs.Fn
	ks := cs.keys()
	st := &guardState{active: map[*span]bool{}, every: int32(cs.Every), pert: cs.Pert}
	if cs.Fault != "" {
		st.fault = cs
		what = fmt.Sprintf("%s of %d elements (%s panics)", cs.Fn, cs.N, cs.Fault)
	}
	d := &guarded{st: st, boxes: boxesOf(ks)}
	var sorted bool
	body := func() {
		switch cs.Fn {
		case "StableSort":
			psort.StableSort(d)
		case "Sort":
			psort.Sort(d)
		default:
			sorted = psort.IsSorted(d)
		}
		atomic.StoreInt32(&st.closed, 1)
		if st.sched == nil { // the caller may now modify its collection
			for i := range d.boxes {
				d.boxes[i].key++
			}
		}
	}
	var pv interface{}
	var p bool
	if cs.Every > 0 {
		st.sched = newSched(cs.Plan)
		pv, p = st.sched.Run(body)
	} else {
		pv, p = plainRun(cs.Procs, body)
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left: %s", what, lk)
	}
	st.mu.Lock()
	fired := st.fired
	st.mu.Unlock()
	if p && len(fired) == 0 {
		c.Failf("%s: panic %v", what, clip(fmt.Sprint(pv), 800))
		return
	}
	if m, _ := st.bad.Load().(string); m != "" {
		c.Failf("%s of %d elements: %s", what, cs.N, m)
		return
	}
	if len(fired) > 0 {
		if !p {
			c.Failf("%s: the call returned normally", what)
			return
		}
		// one of the panics that were raised
		tok := func(n int) string {
			if k := cs.FaultKind % panicKinds; k == 2 || k == 7 {
				return fmt.Sprintf("index out of range [%d]", 1000+n)
			}
			return fmt.Sprintf("boom#%d#", 1000+n)
		}
		which := fired[0]
		for _, n := range fired {
			if strings.Contains(fmt.Sprint(pv), tok(n)) {
				which = n
			}
		}
		checkPanic(c, what, pv, cs.FaultKind, 1000+which)
		if cs.Fn != "StableSort" && st.sched != nil { // exchanges only
			got, want := append([]box(nil), d.boxes...), boxesOf(ks)
			gosort.Slice(got, func(i, j int) bool { return got[i].id < got[j].id })
			for i := range got {
				if got[i] != want[i] {
					c.Failf("%s: the collection does not hold its elements any more", what)
					break
				}
			}
		}
		c.Label("%s/%s", cs.Fn, cs.Fault)
		sizeLabel(c, cs.N)
		c.NonTrivial(true)
		return
	}
	if st.sched == nil {
		for i := range d.boxes {
			d.boxes[i].key--
		}
	}
	if cs.Fn == "IsSorted" {
		if want := gosort.IntsAreSorted(ks); want != sorted {
			c.Failf("IsSorted: %v, want %v", sorted, want)
		}
	} else {
		checkBoxes(c, what, ks, d.boxes, cs.Fn == "StableSort")
	}
	c.Label("%s", what)
	sizeLabel(c, cs.N)
	if st.sched != nil && st.sched.MaxWaiting >= 2 {
		c.Label("parked>=2")
	}
	c.NonTrivial((cs.Fn == "StableSort" && cs.N >= 0x3000 || cs.Fn != "StableSort" && cs.N >= 0x500) && (st.sched == nil || st.sched.MaxWaiting >= 2))
}

// execSortBuiltin sorts a built-in collection in the race build and modifies
// it right after the return.
func execSortBuiltin(c *Ctx, cs *SortCase) {
	what := cs.Fn + "(" + cs.Type + ")"
	ok := true
	body := func() {
		switch cs.Type {
		case "int":
			d := psort.IntSlice(cs.ints())
			switch cs.Fn {
			case "Sort":
				psort.Sort(d)
			case "StableSort":
				psort.StableSort(d)
			default:
				psort.IntsAreSorted(d)
			}
			ok = cs.Fn == "IsSorted" || gosort.IntsAreSorted(d)
			for i := range d {
				d[i] = 0
			}
		case "float":
			d := psort.Float64Slice(cs.floats())
			switch cs.Fn {
			case "Sort":
				psort.Sort(d)
			case "StableSort":
				psort.StableSort(d)
			default:
				psort.Float64sAreSorted(d)
			}
			ok = cs.Fn == "IsSorted" || gosort.Float64sAreSorted(d)
			for i := range d {
				d[i] = 0
			}
		default:
			d := psort.StringSlice(cs.strings())
			switch cs.Fn {
			case "Sort":
				psort.Sort(d)
			case "StableSort":
				psort.StableSort(d)
			default:
				psort.StringsAreSorted(d)
			}
			ok = cs.Fn == "IsSorted" || gosort.StringsAreSorted(d)
			for i := range d {
				d[i] = ""
			}
		}
	}
	if pv, p := plainRun(cs.Procs, body); p {
		c.Failf("%s: panic %v", what, clip(fmt.Sprint(pv), 800))
	}
	if !ok {
		c.Failf("%s: not sorted", what)
	}
	c.Label("%s", what)
	sizeLabel(c, cs.N)
	c.NonTrivial(cs.Fn == "StableSort" && cs.N >= 0x3000 || cs.Fn != "StableSort" && cs.N >= 0x500)
}

// ---------------------------------------------------------------------------
// Generators

func genContents(t *rapid.T, cs *SortCase, n int) {
	cs.N = n
	cs.Pat = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 7, 8, 9, 10, 11}).Draw(t, "pat")
	switch rapid.IntRange(0, 3).Draw(t, "kkind") {
	case 0:
		cs.K = rapid.IntRange(1, 4).Draw(t, "k")
	case 1:
		cs.K = rapid.IntRange(1, 200).Draw(t, "k")
	default:
		cs.K = rapid.IntRange(1, 4*n+4).Draw(t, "k")
	}
	cs.Seed = rapid.IntRange(0, 1<<16).Draw(t, "seed")
	if cs.Pat == 6 {
		m := rapid.SampledFrom([]int{1, 2, 3, 4, 4, 4, 8, 16}).Draw(t, "nsegs")
		for i := 0; i < m; i++ {
			cs.Segs = append(cs.Segs, [2]int{rapid.IntRange(0, 20).Draw(t, "a"), rapid.IntRange(0, 20).Draw(t, "b")})
		}
	}
	if n > 0 && rapid.IntRange(0, 2).Draw(t, "edit") == 0 {
		m := rapid.IntRange(1, 5).Draw(t, "nedits")
		for i := 0; i < m; i++ {
			cs.Edits = append(cs.Edits, [2]int{rapid.IntRange(0, n-1).Draw(t, "pos"), rapid.IntRange(0, 4*n).Draw(t, "key")})
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "specials") == 0 {
		cs.Special = rapid.SampledFrom([]int{1, 2, 3, 7, 50, 1000}).Draw(t, "special")
	}
}

func genSize(t *rapid.T, unit int, max int) int {
	switch rapid.IntRange(0, 5).Draw(t, "sizekind") {
	case 0:
		return rapid.IntRange(0, 40).Draw(t, "n")
	case 1:
		m := rapid.IntRange(1, max/unit).Draw(t, "m")
		return m*unit + rapid.IntRange(-3, 3).Draw(t, "d")
	case 2:
		return rapid.IntRange(unit, min(2*unit, max)).Draw(t, "n")
	default:
		return rapid.IntRange(unit, max).Draw(t, "n")
	}
}

func genType(t *rapid.T) string {
	return rapid.SampledFrom([]string{"int", "float", "string", "box", "box"}).Draw(t, "type")
}

func init() {
	executor("sort", execSort)
	executor("issorted", execIsSorted)
	executor("sortguard", execSortGuard)
	executor("sortbuiltin", execSortBuiltin)
	procs := func(t *rapid.T) int { return rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs") }

	register(&Campaign{Prop: "S01", Name: "sort", Exec: "sort", Quick: 30000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &SortCase{Fn: "Sort", Type: genType(t), Procs: procs(t)}
		n := genSize(t, 0x500, 12000)
		if rapid.IntRange(0, 99).Draw(t, "big") == 0 {
			n = rapid.IntRange(12000, 300000).Draw(t, "n")
		}
		genContents(t, cs, n)
		return cs
	}})
	register(&Campaign{Prop: "S02", Name: "stablesort", Exec: "sort", Quick: 6000, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := &SortCase{Fn: "StableSort", Type: genType(t), Procs: procs(t)}
		genContents(t, cs, genSize(t, 0x3000, 70000))
		return cs
	}})
	register(&Campaign{Prop: "S03", Name: "issorted", Exec: "issorted", Quick: 9000, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := &SortCase{Fn: "IsSorted", Type: genType(t), Procs: procs(t)}
		n := genSize(t, 0x500, 14000)
		if rapid.IntRange(0, 19).Draw(t, "big") == 0 {
			n = rapid.IntRange(14000, 90000).Draw(t, "n")
		}
		genContents(t, cs, n)
		m := rapid.IntRange(0, 12).Draw(t, "nat")
		for i := 0; i < m && n >= 2; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "atkind") {
			case 0:
				cs.At = append(cs.At, rapid.IntRange(0, min(20, n-2)).Draw(t, "at"))
			case 1:
				cs.At = append(cs.At, n-2-rapid.IntRange(0, min(20, n-2)).Draw(t, "at"))
			case 2: // near a multiple of a fraction of the size
				k := rapid.SampledFrom([]int{2, 4, 8, 16, 32, 64}).Draw(t, "frac")
				j := rapid.IntRange(0, k).Draw(t, "j")
				cs.At = append(cs.At, max(0, min(n-2, 10+(n-10)*j/k+rapid.IntRange(-2, 2).Draw(t, "d")-1)))
			default:
				cs.At = append(cs.At, rapid.IntRange(0, n-2).Draw(t, "at"))
			}
		}
		return cs
	}})
	register(&Campaign{Prop: "S03", Name: "issorted-allpos", Exec: "issorted", Quick: 300, Thorough: 1500, Gen: func(t *rapid.T) any {
		cs := &SortCase{Fn: "IsSorted", Type: "box", Procs: procs(t), Special: 99}
		cs.N = rapid.IntRange(0x500-2, 3200).Draw(t, "n")
		return cs
	}})
	genGuard := func(t *rapid.T) *SortCase {
		cs := &SortCase{Fn: rapid.SampledFrom([]string{"Sort", "Sort", "StableSort", "IsSorted"}).Draw(t, "fn"), Type: "box"}
		if cs.Fn == "StableSort" {
			genContents(t, cs, genSize(t, 0x3000, 52000))
		} else {
			genContents(t, cs, genSize(t, 0x500, 9000))
		}
		cs.Special = 0
		return cs
	}
	register(&Campaign{Prop: "S04", Name: "access-gated", Exec: "sortguard", Quick: 1600, Thorough: 20000, Gen: func(t *rapid.T) any {
		cs := genGuard(t)
		cs.Every = rapid.SampledFrom([]int{1 + cs.N/40, 7 + cs.N/10, 13 + cs.N/100}).Draw(t, "every")
		cs.Plan = genPlan(t, 20)
		return cs
	}})
	register(&Campaign{Prop: "S04", Name: "access-free", Exec: "sortguard", Race: true, Quick: 800, Thorough: 8000, Gen: func(t *rapid.T) any {
		cs := genGuard(t)
		cs.Pert = genPert(t)
		cs.Procs = freeProcs(t)
		return cs
	}})
	fault := func(t *rapid.T, cs *SortCase) {
		ops := []string{"Less", "Less", "Swap", "SequentialSort"}
		switch cs.Fn {
		case "StableSort":
			ops = []string{"Less", "SequentialSort", "Assign", "NewTemp", "Bind"}
		case "IsSorted":
			ops = []string{"Less"}
		}
		cs.Fault = rapid.SampledFrom(ops).Draw(t, "fault")
		max := 3
		switch cs.Fault {
		case "Less":
			max = cs.N
			if cs.Fn != "IsSorted" {
				max = 3 * cs.N
			}
		case "Swap", "Assign":
			max = cs.N / 2
		case "SequentialSort":
			max = cs.N / 0x500
			if cs.Fn == "StableSort" {
				max = 2 + cs.N/0x3000*4
			}
		case "NewTemp":
			max = 0
		case "Bind":
			max = 1
		}
		cs.FaultAt = rapid.IntRange(0, max).Draw(t, "faultat")
		cs.FaultKind = rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
		cs.FaultAll = rapid.IntRange(0, 3).Draw(t, "faultall") == 0
	}
	register(&Campaign{Prop: "S05", Name: "sort-panic-gated", Exec: "sortguard", Quick: 1600, Thorough: 20000, Gen: func(t *rapid.T) any {
		cs := genGuard(t)
		cs.Every = rapid.SampledFrom([]int{1 + cs.N/40, 7 + cs.N/10, 13 + cs.N/100}).Draw(t, "every")
		cs.Plan = genPlan(t, 20)
		fault(t, cs)
		return cs
	}})
	register(&Campaign{Prop: "S05", Name: "sort-panic-free", Exec: "sortguard", Race: true, Quick: 800, Thorough: 8000, Gen: func(t *rapid.T) any {
		cs := genGuard(t)
		cs.Pert = genPert(t)
		cs.Procs = freeProcs(t)
		fault(t, cs)
		return cs
	}})
	register(&Campaign{Prop: "S04", Name: "builtin-free", Exec: "sortbuiltin", Race: true, Quick: 800, Thorough: 8000, Gen: func(t *rapid.T) any {
		cs := genGuard(t)
		cs.Type = rapid.SampledFrom([]string{"int", "float", "string"}).Draw(t, "type")
		cs.Procs = freeProcs(t)
		return cs
	}})
}
