package harness

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/exascience/pargo/parallel"
	"pgregory.net/rapid"
)

// FnCase is one combinator call with everything the user functions will do.
type FnCase struct {
	Fam    string    `json:"fam"`
	Fn     string    `json:"fn"`
	N      int       `json:"n,omitempty"`  // list forms
	Lo     int       `json:"lo,omitempty"` // range forms
	Hi     int       `json:"hi,omitempty"`
	Nb     int       `json:"nb,omitempty"`
	Events []FnEvent `json:"events,omitempty"`
	Join   *FnEvent  `json:"join,omitempty"`  // at a boundary (index modulo the number of boundaries)
	Waits  [][2]int  `json:"waits,omitempty"` // the function at p waits until the function at q has started
	Block  []int     `json:"block,omitempty"` // functions at these positions block until the call has returned
	// BlockLeft is used by the known findings only: like Block, but left of the decisive function.
	BlockLeft []int `json:"blockleft,omitempty"`
	Pert      []int `json:"pert,omitempty"` // free runs: perturbations
	// Odd gives some functions unusual results (scheduled runs).
	Odd  []FnOdd `json:"odd,omitempty"`
	Plan Plan    `json:"plan"`
}

// FnEvent makes the function at a position return the decisive boolean or panic.
type FnEvent struct {
	P     int  `json:"p"` // position (relative to the low end)
	Panic bool `json:"panic,omitempty"`
	Kind  int  `json:"kind,omitempty"`
}

type customErr struct{ id int }

func (e customErr) Error() string { return fmt.Sprintf("boom#%d#", e.id) }

type customVal struct {
	Name string
	ID   int
}

func (v customVal) String() string { return fmt.Sprintf("boom#%d#", v.ID) }

const panicKinds = 8

// throw panics in one of several ways, all carrying the token of id.
func throw(kind, id int) {
	switch kind % panicKinds {
	case 0:
		panic(fmt.Sprintf("boom#%d#", id))
	case 1:
		panic(errors.New(fmt.Sprintf("boom#%d#", id)))
	case 2: // index out of range, a runtime.Error
		var s []int
		_ = s[id]
	case 3:
		panic(customVal{"x", id})
	case 4:
		panic(customErr{id})
	case 5: // a wrapped error
		panic(fmt.Errorf("wrapped: %w", customErr{id}))
	case 6: // a panic that already crossed a combinator
		parallel.Do(func() {}, func() { panic(customErr{id}) })
	case 7: // a runtime error that already crossed a combinator
		parallel.Do(func() {}, func() {
			var s []int
			_ = s[id]
		})
	}
	panic("HARNESS: no panic")
}

// checkPanic compares a recovered value with what throw(kind, id) raised.
func checkPanic(c *Ctx, what string, p interface{}, kind, id int) {
	kind %= panicKinds
	msg := fmt.Sprint(p)
	tok := fmt.Sprintf("boom#%d#", id)
	if kind == 2 || kind == 7 {
		tok = fmt.Sprintf("index out of range [%d]", id)
	}
	if !strings.Contains(msg, tok) {
		c.Failf("%s: recovered panic value does not carry the message %q of the left-most panic: %q", what, tok, clip(msg, 400))
		return
	}
	_, isErr := p.(error)
	_, isRt := p.(runtime.Error)
	wantErr := kind == 1 || kind == 2 || kind >= 4
	wantRt := kind == 2 || kind == 7
	if isErr != wantErr {
		c.Failf("%s: panic value of kind %d: error=%v after propagation, want %v (%T)", what, kind, isErr, wantErr, p)
	}
	if isRt != wantRt {
		c.Failf("%s: panic value of kind %d: runtime.Error=%v after propagation, want %v (%T)", what, kind, isRt, wantRt, p)
	}
}

func (cs *FnCase) isSpec() bool { return cs.Fam == "speculative" }

func (cs *FnCase) base() int {
	if isRange(cs.Fn) {
		return cs.Lo
	}
	return 0
}

func (cs *FnCase) size() int {
	if isRange(cs.Fn) {
		return cs.Hi - cs.Lo
	}
	return cs.N
}

// eventIn returns the left-most event inside x.
func (cs *FnCase) eventIn(x iv) *FnEvent {
	var best *FnEvent
	for i := range cs.Events {
		e := &cs.Events[i]
		p := cs.base() + e.P
		if x.lo <= p && p < x.hi && (best == nil || e.P < best.P) {
			best = e
		}
	}
	return best
}

// boolOf is the boolean a function returns.
func (cs *FnCase) boolOf(decisive bool) bool {
	if cs.Fn == "And" || cs.Fn == "RangeAnd" {
		return !decisive
	}
	return decisive
}

func hasBool(fam, fn string) bool {
	return fam == "speculative" || strings.HasSuffix(fn, "And") || strings.HasSuffix(fn, "Or")
}

func hasJoin(fn string) bool {
	switch strings.TrimPrefix(fn, "Range") {
	case "Reduce", "ReduceInt", "ReduceFloat64", "ReduceString":
		return true
	}
	return false
}

// recorder observes the user functions in scheduled runs.
type recorder struct {
	mu       sync.Mutex
	cond     *sync.Cond
	starts   []iv
	finishes int
	active   int
	overlap  bool
}

func (r *recorder) covered(p int) bool {
	for _, x := range r.starts {
		if x.lo <= p && p < x.hi {
			return true
		}
	}
	return false
}

// checkCover verifies that the intervals are a partition of total.
func checkCover(c *Ctx, what string, xs []iv, total iv, nbatch int, rng bool) {
	s := append([]iv(nil), xs...)
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo || (s[i].lo == s[j].lo && s[i].hi < s[j].hi) })
	if rng {
		if total.lo == total.hi {
			if len(s) > 1 || (len(s) == 1 && s[0] != total) {
				c.Failf("%s: batches %v for the empty range %v", what, s, total)
			}
			return
		}
		if nbatch > 0 && len(s) > nbatch {
			c.Failf("%s: %d batches, more than the requested %d", what, len(s), nbatch)
		}
		if nbatch != 1 && total.hi-total.lo >= 2 && len(s) < 2 {
			c.Failf("%s: a range of size %d with %d batches requested is not divided", what, total.hi-total.lo, nbatch)
		}
		size := total.hi - total.lo
		if nbatch > 0 {
			for _, x := range s {
				if x.hi-x.lo > (size-1)/nbatch+1 {
					c.Failf("%s: a range of size %d is divided into %d batches, one of them has size %d", what, size, nbatch, x.hi-x.lo)
				}
			}
		} else if procs := runtime.GOMAXPROCS(0); len(s) < min(size, procs) || len(s) > 64*procs {
			c.Failf("%s: a range of size %d is divided into %d batches by default, GOMAXPROCS being %d", what, size, len(s), procs)
		}
	}
	at := total.lo
	for _, x := range s {
		if x.lo >= x.hi {
			c.Failf("%s: empty or reversed batch [%d,%d)", what, x.lo, x.hi)
			return
		}
		if x.lo != at {
			c.Failf("%s: functions invoked do not partition [%d,%d): expected one starting at %d, got [%d,%d)", what, total.lo, total.hi, at, x.lo, x.hi)
			return
		}
		at = x.hi
	}
	if at != total.hi {
		c.Failf("%s: functions invoked do not cover [%d,%d): nothing from %d on", what, total.lo, total.hi, at)
	}
}

// execFn runs one call under the gate scheduler.
func execFn(c *Ctx, cs *FnCase) {
	what := cs.Fam + "." + cs.Fn
	if len(cs.Events) > 0 && cs.Join != nil {
		cs.Join = nil
	}
	if !hasJoin(cs.Fn) {
		cs.Join = nil
	}
	gated := cs.Fam != "sequential"

	// Batch boundaries, for join events only.
	joinAt := -1 << 62
	if cs.Join != nil {
		if isRange(cs.Fn) {
			var mu sync.Mutex
			var xs []int
			dry := &fnCall{fam: cs.Fam, fn: cs.Fn, n: cs.N, lo: cs.Lo, hi: cs.Hi, nbatch: cs.Nb, codec: &tableCodec{}, fail: c.Failf}
			dry.leaf = func(x iv) bool { mu.Lock(); defer mu.Unlock(); xs = append(xs, x.lo); return cs.boolOf(false) }
			plainRun(cs.Plan.Procs, func() { dry.invoke() })
			sort.Ints(xs)
			if len(xs) >= 2 {
				joinAt = xs[1+cs.Join.P%(len(xs)-1)]
			} else {
				cs.Join = nil
			}
		} else if cs.N >= 2 {
			joinAt = 1 + cs.Join.P%(cs.N-1)
		} else {
			cs.Join = nil
		}
	}

	s := newSched(cs.Plan)
	rec := &recorder{}
	rec.cond = sync.NewCond(&rec.mu)
	returned := make(chan struct{})
	joinTicket := -1
	joinRuns := 0
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, n: cs.N, lo: cs.Lo, hi: cs.Hi, nbatch: cs.Nb, codec: &tableCodec{}}
	call.setOdd(cs.Odd)
	var failMu sync.Mutex
	call.fail = func(f string, a ...interface{}) { failMu.Lock(); defer failMu.Unlock(); c.Failf(f, a...) }
	var leftmost *FnEvent
	for i := range cs.Events {
		if leftmost == nil || cs.Events[i].P < leftmost.P {
			leftmost = &cs.Events[i]
		}
	}
	call.leaf = func(x iv) bool {
		rec.mu.Lock()
		rec.starts = append(rec.starts, x)
		rec.active++
		if rec.active > 1 {
			rec.overlap = true
		}
		rec.cond.Broadcast()
		rec.mu.Unlock()
		if gated {
			s.Point(x.lo)
		}
		for _, w := range cs.Waits {
			if p := cs.base() + w[0]; gated && x.lo <= p && p < x.hi {
				q := cs.base() + w[1]
				rec.mu.Lock()
				for !rec.covered(q) {
					rec.cond.Wait()
				}
				rec.mu.Unlock()
			}
		}
		if leftmost != nil {
			for _, b := range cs.Block {
				if p := cs.base() + b; x.lo <= p && p < x.hi && x.lo > cs.base()+leftmost.P {
					<-returned
					break
				}
			}
		}
		for _, b := range cs.BlockLeft {
			if p := cs.base() + b; x.lo <= p && p < x.hi {
				<-returned
				break
			}
		}
		if gated {
			s.Point(x.lo)
		}
		e := cs.eventIn(x)
		rec.mu.Lock()
		rec.finishes++
		rec.active--
		rec.mu.Unlock()
		if e != nil && e.Panic {
			throw(e.Kind, 1000+e.P)
		}
		return cs.boolOf(e != nil)
	}
	call.join = func(x, y iv, ticket int) bool {
		if gated {
			s.Point(y.lo)
		}
		if cs.Join != nil && y.lo == joinAt {
			rec.mu.Lock()
			joinTicket = ticket
			joinRuns++
			rec.mu.Unlock()
			if cs.Join.Panic {
				throw(cs.Join.Kind, 1000)
			}
			return true
		}
		return false
	}
	var res fnResult
	var finishedAtReturn, startedAtReturn int
	body := func() {
		defer func() {
			rec.mu.Lock()
			finishedAtReturn, startedAtReturn = rec.finishes, len(rec.starts)
			rec.mu.Unlock()
			close(returned)
		}()
		res = call.invoke()
	}
	var pv interface{}
	var didPanic bool
	if gated {
		pv, didPanic = s.Run(body)
	} else {
		pv, didPanic = plainRun(cs.Plan.Procs, body)
	}
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	total := call.total()
	rng := isRange(cs.Fn)
	firstPanic, firstStop := -1, -1
	var panicEv *FnEvent
	for i := range cs.Events {
		e := &cs.Events[i]
		if e.Panic && (firstPanic < 0 || e.P < firstPanic) {
			firstPanic, panicEv = e.P, e
		}
		if !e.Panic && (firstStop < 0 || e.P < firstStop) {
			firstStop = e.P
		}
	}
	if firstPanic >= 0 && firstStop >= 0 && firstStop < firstPanic && !cs.isSpec() {
		// One batch performs only its left-most event: the panic may be
		// masked inside its batch. Find the left-most one that is not.
		var mask *FnEvent
		for i := range cs.Events {
			e := &cs.Events[i]
			if e.Panic {
				for _, x := range rec.starts {
					if x.lo <= cs.base()+e.P && cs.base()+e.P < x.hi && cs.eventIn(x) == e && (mask == nil || e.P < mask.P) {
						mask = e
					}
				}
			}
		}
		panicEv = mask
		firstPanic = -1
		if mask != nil {
			firstPanic = mask.P
		}
	}

	// Invocation counts.
	seen := map[iv]int{}
	for _, x := range rec.starts {
		seen[x]++
		if seen[x] > 1 {
			c.Failf("%s: function for [%d,%d) invoked more than once", what, x.lo, x.hi)
		}
		if x.lo > x.hi || x.lo < total.lo || x.hi > total.hi {
			c.Failf("%s: function invoked for [%d,%d), outside of [%d,%d)", what, x.lo, x.hi, total.lo, total.hi)
		}
	}
	seqShort := cs.Fam == "sequential" && hasBool(cs.Fam, cs.Fn) && (firstStop >= 0 || firstPanic >= 0) || cs.Fam == "sequential" && firstPanic >= 0 || cs.Fam == "sequential" && cs.Join != nil && cs.Join.Panic
	if cs.Fam == "sequential" {
		if rec.overlap {
			c.Failf("%s: functions overlap", what)
		}
		at := total.lo
		for _, x := range rec.starts {
			if x.lo != at {
				c.Failf("%s: functions not invoked in order: %v", what, rec.starts)
				break
			}
			at = x.hi
		}
	}
	full := !seqShort
	if cs.isSpec() && (leftmost != nil || cs.Join != nil) {
		full = false
	}
	if full {
		checkCover(c, what, rec.starts, total, cs.Nb, rng)
	}

	switch {
	case cs.Join != nil:
		if joinRuns != 1 {
			c.Failf("%s: the join of the two sides of %d ran %d times", what, joinAt, joinRuns)
		}
		if cs.Join.Panic {
			if !didPanic {
				c.Failf("%s: a join panicked, the call returned normally", what)
			} else {
				checkPanic(c, what, pv, cs.Join.Kind, 1000)
			}
			break
		}
		if didPanic {
			c.Failf("%s: unexpected panic %v", what, pv)
			break
		}
		if cs.isSpec() {
			if !res.b || res.ticket != joinTicket {
				c.Failf("%s: the join at %d returned true with value %d, the call returned (%d %v, %v)", what, joinAt, joinTicket, res.ticket, res.iv, res.b)
			}
		} else if res.iv != total {
			c.Failf("%s: result covers %v, want %v", what, res.iv, total)
		}
	case !cs.isSpec() && firstPanic >= 0:
		masked := cs.Fam == "sequential" && firstStop >= 0 && firstStop < firstPanic
		if !didPanic {
			if !masked {
				c.Failf("%s: a function panicked, the call returned normally", what)
			}
		} else {
			checkPanic(c, what, pv, panicEv.Kind, 1000+panicEv.P)
		}
	case cs.isSpec() && leftmost != nil && leftmost.Panic:
		if !didPanic {
			// documented latitude: a decisive result elsewhere may win
			if firstStop < 0 || !res.b == (cs.Fn != "And" && cs.Fn != "RangeAnd") {
				c.Failf("%s: the left-most event is a panic, the call returned normally", what)
			}
		} else {
			checkPanic(c, what, pv, leftmost.Kind, 1000+leftmost.P)
		}
	case didPanic:
		c.Failf("%s: unexpected panic: %v", what, clip(fmt.Sprint(pv), 500))
	case cs.isSpec() && leftmost != nil: // decisive
		if res.b != cs.boolOf(true) {
			c.Failf("%s: function at %d is decisive, the call returned %v", what, leftmost.P, res.b)
		}
		if res.hasIv {
			p := cs.base() + leftmost.P
			if !(res.iv.lo <= p && p < res.iv.hi) || seen[res.iv] == 0 {
				c.Failf("%s: left-most decisive function is at %d, the result is that of %v", what, p, res.iv)
			}
		}
	default:
		if res.hasB && res.b != cs.boolOf(firstStop >= 0) {
			c.Failf("%s: returned %v, want %v", what, res.b, cs.boolOf(firstStop >= 0))
		}
		if res.hasIv && res.iv != total {
			c.Failf("%s: result covers %v, want %v", what, res.iv, total)
		}
		if full && (finishedAtReturn != len(rec.starts) || startedAtReturn != len(rec.starts)) {
			c.Failf("%s: returned when %d of %d functions had terminated", what, finishedAtReturn, len(rec.starts))
		}
	}

	nleaf := len(rec.starts)
	c.Label("%s", what)
	switch {
	case nleaf >= 16:
		c.Label("functions>=16")
	case nleaf >= 4:
		c.Label("functions 4..15")
	default:
		c.Label("functions<4")
	}
	if firstPanic >= 0 {
		c.Label("panic")
	}
	if firstStop >= 0 {
		c.Label("decisive")
	}
	if cs.Join != nil {
		c.Label("join event")
	}
	if len(cs.Odd) > 0 {
		c.Label("unusual values")
	}
	if s.MaxWaiting >= 2 {
		c.Label("parked>=2")
	}
	c.NonTrivial(nleaf >= 2 && (!gated || s.MaxWaiting >= 2 || nleaf >= 3))
}

// execFnFree runs one call in the race build, unscheduled.
func execFnFree(c *Ctx, cs *FnCase) {
	what := cs.Fam + "." + cs.Fn
	if cs.Plan.Procs < 2 {
		cs.Plan.Procs = 4
	}
	size := cs.size()
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, n: cs.N, lo: cs.Lo, hi: cs.Hi, nbatch: cs.Nb, codec: bitsCodec{}}
	var failMu sync.Mutex
	call.fail = func(f string, a ...interface{}) { failMu.Lock(); defer failMu.Unlock(); c.Failf(f, a...) }
	ends := make([]int, size+1)
	var leftmost *FnEvent
	for i := range cs.Events {
		if leftmost == nil || cs.Events[i].P < leftmost.P {
			leftmost = &cs.Events[i]
		}
	}
	np := len(cs.Pert)
	call.leaf = func(x iv) bool {
		if np > 0 {
			perturb(cs.Pert[(x.lo-cs.base())%np])
		}
		ends[x.lo-cs.base()] += x.hi - cs.base() + 1 // plain write: exactly once, visible after the return
		if np > 0 {
			perturb(cs.Pert[(x.lo-cs.base()+1)%np] >> 3)
		}
		e := cs.eventIn(x)
		if e != nil && e.Panic {
			throw(e.Kind, 1000+e.P)
		}
		return cs.boolOf(e != nil)
	}
	var res fnResult
	var xs []iv
	pv, didPanic := plainRun(cs.Plan.Procs, func() {
		res = call.invoke()
		if cs.isSpec() && leftmost != nil {
			return
		}
		for lo, e := range ends { // plain reads: everything must have terminated
			if e != 0 {
				xs = append(xs, iv{cs.base() + lo, cs.base() + e - 1})
			}
		}
	})
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	total := call.total()
	switch {
	case leftmost != nil && leftmost.Panic:
		if !didPanic {
			c.Failf("%s: a function panicked, the call returned normally", what)
		} else {
			checkPanic(c, what, pv, leftmost.Kind, 1000+leftmost.P)
		}
	case didPanic:
		c.Failf("%s: unexpected panic: %v", what, clip(fmt.Sprint(pv), 500))
	case leftmost != nil && cs.isSpec():
		if res.b != cs.boolOf(true) {
			c.Failf("%s: function at %d is decisive, the call returned %v", what, leftmost.P, res.b)
		}
		if p := cs.base() + leftmost.P; res.hasIv && !(res.iv.lo <= p && p < res.iv.hi) {
			c.Failf("%s: left-most decisive function is at %d, the result is that of %v", what, p, res.iv)
		}
	default:
		checkCover(c, what, xs, total, cs.Nb, isRange(cs.Fn))
		if res.hasB && res.b != cs.boolOf(leftmost != nil) {
			c.Failf("%s: returned %v, want %v", what, res.b, cs.boolOf(leftmost != nil))
		}
		if res.hasIv && res.iv != total {
			c.Failf("%s: result covers %v, want %v", what, res.iv, total)
		}
	}
	c.Label("%s", what)
	c.NonTrivial(size >= 2)
}

// RejectCase is a call with invalid arguments.
type RejectCase struct {
	Fam   string `json:"fam"`
	Fn    string `json:"fn"`
	Lo    int    `json:"lo"`
	Hi    int    `json:"hi"`
	Nb    int    `json:"nb"`
	Procs int    `json:"procs"`
}

func execReject(c *Ctx, cs *RejectCase) {
	what := fmt.Sprintf("%s.%s(%d, %d, %d)", cs.Fam, cs.Fn, cs.Lo, cs.Hi, cs.Nb)
	call := &fnCall{fam: cs.Fam, fn: cs.Fn, lo: cs.Lo, hi: cs.Hi, nbatch: cs.Nb, codec: &tableCodec{}, fail: func(string, ...interface{}) {}}
	calls := 0
	var mu sync.Mutex
	call.leaf = func(x iv) bool { mu.Lock(); defer mu.Unlock(); calls++; return (cs.Fn == "RangeAnd") }
	_, didPanic := plainRun(cs.Procs, func() { call.invoke() })
	if lk := leaked(); lk != "" {
		c.Failf("%s: goroutines left blocked for ever:\n%s", what, lk)
		return
	}
	bad := cs.Hi < cs.Lo || cs.Nb < 0
	if bad && !didPanic {
		c.Failf("%s did not panic although the arguments are invalid", what)
	}
	if !bad && didPanic {
		c.Failf("%s panicked although the arguments are valid", what)
	}
	if bad && calls > 0 {
		c.Failf("%s invoked the user function %d times although the arguments are invalid", what, calls)
	}
	if bad {
		if cs.Hi < cs.Lo {
			c.Label("high<low")
		}
		if cs.Nb < 0 {
			c.Label("n<0")
			if cs.Hi == cs.Lo {
				c.Label("n<0 with empty range")
			}
		}
	} else {
		c.Label("valid")
	}
	c.NonTrivial(bad)
}

// ---------------------------------------------------------------------------
// Generators

func genPlan(t *rapid.T, max int) Plan {
	p := Plan{
		Choices: rapid.SliceOfN(rapid.IntRange(0, 15), 0, max).Draw(t, "choices"),
		Tail:    rapid.IntRange(0, 4).Draw(t, "tail"),
		Settle:  rapid.SampledFrom([]int{0, 1, 3, 10, 40}).Draw(t, "settle"),
		Procs:   rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 4, 4, 7, 3, 16, 40}).Draw(t, "procs"),
	}
	if p.Tail == 4 {
		p.Seed = rapid.Int64Range(0, 1<<20).Draw(t, "schedseed")
	}
	return p
}

func genFam(t *rapid.T, fams ...string) string { return rapid.SampledFrom(fams).Draw(t, "fam") }

func genFn(t *rapid.T, fam string, rng bool) string {
	switch {
	case fam == "speculative" && rng:
		return rapid.SampledFrom(specRangeFns).Draw(t, "fn")
	case fam == "speculative":
		return rapid.SampledFrom(specListFns).Draw(t, "fn")
	case rng:
		return rapid.SampledFrom(rangeFns).Draw(t, "fn")
	}
	return rapid.SampledFrom(listFns).Draw(t, "fn")
}

func minN(fn string) int {
	if hasJoin(fn) {
		return 1
	}
	return 0
}

// genRange draws a range whose size fits an int.
func genRange(t *rapid.T, cs *FnCase, maxSize int, huge bool) {
	var size int
	k := rapid.IntRange(0, 9).Draw(t, "rangekind")
	switch {
	case k == 0 && huge:
		size = rapid.IntRange(0, 1<<62).Draw(t, "size")
	case k <= 5:
		size = rapid.IntRange(0, min(12, maxSize)).Draw(t, "size")
	default:
		size = rapid.IntRange(0, maxSize).Draw(t, "size")
	}
	lim := 1 << 20
	if huge && rapid.IntRange(0, 3).Draw(t, "lowkind") == 0 {
		lim = 1 << 61
	}
	cs.Lo = rapid.IntRange(-lim, lim).Draw(t, "lo")
	cs.Hi = cs.Lo + size
	switch rapid.IntRange(0, 9).Draw(t, "edge") {
	case 0: // up to the last int
		cs.Hi = math.MaxInt - rapid.IntRange(0, 3).Draw(t, "gap")
		cs.Lo = cs.Hi - size
	case 1:
		cs.Lo = math.MinInt + rapid.IntRange(0, 3).Draw(t, "gap")
		cs.Hi = cs.Lo + size
	}
	switch rapid.IntRange(0, 4).Draw(t, "nbkind") {
	case 0:
		cs.Nb = 0
	case 1:
		cs.Nb = rapid.IntRange(1, 4).Draw(t, "nb")
	case 2, 3:
		if size < 64 {
			cs.Nb = max(1, size+rapid.IntRange(-2, 3).Draw(t, "nbd"))
		} else {
			cs.Nb = rapid.IntRange(1, min(size+3, 500)).Draw(t, "nb")
		}
	default:
		cs.Nb = rapid.IntRange(1, 40).Draw(t, "nb")
	}
	if size <= 64 && rapid.IntRange(0, 9).Draw(t, "nbhuge") == 0 {
		cs.Nb = rapid.SampledFrom([]int{1000, 1 << 31, 1<<62 + 12345}).Draw(t, "nb")
	}
}

// genPos draws a position inside the range or list.
func genPos(t *rapid.T, cs *FnCase, name string) int {
	n := cs.size()
	return rapid.IntRange(0, n-1).Draw(t, name)
}

func genEvents(t *rapid.T, cs *FnCase, panics, stops bool) {
	if cs.size() == 0 {
		return
	}
	k := rapid.IntRange(1, 3).Draw(t, "nevents")
	for i := 0; i < k; i++ {
		e := FnEvent{P: genPos(t, cs, "at")}
		if panics && (!stops || rapid.Bool().Draw(t, "ispanic")) {
			e.Panic = true
			e.Kind = rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
		}
		dup := false
		for _, f := range cs.Events {
			dup = dup || f.P == e.P
		}
		if !dup {
			cs.Events = append(cs.Events, e)
		}
	}
}

func genPert(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 63), 0, 6).Draw(t, "pert")
}

func genNormalList(t *rapid.T, cs *FnCase, max int) {
	cs.Fn = genFn(t, cs.Fam, false)
	switch rapid.IntRange(0, 11).Draw(t, "nkind") {
	case 0:
		cs.N = rapid.IntRange(max, 10*max).Draw(t, "n")
	case 1, 2, 3, 4:
		cs.N = rapid.IntRange(minN(cs.Fn), max).Draw(t, "n")
	default:
		cs.N = rapid.IntRange(minN(cs.Fn), min(9, max)).Draw(t, "n")
	}
	if cs.Fam != "speculative" && hasBool(cs.Fam, cs.Fn) && rapid.Bool().Draw(t, "mixed") {
		genEvents(t, cs, false, true)
	}
}

func genNormalRange(t *rapid.T, cs *FnCase, max int, huge bool) {
	cs.Fn = genFn(t, cs.Fam, true)
	genRange(t, cs, max, huge)
	if cs.Fam != "speculative" && hasBool(cs.Fam, cs.Fn) && rapid.Bool().Draw(t, "mixed") {
		genEvents(t, cs, false, true)
	}
}

func freeProcs(t *rapid.T) int {
	return rapid.SampledFrom([]int{2, 4, 8, 2, 4, 8, 3, 16}).Draw(t, "procs")
}

func init() {
	executor("fn", execFn)
	executor("fnfree", execFnFree)
	executor("reject", execReject)

	register(&Campaign{Prop: "P01", Name: "list-gated", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &FnCase{Fam: genFam(t, "parallel", "parallel", "sequential", "speculative"), Plan: genPlan(t, 20)}
		genNormalList(t, cs, 40)
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "P01", Name: "list-free", Exec: "fnfree", Race: true, Quick: 1500, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := &FnCase{Fam: genFam(t, "parallel", "parallel", "sequential", "speculative"), Pert: genPert(t)}
		genNormalList(t, cs, 40)
		if cs.Fam == "sequential" {
			cs.Events = nil
		}
		cs.Plan.Procs = freeProcs(t)
		return cs
	}})
	register(&Campaign{Prop: "P02", Name: "range-gated", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &FnCase{Fam: genFam(t, "parallel", "sequential", "speculative"), Plan: genPlan(t, 20)}
		genNormalRange(t, cs, 300, true)
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "P02", Name: "range-free", Exec: "fnfree", Race: true, Quick: 1200, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := &FnCase{Fam: genFam(t, "parallel", "parallel", "speculative"), Pert: genPert(t)}
		genNormalRange(t, cs, 2000, false)
		cs.Lo, cs.Hi = 1000, 1000+(cs.Hi-cs.Lo)
		cs.Plan.Procs = freeProcs(t)
		return cs
	}})
	register(&Campaign{Prop: "P03", Name: "reject", Exec: "reject", Quick: 6000, Thorough: 100000, Gen: func(t *rapid.T) any {
		cs := &RejectCase{Fam: genFam(t, "parallel", "sequential", "speculative"), Procs: rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "procs")}
		cs.Fn = genFn(t, cs.Fam, true)
		cs.Lo = rapid.IntRange(-40, 40).Draw(t, "lo")
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0: // reversed
			cs.Hi = cs.Lo - rapid.IntRange(1, 60).Draw(t, "d")
			cs.Nb = rapid.IntRange(-3, 12).Draw(t, "nb")
		case 1: // negative n, empty range
			cs.Hi = cs.Lo
			cs.Nb = rapid.IntRange(-5, 3).Draw(t, "nb")
		case 2:
			cs.Hi = cs.Lo + rapid.IntRange(0, 60).Draw(t, "d")
			cs.Nb = rapid.SampledFrom([]int{-1, -2, -7, -1 << 31, -1 << 62, -1 << 63}).Draw(t, "nb")
		default:
			cs.Hi = cs.Lo + rapid.IntRange(-10, 30).Draw(t, "d")
			cs.Nb = rapid.IntRange(-4, 20).Draw(t, "nb")
		}
		switch rapid.IntRange(0, 9).Draw(t, "scale") {
		case 0:
			cs.Lo *= 1 << 40
			cs.Hi *= 1 << 40
		case 1: // reversed, and its size overflows
			cs.Lo = math.MaxInt - rapid.IntRange(0, 3).Draw(t, "gap")
			cs.Hi = math.MinInt + rapid.SampledFrom([]int{0, 1, 2, 3, 1 << 40, math.MaxInt}).Draw(t, "gap")
		case 2: // up to the ends of the int range
			if cs.Hi-cs.Lo >= 0 {
				cs.Lo, cs.Hi = math.MaxInt-(cs.Hi-cs.Lo), math.MaxInt
			} else {
				cs.Lo, cs.Hi = math.MinInt-(cs.Hi-cs.Lo), math.MinInt
			}
		}
		return cs
	}})
	register(&Campaign{Prop: "P04", Name: "rendezvous", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &FnCase{Fam: genFam(t, "parallel", "speculative"), Plan: genPlan(t, 10)}
		if rapid.Bool().Draw(t, "isrange") {
			cs.Fn = genFn(t, cs.Fam, true)
			genRange(t, cs, 200, false)
		} else {
			cs.Fn = genFn(t, cs.Fam, false)
			cs.N = rapid.IntRange(max(1, minN(cs.Fn)), rapid.SampledFrom([]int{24, 24, 24, 90}).Draw(t, "maxn")).Draw(t, "n")
		}
		n := cs.size()
		if n < 2 {
			return cs
		}
		if rapid.Bool().Draw(t, "barrier") && n <= 64 {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j += max(1, n/8) {
					cs.Waits = append(cs.Waits, [2]int{i, j})
				}
			}
		} else {
			k := rapid.IntRange(1, 8).Draw(t, "nwaits")
			for i := 0; i < k; i++ {
				cs.Waits = append(cs.Waits, [2]int{genPos(t, cs, "p"), genPos(t, cs, "q")})
			}
		}
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
	genPanicCase := func(t *rapid.T, fams ...string) *FnCase {
		cs := &FnCase{Fam: genFam(t, fams...)}
		if rapid.Bool().Draw(t, "isrange") {
			cs.Fn = genFn(t, cs.Fam, true)
			genRange(t, cs, 200, false)
		} else {
			cs.Fn = genFn(t, cs.Fam, false)
			cs.N = rapid.IntRange(max(1, minN(cs.Fn)), rapid.SampledFrom([]int{20, 20, 20, 20, 20, 150}).Draw(t, "maxn")).Draw(t, "n")
		}
		return cs
	}
	register(&Campaign{Prop: "P05", Name: "panic-gated", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := genPanicCase(t, "parallel", "parallel", "speculative", "sequential")
		cs.Plan = genPlan(t, 20)
		if hasJoin(cs.Fn) && cs.size() >= 2 && rapid.IntRange(0, 4).Draw(t, "joinpanic") == 0 {
			cs.Join = &FnEvent{P: rapid.IntRange(0, 30).Draw(t, "joinat"), Panic: true, Kind: rapid.IntRange(0, panicKinds-1).Draw(t, "kind")}
		} else {
			genEvents(t, cs, true, hasBool(cs.Fam, cs.Fn) && rapid.IntRange(0, 3).Draw(t, "mix") == 0)
		}
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "P05", Name: "panic-free", Exec: "fnfree", Race: true, Quick: 1200, Thorough: 30000, Gen: func(t *rapid.T) any {
		cs := genPanicCase(t, "parallel", "parallel", "speculative")
		if isRange(cs.Fn) {
			cs.Lo, cs.Hi = 1000, 1000+(cs.Hi-cs.Lo)
		}
		genEvents(t, cs, true, false)
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		return cs
	}})
	register(&Campaign{Prop: "P06", Name: "speculative-gated", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := genPanicCase(t, "speculative")
		cs.Plan = genPlan(t, 20)
		switch k := rapid.IntRange(0, 5).Draw(t, "what"); {
		case k == 0 && hasJoin(cs.Fn) && cs.size() >= 2:
			cs.Join = &FnEvent{P: rapid.IntRange(0, 30).Draw(t, "joinat")}
		case k == 1: // no event: the ordinary fold
		default:
			genEvents(t, cs, false, true)
		}
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "P06", Name: "speculative-free", Exec: "fnfree", Race: true, Quick: 1200, Thorough: 30000, Gen: func(t *rapid.T) any {
		cs := genPanicCase(t, "speculative")
		if isRange(cs.Fn) {
			cs.Lo, cs.Hi = 1000, 1000+(cs.Hi-cs.Lo)
		}
		if rapid.IntRange(0, 4).Draw(t, "noevent") > 0 {
			genEvents(t, cs, false, true)
		}
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		return cs
	}})
	register(&Campaign{Prop: "P07", Name: "nowait", Exec: "fn", Quick: 6000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := genPanicCase(t, "speculative")
		cs.Plan = genPlan(t, 20)
		n := cs.size()
		if n == 0 {
			return cs
		}
		d := genPos(t, cs, "decisive")
		cs.Events = append(cs.Events, FnEvent{P: d})
		// Anything may happen right of the decisive function.
		if d < n-1 {
			k := rapid.IntRange(0, 2).Draw(t, "nright")
			for i := 0; i < k; i++ {
				e := FnEvent{P: rapid.IntRange(d+1, n-1).Draw(t, "right"), Panic: rapid.Bool().Draw(t, "rightpanic"), Kind: rapid.IntRange(0, panicKinds-1).Draw(t, "kind")}
				dup := false
				for _, f := range cs.Events {
					dup = dup || f.P == e.P
				}
				if !dup {
					cs.Events = append(cs.Events, e)
				}
			}
			if rapid.Bool().Draw(t, "blockall") && n <= 300 {
				for i := d + 1; i < n; i++ {
					cs.Block = append(cs.Block, i)
				}
			} else {
				cs.Block = rapid.SliceOfN(rapid.IntRange(d+1, n-1), 1, 4).Draw(t, "block")
			}
		}
		cs.Odd = genOdd(t, cs.size(), cs.Events)
		return cs
	}})
}
