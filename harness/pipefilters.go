package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/exascience/pargo/pipeline"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// L09: Limit, Skip, Count, Slice

// ChainCase is a pipeline of the counting filters.
type ChainCase struct {
	Stages []Stage `json:"stages"`
	Src    string  `json:"src"` // slice array chan func funcknown own
	Cap    int     `json:"cap,omitempty"`
	N      int     `json:"n"`
	NofB   int     `json:"nofb,omitempty"`
	Inc    int     `json:"inc,omitempty"`
	Max    int     `json:"max,omitempty"`
	Nils   bool    `json:"nils,omitempty"` // own source: some batches are nil or empty in spite of a positive count
	Bad    string  `json:"bad,omitempty"`  // slice into something else: int, nilptr, string, array, ptr
	Race   bool    `json:"race,omitempty"`
	Pert   []int   `json:"pert,omitempty"`
	Plan   Plan    `json:"plan"`
}

// Stage is one filter (or node, for limit and skip).
type Stage struct {
	Op     string `json:"op"` // limit skip count slice probe drop
	Node   string `json:"node,omitempty"`
	K      int    `json:"k,omitempty"`
	Lim    int    `json:"lim,omitempty"` // of LimitedPar
	Cancel bool   `json:"cancel,omitempty"`
	Pre    int    `json:"pre,omitempty"` // elements the slice already has
}

func wrapNode(kind string, lim int, fs ...pipeline.Filter) pipeline.Node {
	switch kind {
	case "ord":
		return pipeline.Ord(fs...)
	case "seq":
		return pipeline.Seq(fs...)
	case "par":
		return pipeline.Par(fs...)
	case "lpar":
		return pipeline.LimitedPar(lim, fs...)
	case "strict":
		return pipeline.StrictOrd(fs...)
	case "neword":
		return pipeline.NewNode(pipeline.Ordered, fs...)
	case "newseq":
		return pipeline.NewNode(pipeline.Sequential, fs...)
	case "newpar":
		return pipeline.NewNode(pipeline.Parallel, fs...)
	case "uinline":
		return &inlineNode{fs: fs}
	}
	panic("HARNESS: node kind " + kind)
}

func isOrderedKind(k string) bool { return k == "ord" || k == "neword" || k == "strict" }

func seqInts(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	return x
}

type chainRun struct {
	c  *Ctx
	cs *ChainCase
	s  *Sched
	mu sync.Mutex
}

func (r *chainRun) point(k int) {
	if r.s != nil {
		r.s.Point(k)
	} else if n := len(r.cs.Pert); n > 0 {
		perturb(r.cs.Pert[int(mix(uint64(k)*31+uint64(r.c.Repeat))%uint64(n))])
	}
}

func execChain(c *Ctx, cs *ChainCase) {
	r := &chainRun{c: c, cs: cs}
	if !cs.Race {
		r.s = newSched(cs.Plan)
	}
	p := &pipeline.Pipeline{}
	counts := make([]int, len(cs.Stages))
	slices := make([][]int, len(cs.Stages))
	probes := make([][][]int, len(cs.Stages)) // by sequence number
	sizes := make([]int, len(cs.Stages))
	var badErr bool
	body := func() {
		switch cs.Src {
		case "slice":
			p.Source(append(make([]int, 0, cs.N+cs.Cap), seqInts(cs.N)...))
		case "array":
			a := reflect.New(reflect.ArrayOf(cs.N, reflect.TypeOf(0))).Elem()
			for i := 0; i < cs.N; i++ {
				a.Index(i).SetInt(int64(i))
			}
			p.Source(a.Interface())
		case "chan":
			ch := make(chan int, cs.N)
			for i := 0; i < cs.N; i++ {
				ch <- i
			}
			close(ch)
			p.Source(ch)
		default:
			at, calls := 0, 0
			known := -1
			if cs.Src == "funcknown" {
				known = cs.N
			}
			p.Source(pipeline.NewFunc(known, func(n int) (interface{}, int, error) {
				calls++
				if cs.Nils && calls%3 == 1 && calls < 12 {
					if calls%2 == 0 {
						return nil, 1, nil
					}
					return []int{}, 1, nil
				}
				n = min(n, cs.N-at)
				d := make([]int, n)
				for i := range d {
					d[i] = at + i
				}
				at += n
				return d, n, nil
			}))
		}
		if cs.NofB > 0 {
			p.NofBatches(cs.NofB)
		}
		if cs.Inc > 0 || cs.Max > 0 {
			p.SetVariableBatchSize(cs.Inc, cs.Max)
		}
		for i := range cs.Stages {
			i, st := i, cs.Stages[i]
			switch st.Op {
			case "limit":
				p.Add(pipeline.Limit(st.K, st.Cancel))
			case "skip":
				p.Add(pipeline.Skip(st.K))
			case "count":
				counts[i] = 1000 // a stale value
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Count(&counts[i])))
			case "slice":
				for k := 0; k < st.Pre; k++ {
					slices[i] = append(slices[i], -1-k)
				}
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Slice(&slices[i])))
			case "probe":
				probes[i] = make([][]int, 64+cs.N)
				p.Add(wrapNode(st.Node, st.Lim, func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
					sizes[i] = *size
					return func(s int, data interface{}) interface{} {
						r.point(s)
						if x, ok := data.([]int); ok && s < len(probes[i]) {
							probes[i][s] = append([]int{}, x...)
						}
						r.point(s)
						return data
					}, nil
				}))
			case "drop":
				p.Add(wrapNode(st.Node, st.Lim, func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
					*size = -1
					return func(s int, data interface{}) interface{} {
						r.point(s)
						var out []int
						x, _ := data.([]int)
						for _, e := range x {
							if e%st.K != 0 {
								out = append(out, e)
							}
						}
						if out == nil && s%2 == 0 {
							return nil
						}
						return out
					}, nil
				}))
			case "bad":
				var v interface{}
				switch cs.Bad {
				case "int":
					v = new(int)
				case "nilptr":
					v = (*[]int)(nil)
				case "string":
					v = new(string)
				case "array":
					v = new([4]int)
				case "ptr":
					v = new(*int)
				}
				badErr = true
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Slice(v)))
			}
		}
		p.Run()
	}
	var pv interface{}
	var bad bool
	if r.s != nil {
		pv, bad = r.s.Run(body)
	} else {
		pv, bad = plainRun(cs.Plan.Procs, body)
	}
	if bad {
		c.Failf("Run panicked: %v", pv)
		return
	}
	c.Label("source %s", cs.Src)
	if !cs.Race {
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever after the run:\n%s", s)
			return
		}
	}

	// List model.
	xs := seqInts(cs.N)
	wantErr := false
	cancelled := false // elements may be missing from here on
	exact := true      // of the current node, after a cancelling limit
	upstream := len(cs.Stages)
	nt := 0
	cancelling := 0
	n := cs.N
	for i, st := range cs.Stages {
		switch {
		case st.Op == "skip" && n >= 0: // else the size is unknown
			n -= min(n, max(0, st.K))
		case st.Op == "drop":
			n = -1 // unknown
		case st.Op == "limit" && st.K >= 0:
			if st.Cancel && (n < 0 || n >= st.K) { // it may cancel the pipeline
				cancelling++
				upstream = i
			}
			if n > st.K {
				n = st.K
			}
		}
	}
	if badErr {
		wantErr = true
	}
	for _, st := range cs.Stages {
		if st.Op == "skip" && st.K < 0 {
			wantErr = true
		}
	}
	if err := p.Err(); (err != nil) != wantErr {
		c.Failf("Err() = %v, want error: %v", err, wantErr)
		return
	}
	if wantErr {
		c.NonTrivial(true)
		c.Label("error")
		for i := range probes {
			for s := range probes[i] {
				if probes[i][s] != nil {
					c.Failf("stage %d got batch %d although an error was set during set-up", i, s)
				}
			}
		}
		return
	}
	for i, st := range cs.Stages {
		kind := st.Node
		if st.Op == "limit" || st.Op == "skip" {
			kind = "ord"
		}
		c.Label("%s in %s", st.Op, kind)
		// Within the node of the cancelling limit everything is still exact.
		if cancelled && kind != "ord" && kind != "neword" {
			exact = false
		}
		if i < upstream && upstream < len(cs.Stages) {
			// The pipeline may have been cancelled before a stage before the
			// limit has got everything; model only.
			exact = false
		}
		if i == upstream {
			cancelled = true
			exact = cancelling == 1
		}
		switch st.Op {
		case "limit":
			if st.K >= 0 && len(xs) > st.K {
				xs = xs[:st.K]
				nt++
			}
		case "skip":
			if st.K > 0 {
				nt++
			}
			xs = xs[min(st.K, len(xs)):]
		case "count":
			if exact && counts[i] != len(xs) {
				c.Failf("stage %d (%s): Count gives %d, but %d elements reach it", i, kind, counts[i], len(xs))
			}
			nt++
		case "slice":
			got := slices[i]
			if len(got) < st.Pre {
				c.Failf("stage %d: Slice has removed elements", i)
				continue
			}
			for k := 0; k < st.Pre; k++ {
				if got[k] != -1-k {
					c.Failf("stage %d: Slice has changed the elements that were already in the slice", i)
				}
			}
			checkElems(c, fmt.Sprintf("stage %d (Slice in %s)", i, kind), got[st.Pre:], xs, isOrderedKind(kind), exact)
			nt++
		case "probe":
			var got []int
			for s := range probes[i] {
				got = append(got, probes[i][s]...)
			}
			// In the order of the sequence numbers, whatever the node.
			checkElems(c, fmt.Sprintf("stage %d (%s)", i, kind), got, xs, true, exact)
			if exact && !cs.Nils && sizes[i] >= 0 && sizes[i] != len(xs) {
				c.Failf("stage %d (%s): the expected size is announced as %d, but %d elements reach it", i, kind, sizes[i], len(xs))
			}
		case "drop":
			var out []int
			for _, e := range xs {
				if e%st.K != 0 {
					out = append(out, e)
				}
			}
			xs = out
		}
	}
	c.NonTrivial(nt > 0 && cs.N > 1)
}

// checkElems compares the elements a stage saw with the model's.
func checkElems(c *Ctx, what string, got, want []int, ordered, exact bool) {
	g := got
	if !ordered {
		g = append([]int{}, got...)
		sort.Ints(g)
	}
	if exact {
		if len(g) != len(want) || !sameData(append([]int{}, g...), append([]int{}, want...)) {
			c.Failf("%s: elements seen %v, list model %v", what, clip(fmt.Sprint(got), 300), clip(fmt.Sprint(want), 300))
		}
		return
	}
	// A subset, in order.
	j := 0
	for _, e := range g {
		for j < len(want) && want[j] != e {
			j++
		}
		if j == len(want) {
			c.Failf("%s: elements seen %v are not among (or not in the order of) the list model's %v", what, clip(fmt.Sprint(got), 300), clip(fmt.Sprint(want), 300))
			return
		}
		j++
	}
}

func genChain(t *rapid.T, race bool) *ChainCase {
	cs := &ChainCase{Race: race}
	cs.Src = rapid.SampledFrom([]string{"slice", "slice", "array", "chan", "func", "func", "funcknown"}).Draw(t, "src")
	cs.N = rapid.IntRange(0, 24).Draw(t, "n")
	cs.Cap = rapid.IntRange(0, 3).Draw(t, "cap")
	cs.NofB = rapid.IntRange(0, 8).Draw(t, "nofb")
	cs.Inc, cs.Max = rapid.IntRange(1, 4).Draw(t, "inc"), rapid.IntRange(1, 5).Draw(t, "max")
	if race && rapid.IntRange(0, 7).Draw(t, "large") == 0 {
		cs.N = rapid.IntRange(24, 600).Draw(t, "n")
		cs.NofB, cs.Max = rapid.IntRange(0, 200).Draw(t, "nofb"), rapid.IntRange(1, 60).Draw(t, "max")
	}
	cs.Nils = cs.Src == "func" && rapid.IntRange(0, 2).Draw(t, "nils") == 0
	k := rapid.IntRange(1, 6).Draw(t, "nstages")
	cancels := rapid.IntRange(0, 3).Draw(t, "cancels") == 0
	for i := 0; i < k; i++ {
		st := Stage{Op: rapid.SampledFrom([]string{"limit", "skip", "count", "count", "slice", "slice", "probe", "probe", "drop"}).Draw(t, "op")}
		switch st.Op {
		case "limit":
			st.K = rapid.IntRange(-1, cs.N+2).Draw(t, "k")
			st.Cancel = cancels && rapid.Bool().Draw(t, "cancel")
		case "skip":
			st.K = rapid.IntRange(0, cs.N+2).Draw(t, "k")
			if rapid.IntRange(0, 14).Draw(t, "neg") == 0 {
				st.K = -1 - st.K
			}
		default:
			st.Node = rapid.SampledFrom([]string{"ord", "ord", "seq", "par", "par", "lpar", "strict", "neword", "newseq", "newpar"}).Draw(t, "node")
			st.Lim = rapid.IntRange(0, 3).Draw(t, "lim")
			st.K = rapid.IntRange(2, 4).Draw(t, "dropk")
			st.Pre = rapid.IntRange(0, 2).Draw(t, "pre")
		}
		cs.Stages = append(cs.Stages, st)
	}
	if rapid.IntRange(0, 14).Draw(t, "isbad") == 0 {
		cs.Bad = rapid.SampledFrom([]string{"int", "nilptr", "string", "array", "ptr"}).Draw(t, "bad")
		cs.Stages = append(cs.Stages, Stage{Op: "bad", Node: rapid.SampledFrom([]string{"ord", "seq", "par", "lpar", "strict"}).Draw(t, "badnode"), Lim: 2})
	}
	if race {
		cs.Plan = Plan{Procs: freeProcs(t)}
		cs.Pert = genPert(t)
	} else {
		cs.Plan = genPlan(t, 40)
	}
	return cs
}

// ---------------------------------------------------------------------------
// L10: Every, NotEvery, Some, NotAny

// PredCase is a pipeline of predicate filters.
type PredCase struct {
	Preds []PredSpec `json:"preds"`
	N     int        `json:"n"`
	Nil   int        `json:"nil,omitempty"` // this batch (from 1) is nil
	Known bool       `json:"known,omitempty"`
	Race  bool       `json:"race,omitempty"`
	Pert  []int      `json:"pert,omitempty"`
	Plan  Plan       `json:"plan"`
}

// PredSpec is one predicate filter in a node of its own.
type PredSpec struct {
	Fn     string `json:"fn"`
	Node   string `json:"node"`
	Lim    int    `json:"lim,omitempty"`
	Odd    []int  `json:"odd,omitempty"` // batches with the deciding value
	Cancel bool   `json:"cancel,omitempty"`
	Init   bool   `json:"init,omitempty"` // stale value of the result
}

func execPred(c *Ctx, cs *PredCase) {
	var s *Sched
	if !cs.Race {
		s = newSched(cs.Plan)
	}
	point := func(k int) {
		if s != nil {
			s.Point(k)
		} else if n := len(cs.Pert); n > 0 {
			perturb(cs.Pert[int(mix(uint64(k)*31+uint64(c.Repeat))%uint64(n))])
		}
	}
	if cs.Nil > cs.N {
		cs.Nil = 0
	}
	results := make([]bool, len(cs.Preds))
	called := make([][]int, len(cs.Preds)) // calls by batch
	ctx, cancel := context.WithCancel(context.Background())
	p := &pipeline.Pipeline{}
	ctxDone := false
	body := func() {
		at := 0
		size := -1
		if cs.Known {
			size = cs.N
		}
		p.Source(pipeline.NewFunc(size, func(int) (interface{}, int, error) {
			if at == cs.N {
				return nil, 0, nil
			}
			at++
			if at == cs.Nil {
				return nil, 1, nil
			}
			return at - 1, 1, nil
		}))
		for i := range cs.Preds {
			i, ps := i, cs.Preds[i]
			called[i] = make([]int, cs.N)
			deciding := map[int]bool{}
			for _, o := range ps.Odd {
				deciding[o] = true
			}
			pred := func(data interface{}) bool {
				b, ok := data.(int)
				if data == nil && cs.Nil > 0 {
					b, ok = cs.Nil-1, true
				}
				if !ok || b < 0 || b >= cs.N {
					panic(fmt.Sprintf("predicate called with %v", data))
				}
				point(b)
				called[i][b]++
				point(b)
				if ps.Fn == "Every" || ps.Fn == "NotEvery" {
					return !deciding[b]
				}
				return deciding[b]
			}
			results[i] = ps.Init
			var f pipeline.Filter
			switch ps.Fn {
			case "Every":
				f = pipeline.Every(&results[i], ps.Cancel, pred)
			case "NotEvery":
				f = pipeline.NotEvery(&results[i], ps.Cancel, pred)
			case "Some":
				f = pipeline.Some(&results[i], ps.Cancel, pred)
			case "NotAny":
				f = pipeline.NotAny(&results[i], ps.Cancel, pred)
			}
			p.Add(wrapNode(ps.Node, ps.Lim, f))
		}
		p.RunWithContext(ctx, cancel)
		ctxDone = ctx.Err() != nil
		cancel()
	}
	var pv interface{}
	var bad bool
	if s != nil {
		pv, bad = s.Run(body)
	} else {
		pv, bad = plainRun(cs.Plan.Procs, body)
	}
	if bad {
		c.Failf("Run panicked: %v", pv)
		return
	}
	if err := p.Err(); err != nil {
		c.Failf("Err() = %v", err)
	}
	wantCancel := false
	some := false
	for i, ps := range cs.Preds {
		found, missing := false, 0
		deciding := map[int]bool{}
		for _, o := range ps.Odd {
			deciding[o] = true
		}
		for b, n := range called[i] {
			if n > 1 {
				c.Failf("the predicate of %s is called %d times for batch %d", ps.Fn, n, b)
			}
			if n > 0 && deciding[b] {
				found = true
			}
			if n == 0 {
				missing++
			}
		}
		if found && ps.Cancel {
			wantCancel = true
		}
		want := found == (ps.Fn == "NotEvery" || ps.Fn == "Some")
		if results[i] != want {
			c.Failf("%s in %s (filter %d, cancelWhenKnown=%v): result %v, but a deciding batch was seen: %v", ps.Fn, ps.Node, i, ps.Cancel, results[i], found)
		}
		if missing > 0 && !ctxDone {
			c.Failf("%s in %s: the predicate was not called for %d batches of an undisturbed run", ps.Fn, ps.Node, missing)
		}
		some = some || found
		c.Label("%s in %s, decided %v, cancel %v", ps.Fn, ps.Node, found, ps.Cancel)
	}
	if wantCancel != ctxDone {
		c.Failf("context cancelled after Run: %v, but a filter with cancelWhenKnown has seen a deciding batch: %v", ctxDone, wantCancel)
	}
	c.NonTrivial(cs.N >= 2 && some)
}

func genPred(t *rapid.T, race bool) *PredCase {
	cs := &PredCase{N: rapid.IntRange(0, 10).Draw(t, "n"), Known: rapid.Bool().Draw(t, "known"), Race: race}
	if race && rapid.IntRange(0, 5).Draw(t, "large") == 0 {
		cs.N = rapid.IntRange(10, 300).Draw(t, "n")
	}
	if cs.N > 0 && rapid.IntRange(0, 2).Draw(t, "nil") == 0 {
		cs.Nil = rapid.IntRange(1, cs.N).Draw(t, "nilbatch")
	}
	k := rapid.IntRange(1, 4).Draw(t, "npreds")
	for i := 0; i < k; i++ {
		ps := PredSpec{
			Fn:   rapid.SampledFrom([]string{"Every", "NotEvery", "Some", "NotAny"}).Draw(t, "fn"),
			Node: rapid.SampledFrom([]string{"ord", "seq", "par", "par", "lpar", "strict", "neword", "newseq", "newpar", "uinline"}).Draw(t, "node"),
			Lim:  rapid.IntRange(0, 3).Draw(t, "lim"),
			Init: rapid.Bool().Draw(t, "init"),
		}
		if rapid.IntRange(0, 3).Draw(t, "decided") > 0 {
			ps.Odd = rapid.SliceOfN(rapid.IntRange(0, max(0, cs.N-1)), 0, 3).Draw(t, "odd")
		}
		ps.Cancel = rapid.IntRange(0, 2).Draw(t, "cancel") == 0
		if cs.Nil > 0 && rapid.Bool().Draw(t, "nildecides") {
			ps.Odd = append(ps.Odd, cs.Nil-1)
		}
		cs.Preds = append(cs.Preds, ps)
	}
	if race {
		cs.Plan = Plan{Procs: freeProcs(t)}
		cs.Pert = genPert(t)
	} else {
		cs.Plan = genPlan(t, 40)
	}
	return cs
}

// ---------------------------------------------------------------------------
// L07: sources

// SourceCase checks the batches of one of the library's sources.
type SourceCase struct {
	Src    string   `json:"src"`  // array slice string chan single scanner bytes func
	Elem   string   `json:"elem"` // int string struct iface bytes ptr
	N      int      `json:"n"`
	Cap    int      `json:"cap,omitempty"`    // spare capacity
	Off    int      `json:"off,omitempty"`    // of the slice in its array
	Buf    int      `json:"buf,omitempty"`    // channel buffer
	Recv   bool     `json:"recv,omitempty"`   // receive-only channel type
	Lines  []string `json:"lines,omitempty"`  // scanner input
	Rep    int      `json:"rep,omitempty"`    // repeated so many times more
	Words  bool     `json:"words,omitempty"`  // scan words instead of lines
	Chunk  int      `json:"chunk,omitempty"`  // bytes per Read
	FailAt int      `json:"failat,omitempty"` // the reader fails after that many bytes
	MaxTok int      `json:"maxtok,omitempty"` // token limit of the scanner
	NofB   int      `json:"nofb,omitempty"`
	Inc    int      `json:"inc,omitempty"`
	Max    int      `json:"max,omitempty"`
	Par    bool     `json:"par,omitempty"`    // parallel first node
	Mutate bool     `json:"mutate,omitempty"` // receivers overwrite and append to their batches
	Twice  bool     `json:"twice,omitempty"`  // Source is called twice
	Race   bool     `json:"race,omitempty"`
	Pert   []int    `json:"pert,omitempty"`
	Procs  int      `json:"procs,omitempty"`
}

type srcStruct struct {
	A int
	B string
}

// elemValue is the i-th element of a type.
func elemValue(kind string, i int) interface{} {
	switch kind {
	case "int":
		return i
	case "string":
		return fmt.Sprintf("s%d", i)
	case "struct":
		return srcStruct{i, fmt.Sprint(i)}
	case "iface":
		if i%3 == 0 {
			return nil
		}
		return i
	case "bytes":
		return fmt.Sprintf("b%d", i) // compared as a string
	case "ptr":
		return ptrTable[i%len(ptrTable)]
	case "byte":
		return byte(i*89 + 'a') // no valid UTF-8
	}
	panic("HARNESS: element " + kind)
}

var ptrTable = func() (x [64]*int) {
	for i := 1; i < len(x); i++ { // x[0] is nil
		x[i] = new(int)
	}
	return
}()

var elemTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "string": reflect.TypeOf(""), "struct": reflect.TypeOf(srcStruct{}),
	"iface": reflect.TypeOf((*interface{})(nil)).Elem(), "bytes": reflect.TypeOf([]byte(nil)), "ptr": reflect.TypeOf((*int)(nil)),
	"byte": reflect.TypeOf(byte(0)),
}

func elemReflect(kind string, i int) reflect.Value {
	v := elemValue(kind, i)
	if kind == "bytes" {
		return reflect.ValueOf([]byte(v.(string)))
	}
	rv := reflect.New(elemTypes[kind]).Elem()
	if v != nil {
		rv.Set(reflect.ValueOf(v))
	}
	return rv
}

// chunkReader delivers a text in small pieces and may fail.
type chunkReader struct {
	b     []byte
	chunk int
	fail  int // < 0: never
}

var errReader = errors.New("reader failed")

func (r *chunkReader) Read(p []byte) (int, error) {
	n := min(len(p), len(r.b))
	if r.chunk > 0 {
		n = min(n, r.chunk)
	}
	if r.fail >= 0 {
		if r.fail == 0 {
			return 0, errReader
		}
		n = min(n, r.fail)
		r.fail -= n
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func (cs *SourceCase) reader() io.Reader {
	f := -1
	if cs.FailAt > 0 {
		f = cs.FailAt - 1
	}
	text := strings.Join(cs.Lines, "\n")
	return &chunkReader{[]byte(text + strings.Repeat("\n"+text, cs.Rep)), cs.Chunk, f}
}

func (cs *SourceCase) setScanner(s *bufio.Scanner) {
	if cs.Words {
		s.Split(bufio.ScanWords)
	}
	if cs.MaxTok > 0 {
		s.Buffer(nil, cs.MaxTok)
	}
}

// flatten lists the elements of a batch and checks its type.
func (cs *SourceCase) flatten(data interface{}) (xs []interface{}, err string) {
	switch cs.Src {
	case "single":
		if cs.Elem == "bytes" {
			b, ok := data.([]byte)
			if !ok {
				return nil, fmt.Sprintf("the element has type %T", data)
			}
			return []interface{}{string(b)}, ""
		}
		return []interface{}{data}, ""
	case "string":
		s, ok := data.(string)
		if !ok {
			return nil, fmt.Sprintf("a batch of a string has type %T", data)
		}
		for i := 0; i < len(s); i++ {
			xs = append(xs, s[i])
		}
		return
	case "scanner":
		s, ok := data.([]string)
		if !ok {
			return nil, fmt.Sprintf("a batch of a Scanner has type %T", data)
		}
		for _, e := range s {
			xs = append(xs, e)
		}
		return
	case "bytes":
		s, ok := data.([][]byte)
		if !ok {
			return nil, fmt.Sprintf("a batch of a BytesScanner has type %T", data)
		}
		for _, e := range s {
			xs = append(xs, string(e))
		}
		return
	}
	v := reflect.ValueOf(data)
	if !v.IsValid() || v.Kind() != reflect.Slice || v.Type().Elem() != elemTypes[cs.Elem] {
		return nil, fmt.Sprintf("a batch has type %T, elements are %v", data, elemTypes[cs.Elem])
	}
	for i := 0; i < v.Len(); i++ {
		if cs.Elem == "bytes" {
			xs = append(xs, string(v.Index(i).Bytes()))
		} else {
			xs = append(xs, v.Index(i).Interface())
		}
	}
	return
}

// spoil overwrites a batch and appends to it.
func (cs *SourceCase) spoil(data interface{}) {
	if cs.Src == "string" || cs.Src == "single" {
		return
	}
	v := reflect.ValueOf(data)
	if v.Kind() != reflect.Slice {
		return
	}
	if cs.Elem == "bytes" || cs.Src == "bytes" {
		for i := 0; i < v.Len(); i++ {
			b := v.Index(i).Bytes()
			for j := range b {
				b[j] = '#'
			}
			for j := 0; j < 6; j++ {
				b = append(b, '!')
			}
		}
	}
	zero := reflect.Zero(v.Type().Elem())
	for i := 0; i < v.Len(); i++ {
		v.Index(i).Set(zero)
	}
	for i := 0; i < 4; i++ {
		v = reflect.Append(v, zero)
	}
}

func execSource(c *Ctx, cs *SourceCase) {
	p := &pipeline.Pipeline{}
	var want []interface{}
	var wantErr error
	var srcErr error
	for i := 0; i < cs.N; i++ {
		want = append(want, elemValue(cs.Elem, i))
	}
	slots := 300 + cs.N
	for _, l := range cs.Lines {
		slots += (len(l) + 1) * (cs.Rep + 1)
	}
	got := make([][]interface{}, slots)
	bad := make([]string, slots)
	kept := make([]interface{}, slots)
	came := make([]bool, slots)
	var over bool
	var outside reflect.Value
	body := func() {
		if cs.Twice {
			p.Source([]int{-7, -8, -9})
		}
		switch cs.Src {
		case "slice":
			v := reflect.MakeSlice(reflect.SliceOf(elemTypes[cs.Elem]), cs.Off+cs.N+cs.Cap, cs.Off+cs.N+cs.Cap)
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(elemReflect(cs.Elem, 41)) // must stay
			}
			outside = v
			for i := 0; i < cs.N; i++ {
				v.Index(cs.Off + i).Set(elemReflect(cs.Elem, i))
			}
			p.Source(v.Slice(cs.Off, cs.Off+cs.N).Interface())
		case "array":
			v := reflect.New(reflect.ArrayOf(cs.N, elemTypes[cs.Elem])).Elem()
			for i := 0; i < cs.N; i++ {
				v.Index(i).Set(elemReflect(cs.Elem, i))
			}
			p.Source(v.Interface())
		case "string":
			b := make([]byte, cs.N)
			for i := range b {
				b[i] = elemValue("byte", i).(byte)
			}
			p.Source(string(b))
		case "chan", "single":
			ch := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, elemTypes[cs.Elem]), cs.Buf)
			go func() {
				for i := 0; i < cs.N; i++ {
					if n := len(cs.Pert); n > 0 {
						perturb(cs.Pert[i%n])
					}
					ch.Send(elemReflect(cs.Elem, i))
				}
				ch.Close()
			}()
			v := ch
			if cs.Recv {
				v = ch.Convert(reflect.ChanOf(reflect.RecvDir, elemTypes[cs.Elem]))
			}
			if cs.Src == "single" {
				p.Source(pipeline.NewSingletonChan(v.Interface()))
			} else {
				p.Source(v.Interface())
			}
		case "scanner", "bytes":
			want = nil
			ref := bufio.NewScanner(cs.reader())
			cs.setScanner(ref)
			for ref.Scan() {
				want = append(want, ref.Text())
			}
			wantErr = ref.Err()
			if cs.Src == "scanner" {
				s := pipeline.NewScanner(cs.reader())
				cs.setScanner(s.Scanner)
				p.Source(s)
			} else {
				s := pipeline.NewBytesScanner(cs.reader())
				cs.setScanner(s.Scanner)
				p.Source(s)
			}
		case "func":
			at := 0
			p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
				n = min(n, cs.N-at)
				if n == 0 {
					return nil, 0, srcErr
				}
				v := reflect.MakeSlice(reflect.SliceOf(elemTypes[cs.Elem]), n, n)
				for i := 0; i < n; i++ {
					v.Index(i).Set(elemReflect(cs.Elem, at+i))
				}
				at += n
				return v.Interface(), n, nil
			}))
		}
		if cs.NofB > 0 {
			p.NofBatches(cs.NofB)
		}
		p.SetVariableBatchSize(cs.Inc, cs.Max)
		recv := func(s int, data interface{}) interface{} {
			if s >= slots {
				over = true
				return data
			}
			xs, e := cs.flatten(data)
			got[s], bad[s], kept[s], came[s] = xs, e, data, true
			if n := len(cs.Pert); n > 0 {
				perturb(cs.Pert[s%n])
			}
			if cs.Mutate {
				cs.spoil(data)
			}
			return data
		}
		if cs.Par {
			p.Add(pipeline.Par(pipeline.Receive(recv)))
		} else {
			p.Add(pipeline.Seq(pipeline.Receive(recv)))
		}
		p.Run()
	}
	if pv, b := plainRun(max(1, cs.Procs), body); b {
		c.Failf("Run panicked for a %s source: %v", cs.Src, pv)
		return
	}
	what := cs.Src + " of " + cs.Elem
	if err := p.Err(); (err != nil) != (wantErr != nil) || (err != nil && err.Error() != wantErr.Error()) {
		c.Failf("%s: Err() = %v, want %v", what, err, wantErr)
	}
	if wantErr != nil {
		// Data fetched before the error may be lost, and receivers may still
		// run after Run has returned.
		c.Label("%s with error", cs.Src)
		c.NonTrivial(true)
		if cs.Race {
			return
		}
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever after the run:\n%s", s)
			return
		}
	}
	if over {
		panic("HARNESS: too many batches")
	}
	if outside.IsValid() {
		for i := 0; i < outside.Len(); i++ {
			if i >= cs.Off && i < cs.Off+cs.N {
				continue
			}
			if x := elemReflect(cs.Elem, 41).Interface(); !reflect.DeepEqual(outside.Index(i).Interface(), x) {
				c.Failf("%s: appending to a batch has changed memory outside of the slice (element %d of [%d:%d])", what, i, cs.Off, cs.Off+cs.N)
				return
			}
		}
	}
	at, nb := 0, 0
	ended := false
	for s := 0; s < slots; s++ {
		if !came[s] {
			ended = true
			continue
		}
		nb++
		if bad[s] != "" {
			c.Failf("%s: batch %d: %s", what, s, bad[s])
			return
		}
		if ended {
			c.Failf("%s: batch %d comes after a missing batch", what, s)
		}
		if len(got[s]) == 0 {
			c.Failf("%s: batch %d is empty", what, s)
		}
		for _, e := range got[s] {
			if at >= len(want) {
				c.Failf("%s: more than the %d elements of the source are delivered", what, len(want))
				return
			}
			if e != want[at] {
				c.Failf("%s: element %d is delivered as %#v (batch %d), expected %#v", what, at, e, s, want[at])
				return
			}
			at++
		}
	}
	if at != len(want) && wantErr == nil {
		c.Failf("%s: %d of %d elements are delivered", what, at, len(want))
	}
	if !cs.Mutate {
		// Retained batches still have their contents.
		for s := 0; s < slots; s++ {
			if !came[s] {
				continue
			}
			xs, _ := cs.flatten(kept[s])
			for i := range xs {
				if i >= len(got[s]) || xs[i] != got[s][i] {
					c.Failf("%s: the retained batch %d has changed after it was delivered", what, s)
					return
				}
			}
		}
	}
	c.Label("%s, mutate %v", cs.Src, cs.Mutate)
	c.NonTrivial(nb >= 2)
}

func genSource(t *rapid.T, race bool) *SourceCase {
	cs := &SourceCase{Race: race}
	cs.Src = rapid.SampledFrom([]string{"array", "slice", "slice", "string", "chan", "chan", "single", "scanner", "scanner", "bytes", "bytes", "func"}).Draw(t, "src")
	cs.Elem = rapid.SampledFrom([]string{"int", "int", "string", "struct", "iface", "bytes", "ptr"}).Draw(t, "elem")
	cs.N = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 13, 40, 100}).Draw(t, "n") + rapid.IntRange(0, 3).Draw(t, "n2")
	large := rapid.IntRange(0, 11).Draw(t, "large") == 0
	if large {
		cs.N = rapid.IntRange(100, 4000).Draw(t, "n")
	}
	switch cs.Src {
	case "string":
		cs.Elem = "byte"
	case "slice":
		cs.Cap, cs.Off = rapid.IntRange(0, 8).Draw(t, "cap"), rapid.IntRange(0, 3).Draw(t, "off")
	case "single":
		fallthrough
	case "chan":
		cs.Buf = rapid.SampledFrom([]int{0, 1, 4, 1000}).Draw(t, "buf")
		cs.Recv = rapid.Bool().Draw(t, "recvonly")
	case "scanner", "bytes":
		cs.Elem = "string"
		cs.Lines = rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b c", " x  yy ", "longer line with words", strings.Repeat("z", 70), "\r", "äöü \u2003 ", "\x00\xff"}), 0, 30).Draw(t, "lines")
		if large {
			cs.Rep = rapid.IntRange(1, 60).Draw(t, "rep")
		}
		cs.Words = rapid.Bool().Draw(t, "words")
		cs.Chunk = rapid.SampledFrom([]int{0, 1, 7}).Draw(t, "chunk")
		cs.N = 0
		switch rapid.IntRange(0, 5).Draw(t, "scanerr") {
		case 0:
			cs.FailAt = rapid.IntRange(1, 60).Draw(t, "failat")
		case 1:
			cs.MaxTok = rapid.SampledFrom([]int{8, 64}).Draw(t, "maxtok")
		}
	}
	cs.NofB = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 200}).Draw(t, "nofb")
	cs.Inc, cs.Max = rapid.IntRange(1, 9).Draw(t, "inc"), rapid.IntRange(1, 20).Draw(t, "max")
	if large {
		cs.NofB, cs.Max = rapid.IntRange(0, 1000).Draw(t, "nofb"), rapid.IntRange(1, 300).Draw(t, "max")
	}
	cs.Par, cs.Mutate, cs.Twice = rapid.Bool().Draw(t, "par"), rapid.Bool().Draw(t, "mutate"), rapid.IntRange(0, 5).Draw(t, "twice") == 0
	if cs.FailAt > 0 || cs.MaxTok > 0 {
		cs.Par = false
	}
	cs.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
	cs.Pert = genPert(t)
	return cs
}

// ---------------------------------------------------------------------------
// L08: batch sizes

// BatchCase checks the requests a source gets.
type BatchCase struct {
	Size  int   `json:"size"` // negative: unknown
	Calls []int `json:"calls,omitempty"`
	Inc   int   `json:"inc,omitempty"`
	Max   int   `json:"max,omitempty"`
	SetVB bool  `json:"setvb,omitempty"`
	Len   int   `json:"len"` // fetches answered when the size is unknown
	Slice bool  `json:"slice,omitempty"`
	Procs int   `json:"procs"`
	Sizes []int `json:"sizes,omitempty"` // filters which announce these sizes to the next ones
	Kind  int   `json:"kind,omitempty"`  // of their nodes
}

type sizeSource struct {
	size, left int
	asked      []int
	early      bool
}

func (s *sizeSource) Err() error                  { return nil }
func (s *sizeSource) Prepare(context.Context) int { return s.size }
func (s *sizeSource) Data() interface{}           { return nil }
func (s *sizeSource) Fetch(n int) int {
	s.asked = append(s.asked, n)
	if len(s.asked) > 2500 || n < 1 {
		s.early = true // ends before the announced size
		return 0
	}
	if s.size >= 0 {
		k := min(n, s.left)
		s.left -= k
		return k
	}
	if len(s.asked) > s.left {
		return 0
	}
	return n
}

func execBatch(c *Ctx, cs *BatchCase) {
	setProcs(cs.Procs)
	p := &pipeline.Pipeline{}
	cur := 0
	for i, n := range cs.Calls {
		got := p.NofBatches(n)
		switch {
		case n >= 1:
			if got != n {
				c.Failf("NofBatches(%d) = %d", n, got)
			}
			cur = n
		case cur >= 1:
			if got != cur {
				c.Failf("NofBatches(%d) = %d after NofBatches(%d)", n, got, cur)
			}
		case got < 1:
			c.Failf("NofBatches(%d) = %d (call %d)", n, got, i)
		default:
			cur = got
		}
	}
	if cs.SetVB {
		p.SetVariableBatchSize(cs.Inc, cs.Max)
	}
	var lens []int
	src := &sizeSource{size: cs.Size, left: cs.Size}
	if cs.Size < 0 {
		src.left = cs.Len
	}
	if cs.Slice {
		p.Source(make([]byte, cs.Size))
	} else {
		p.Source(src)
	}
	var mu sync.Mutex
	for i, n := range cs.Sizes {
		f := func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
			*size = n
			if i&1 == 0 {
				return nil, nil
			}
			return func(_ int, data interface{}) interface{} { return data }, nil
		}
		switch (cs.Kind + i) % 4 {
		case 0:
			p.Add(pipeline.Ord(f))
		case 1:
			p.Add(pipeline.Par(f))
		case 2:
			p.Add(pipeline.LimitedPar(2, f))
		default:
			p.Add(pipeline.StrictOrd(f))
		}
	}
	p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data interface{}) interface{} {
		if b, ok := data.([]byte); ok {
			mu.Lock()
			lens = append(lens, len(b))
			mu.Unlock()
		}
		return data
	})))
	p.Run()
	nb := p.NofBatches(0)
	if cur >= 1 && nb != cur {
		c.Failf("NofBatches(0) = %d after Run, want %d", nb, cur)
	}
	if err := p.Err(); err != nil {
		c.Failf("Err() = %v", err)
	}
	switch {
	case cs.Slice:
		checkBatchLens(c, lens, cs.Size, nb)
	case cs.Size >= 0:
		want := batchSize(cs.Size, nb)
		left, k := cs.Size, 0
		var lens []int
		for _, n := range src.asked {
			if n != want {
				c.Failf("size %d in %d batches: request %d is for %d elements, expected %d", cs.Size, nb, k, n, want)
				return
			}
			if g := min(n, left); g > 0 {
				lens = append(lens, g)
				left -= g
			}
			k++
		}
		if !src.early {
			checkBatchLens(c, lens, cs.Size, nb)
		}
	default:
		inc, top := cs.Inc, cs.Max
		if !cs.SetVB {
			inc, top = 0, 0
		}
		if len(src.asked) != cs.Len+1 {
			c.Failf("%d requests for a source that answers %d of them", len(src.asked), cs.Len)
		}
		prev := 0
		for k, n := range src.asked {
			if n < 1 {
				c.Failf("request %d is for %d elements (batchInc %d, maxBatchSize %d)", k, n, inc, top)
				return
			}
			if inc >= 1 && top >= 1 {
				want := top
				if k+1 <= top/inc { // (k+1)*inc <= top without overflow
					want = min(top, (k+1)*inc)
				}
				if n != want {
					c.Failf("request %d is for %d elements, expected min(%d*%d, %d)", k, n, k+1, inc, top)
				}
			}
			if top >= 1 && n > top {
				c.Failf("request %d is for %d elements, more than maxBatchSize %d", k, n, top)
			}
			if inc >= 1 && k == 0 && top < 1 && n > inc {
				c.Failf("the first request is for %d elements, batchInc is %d", n, inc)
			}
			if inc >= 1 && top < 1 && k > 0 && n != prev && n-prev != inc && n < prev {
				c.Failf("request %d is for %d elements after one for %d, batchInc is %d", k, n, prev, inc)
			}
			if n < prev {
				c.Failf("request %d is for %d elements, less than the one before (%d)", k, n, prev)
			}
			prev = n
		}
	}
	c.NonTrivial(cs.Size > 1 || (cs.Size < 0 && cs.Len > 1))
	if cs.Size < 0 {
		c.Label("unknown size")
	} else {
		c.Label("known size")
	}
}

// batchSize is ceil(size/nb), at least 1.
func batchSize(size, nb int) int {
	b := size / nb
	if size%nb != 0 {
		b++
	}
	return max(1, b)
}

func checkBatchLens(c *Ctx, lens []int, size, nb int) {
	if len(lens) > nb {
		c.Failf("%d batches of %d elements in all, more than the %d requested", len(lens), size, nb)
	}
	total := 0
	for i, n := range lens {
		total += n
		if i < len(lens)-1 && n != batchSize(size, nb) || n > batchSize(size, nb) {
			c.Failf("batch %d of %d has %d elements (%d elements, %d batches requested)", i, len(lens), n, size, nb)
		}
	}
	if total != size {
		c.Failf("%d of %d elements are in batches", total, size)
	}
}

func genBatch(t *rapid.T) *BatchCase {
	cs := &BatchCase{Procs: rapid.SampledFrom([]int{1, 2, 3, 4, 8}).Draw(t, "procs")}
	big := rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 2, 1 << 40, 1 << 32, 1 << 31, 0x2000000, 0x2000001})
	num := func(name string) int {
		switch rapid.IntRange(0, 5).Draw(t, name+"kind") {
		case 0:
			return big.Draw(t, name)
		case 1:
			return -rapid.IntRange(0, 3).Draw(t, name)
		case 2:
			return rapid.IntRange(0, 5000).Draw(t, name)
		}
		return rapid.IntRange(1, 40).Draw(t, name)
	}
	k := rapid.IntRange(0, 3).Draw(t, "ncalls")
	for i := 0; i < k; i++ {
		cs.Calls = append(cs.Calls, num("nofb"))
	}
	switch rapid.IntRange(0, 2).Draw(t, "kind") {
	case 0:
		cs.Size = -1 - rapid.SampledFrom([]int{0, 0, 5, 1 << 40}).Draw(t, "neg")
		cs.Len = rapid.IntRange(0, 60).Draw(t, "len")
	case 1:
		cs.Slice = true
		cs.Size = rapid.IntRange(0, 3000).Draw(t, "size")
	default:
		cs.Size = max(0, num("size"))
	}
	if rapid.IntRange(0, 2).Draw(t, "sizes") == 0 {
		k := rapid.IntRange(1, 3).Draw(t, "nsizes")
		for i := 0; i < k; i++ {
			cs.Sizes = append(cs.Sizes, num("announced"))
		}
		cs.Kind = rapid.IntRange(0, 3).Draw(t, "nodekind")
	}
	cs.SetVB = rapid.IntRange(0, 4).Draw(t, "setvb") > 0
	cs.Inc, cs.Max = num("inc"), num("max")
	return cs
}

func init() {
	executor("chain", execChain)
	executor("pred", execPred)
	executor("source", execSource)
	executor("batch", execBatch)
	register(&Campaign{Prop: "L07", Name: "source", Exec: "source", Quick: 2400, Thorough: 90000, Gen: func(t *rapid.T) any { return genSource(t, false) }})
	register(&Campaign{Prop: "L07", Name: "source-race", Exec: "source", Race: true, Quick: 1200, Thorough: 40000, Gen: func(t *rapid.T) any { return genSource(t, true) }})
	register(&Campaign{Prop: "L08", Name: "batch", Exec: "batch", Quick: 6000, Thorough: 200000, Gen: func(t *rapid.T) any { return genBatch(t) }})
	register(&Campaign{Prop: "L09", Name: "chain", Exec: "chain", Quick: 4000, Thorough: 150000, Gen: func(t *rapid.T) any { return genChain(t, false) }})
	register(&Campaign{Prop: "L09", Name: "chain-race", Exec: "chain", Race: true, Quick: 1200, Thorough: 40000, Gen: func(t *rapid.T) any { return genChain(t, true) }})
	register(&Campaign{Prop: "L10", Name: "pred", Exec: "pred", Quick: 3000, Thorough: 120000, Gen: func(t *rapid.T) any { return genPred(t, false) }})
	register(&Campaign{Prop: "L10", Name: "pred-race", Exec: "pred", Race: true, Quick: 1200, Thorough: 40000, Gen: func(t *rapid.T) any { return genPred(t, true) }})
}
