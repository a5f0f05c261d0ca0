package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/pipeline"
)

// PipeCase is one pipeline run with everything its source and filters do.
type PipeCase struct {
	Nodes   []PNode  `json:"nodes"`
	Src     string   `json:"src"`           // known, unknown, inf, func, chan, chanopen, single, singleopen
	N       int      `json:"n"`             // elements
	Cap     int      `json:"cap,omitempty"` // capacity of a channel, filled in advance
	Short   int      `json:"short,omitempty"`
	NofB    int      `json:"nofb,omitempty"`
	Inc     int      `json:"inc,omitempty"`
	Max     int      `json:"max,omitempty"`
	OneAdd  bool     `json:"oneadd,omitempty"`
	Reuse   bool     `json:"reuse,omitempty"`   // the nodes get their filters from the same slice, one after the other
	WithCtx bool     `json:"withctx,omitempty"` // RunWithContext instead of Run
	CtxKind string   `json:"ctxkind,omitempty"` // what kind of context that is
	CtxGate bool     `json:"ctxgate,omitempty"` // the context's methods are scheduling points
	Events  []PEvent `json:"events,omitempty"`
	Rend    []int    `json:"rend,omitempty"`  // filters whose receivers wait for each other
	Check   string   `json:"check"`           // property
	Free    bool     `json:"free,omitempty"`  // not scheduled
	Iters   int      `json:"iters,omitempty"` // free runs
	Pert    []int    `json:"pert,omitempty"`
	Plan    Plan     `json:"plan"`
}

// PNode describes a node.
type PNode struct {
	Kind    string    `json:"kind"` // ord seq par lpar strict newseq newpar neword, uinline upar uqueue
	Limit   int       `json:"limit,omitempty"`
	Filters []PFilter `json:"filters,omitempty"`
}

// PFilter describes a filter.
type PFilter struct {
	Recv bool  `json:"recv,omitempty"`
	Fin  bool  `json:"fin,omitempty"`
	Outs []int `json:"outs,omitempty"` // what is returned, by sequence number: 0 data, 1 fresh, 2 nil, 3 empty, 4 modified in place, 5 string
}

// PEvent is a disturbance.
type PEvent struct {
	At  string `json:"at"` // recv, setup, fin, fetch, outside, pre
	F   int    `json:"f,omitempty"`
	B   int    `json:"b,omitempty"`
	Act string `json:"act"`         // cancel, ctx, err, reterr (source)
	E   int    `json:"e,omitempty"` // which error
}

type batchRef struct{ lo, n int }

type pcall struct {
	f, s    int
	in      interface{}
	t0, t1  int
	overlap bool
}

// pipeRun is the state of one run.
type pipeRun struct {
	c       *Ctx
	cs      *PipeCase
	race    bool
	s       *Sched
	p       *pipeline.Pipeline
	filters []pipeline.Filter // shared by the nodes
	flat    []PFilter
	node    []int // node of each filter
	kinds   []string
	limit   []int

	cancel context.CancelFunc
	ctx    context.Context

	mu       sync.Mutex
	clock    int
	calls    []pcall
	fins     []int // filter
	finT     []int
	active   []int // per node
	maxAct   []int
	returned int // clock at return
	setupErr bool
	errTrue  []error
	errCalls int
	cancels  int
	rendN    map[int]int
	rendCond *sync.Cond

	// source
	batches    []batchRef
	fetches    int
	after      int // fetches begun after a cancellation had returned
	disturbed  atomic.Bool
	srcErr     error
	srcErrSeen bool
	fetchedAny bool

	// race runs: plain memory only
	slots [][]pslot
	finN  []int
	last  []int // per node: last sequence number
	finOK []bool
}

type pslot struct {
	n  int
	in interface{}
}

const maxRaceBatches = 64

func copyData(d interface{}) interface{} {
	if x, ok := d.([]int); ok {
		if x == nil {
			return []int(nil)
		}
		return append(make([]int, 0, len(x)), x...)
	}
	return d
}

func sameData(a, b interface{}) bool {
	x, ok1 := a.([]int)
	y, ok2 := b.([]int)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		return a == b
	}
	if (x == nil) != (y == nil) || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// transform is what filter f does with a batch; in-place modification aside it
// is a pure function.
func transform(flt PFilter, f, s int, data interface{}) interface{} {
	if len(flt.Outs) == 0 {
		return data
	}
	switch flt.Outs[s%len(flt.Outs)] {
	case 1:
		sum := 0
		if x, ok := data.([]int); ok {
			for _, e := range x {
				sum = sum*31 + e
			}
		}
		return []int{f, s, sum}
	case 2:
		return nil
	case 3:
		return []int{}
	case 4:
		if x, ok := data.([]int); ok {
			for i := range x {
				x[i] += f + 1
			}
		}
		return data
	case 5:
		return fmt.Sprintf("%d/%d", f, s)
	}
	return data
}

// expect returns the expected input of filter f for batch s.
func (r *pipeRun) expect(f, s int) interface{} {
	var data interface{} = r.refData(s)
	for g := 0; g < f; g++ {
		if r.flat[g].Recv {
			data = transform(r.flat[g], g, s, data)
		}
	}
	return data
}

func (r *pipeRun) refData(s int) []int {
	b := r.batches[s]
	d := make([]int, b.n)
	for i := range d {
		d[i] = b.lo + i
	}
	return d
}

func (r *pipeRun) point(k int) {
	if r.s != nil {
		r.s.Point(k)
	} else if n := len(r.cs.Pert); n > 0 {
		perturb(r.cs.Pert[int(mix(uint64(k)*31+uint64(r.c.Repeat))%uint64(n))])
	}
}

// listError is an error that cannot be compared.
type listError []string

func (e listError) Error() string { return fmt.Sprint([]string(e)) }

var errKinds = [...]error{errors.New("e0"), errors.New("e1"), listError{"e2"}, context.Canceled, fmt.Errorf("e4: %w", io.EOF), io.EOF, &stormError{6}, listError(nil)}

func sameErr(a, b error) bool {
	if x, ok := a.(listError); ok {
		y, ok := b.(listError)
		return ok && x.Error() == y.Error()
	}
	if _, ok := b.(listError); ok {
		return false
	}
	return a == b
}

// act performs event i.
func (r *pipeRun) act(i int) {
	e := r.cs.Events[i]
	switch e.Act {
	case "cancel":
		r.p.Cancel()
	case "ctx":
		r.cancel()
	case "err":
		ok := r.p.SetErr(errKinds[e.E%len(errKinds)])
		got := r.p.Err()
		if !r.race {
			r.mu.Lock()
			r.errCalls++
			if ok {
				r.errTrue = append(r.errTrue, errKinds[e.E%len(errKinds)])
			}
			if got == nil || (ok && !sameErr(got, errKinds[e.E%len(errKinds)])) {
				r.c.Failf("Err() = %v right after SetErr(%v) = %v", got, errKinds[e.E%len(errKinds)], ok)
			}
			r.mu.Unlock()
		}
	}
	if !r.race {
		r.mu.Lock()
		r.cancels++
		r.mu.Unlock()
	}
	r.disturbed.Store(true)
}

func (r *pipeRun) fire(at string, f, b int) {
	for i, e := range r.cs.Events {
		if e.At == at && e.F == f && e.B == b {
			r.act(i)
			if at == "setup" && e.Act == "err" {
				r.setupErr = true
			}
		}
	}
}

func (r *pipeRun) receiver(f int) pipeline.Receiver {
	flt, node := r.flat[f], r.node[f]
	rend := 0
	for _, g := range r.cs.Rend {
		if g == f {
			rend = r.limit[node]
		}
	}
	if r.race {
		return func(s int, data interface{}) interface{} {
			if f < len(r.slots) && s < maxRaceBatches {
				sl := &r.slots[f][s]
				sl.n++
				sl.in = copyData(data)
			}
			if k := r.kinds[node]; k == "ord" || k == "seq" || k == "strict" {
				r.last[node] += s // plain read and write: exclusive within the node
			}
			r.point(s*7 + f)
			r.fire("recv", f, s)
			return transform(flt, f, s, data)
		}
	}
	return func(s int, data interface{}) interface{} {
		r.mu.Lock()
		r.clock++
		id := len(r.calls)
		r.calls = append(r.calls, pcall{f: f, s: s, in: copyData(data), t0: r.clock})
		r.active[node]++
		if r.active[node] > r.maxAct[node] {
			r.maxAct[node] = r.active[node]
		}
		r.mu.Unlock()
		r.point(s)
		if rend > 0 {
			r.mu.Lock()
			r.rendN[f]++
			r.rendCond.Broadcast()
			for r.rendN[f] < min(rend, r.cs.N) {
				r.rendCond.Wait()
			}
			r.mu.Unlock()
		}
		r.fire("recv", f, s)
		r.point(s)
		out := transform(flt, f, s, data)
		r.mu.Lock()
		r.clock++
		r.calls[id].t1 = r.clock
		r.active[node]--
		r.mu.Unlock()
		return out
	}
}

func (r *pipeRun) finalizer(f int) pipeline.Finalizer {
	if r.race {
		return func() {
			r.finN[f]++
			ok := true
			for g := 0; g <= f; g++ {
				if r.flat[g].Recv {
					for s := range r.slots[g] {
						if r.slots[g][s].n > 1 {
							ok = false
						}
					}
				}
			}
			r.finOK[f] = ok
			r.point(f)
			r.fire("fin", f, 0)
		}
	}
	return func() {
		r.point(f)
		r.fire("fin", f, 0)
		r.mu.Lock()
		r.clock++
		r.fins = append(r.fins, f)
		r.finT = append(r.finT, r.clock)
		r.mu.Unlock()
	}
}

func (r *pipeRun) filter(f int) pipeline.Filter {
	return func(p *pipeline.Pipeline, k pipeline.NodeKind, size *int) (rc pipeline.Receiver, fn pipeline.Finalizer) {
		r.fire("setup", f, 0)
		switch flt := r.flat[f]; {
		case flt.Recv && flt.Fin:
			return pipeline.ReceiveAndFinalize(r.receiver(f), r.finalizer(f))(p, k, size)
		case flt.Recv:
			return pipeline.Receive(r.receiver(f))(p, k, size)
		case flt.Fin:
			return pipeline.Finalize(r.finalizer(f))(p, k, size)
		}
		return pipeline.Identity(p, k, size)
	}
}

// ---------------------------------------------------------------------------
// User-defined nodes

// inlineNode calls its receivers in the goroutine that feeds it.
type inlineNode struct {
	fs   []pipeline.Filter
	rs   []pipeline.Receiver
	fins []pipeline.Finalizer
	par  bool // a goroutine per batch
	wg   sync.WaitGroup
}

func (n *inlineNode) TryMerge(pipeline.Node) bool { return false }

func (n *inlineNode) Begin(p *pipeline.Pipeline, _ int, size *int) bool {
	n.rs, n.fins = pipeline.ComposeFilters(p, pipeline.Parallel, size, n.fs)
	return len(n.rs)+len(n.fins) > 0
}

func (n *inlineNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	work := func() {
		for _, rc := range n.rs {
			data = rc(seqNo, data)
		}
		p.FeedForward(index, seqNo, data)
	}
	if !n.par {
		work()
		return
	}
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		work()
	}()
}

func (n *inlineNode) End() {
	n.wg.Wait()
	for _, f := range n.fins {
		f()
	}
}

// queueNode has an unbounded queue and forwards from its own goroutine in
// encounter order.
type queueNode struct {
	fs      []pipeline.Filter
	rs      []pipeline.Receiver
	fins    []pipeline.Finalizer
	mu      sync.Mutex
	stash   map[int]func()
	next    int
	ended   bool
	wake    chan struct{}
	stopped chan struct{}
}

func (n *queueNode) TryMerge(pipeline.Node) bool { return false }

func (n *queueNode) Begin(p *pipeline.Pipeline, _ int, size *int) bool {
	n.rs, n.fins = pipeline.ComposeFilters(p, pipeline.Ordered, size, n.fs)
	if len(n.rs)+len(n.fins) == 0 {
		return false
	}
	n.stash = map[int]func(){}
	n.wake, n.stopped = make(chan struct{}, 1), make(chan struct{})
	done := p.Context().Done()
	go func() {
		defer close(n.stopped)
		for {
			n.mu.Lock()
			work, ended := n.stash[n.next], n.ended
			if work != nil {
				delete(n.stash, n.next)
				n.next++
			}
			n.mu.Unlock()
			switch {
			case work != nil:
				work()
			case ended:
				return
			default:
				select {
				case <-n.wake:
				case <-done:
					return
				}
			}
		}
	}()
	return true
}

func (n *queueNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	n.mu.Lock()
	n.stash[seqNo] = func() {
		for _, rc := range n.rs {
			data = rc(seqNo, data)
		}
		p.FeedForward(index, seqNo, data)
	}
	n.mu.Unlock()
	n.signal()
}

func (n *queueNode) signal() {
	select {
	case n.wake <- struct{}{}:
	default:
	}
}

func (n *queueNode) End() {
	n.mu.Lock()
	n.ended = true
	n.mu.Unlock()
	n.signal()
	<-n.stopped
	for _, f := range n.fins {
		f()
	}
}

func (r *pipeRun) buildNode(i, f0 int) pipeline.Node {
	n := r.cs.Nodes[i]
	var fs []pipeline.Filter
	if r.cs.Reuse && n.Kind[0] != 'u' {
		if r.filters == nil {
			r.filters = make([]pipeline.Filter, 0, 50)
		}
		fs = r.filters
	}
	for j := range n.Filters {
		if !n.Filters[j].Recv && !n.Filters[j].Fin && j%2 == 1 {
			fs = append(fs, pipeline.Identity)
			continue
		}
		fs = append(fs, r.filter(f0+j))
	}
	switch n.Kind {
	case "ord":
		return pipeline.Ord(fs...)
	case "neword":
		return pipeline.NewNode(pipeline.Ordered, fs...)
	case "seq":
		return pipeline.Seq(fs...)
	case "newseq":
		return pipeline.NewNode(pipeline.Sequential, fs...)
	case "par":
		return pipeline.Par(fs...)
	case "newpar":
		return pipeline.NewNode(pipeline.Parallel, fs...)
	case "lpar":
		return pipeline.LimitedPar(n.Limit, fs...)
	case "strict":
		return pipeline.StrictOrd(fs...)
	case "uinline":
		return &inlineNode{fs: fs}
	case "upar":
		return &inlineNode{fs: fs, par: true}
	case "uqueue":
		return &queueNode{fs: fs}
	}
	panic("HARNESS: node kind " + n.Kind)
}

// ---------------------------------------------------------------------------
// Source

// ownSource is a user-defined source.
type ownSource struct {
	r    *pipeRun
	at   int
	data interface{}
	err  error
}

func (o *ownSource) Err() error { return o.err }

func (o *ownSource) Prepare(context.Context) int {
	if o.r.cs.Src == "known" {
		return o.r.cs.N
	}
	return -1
}

const afterLimit = 8

func (o *ownSource) Fetch(n int) int {
	r := o.r
	if r.disturbed.Load() {
		r.after++
		if r.after > afterLimit && (r.cs.Check == "L05" || r.cs.Src == "inf") {
			if !r.race {
				r.c.Failf("the source is still being fetched from, %d times after the cancellation", r.after)
			}
			o.data = nil
			return 0
		}
	}
	k := r.fetches
	r.fetches++
	r.point(-1 - k)
	m := n
	if r.cs.Short > 0 && k%2 == 1 && m > r.cs.Short {
		m = r.cs.Short // a short batch is legal
	}
	if r.cs.Src != "inf" {
		m = min(m, r.cs.N-o.at)
	} else if k >= 40 && !r.disturbed.Load() {
		<-r.p.Context().Done() // the receivers will cancel
	}
	if n < 1 {
		r.c.Failf("Fetch(%d)", n)
		return 0
	}
	for i, e := range r.cs.Events {
		if e.At == "fetch" && e.B == k {
			if e.Act == "reterr" {
				o.err = errKinds[e.E%len(errKinds)]
				r.srcErr, r.srcErrSeen = o.err, true
				if e.F == 0 {
					m = 0 // the error comes instead of data
				}
				r.disturbed.Store(true)
			} else {
				r.act(i)
			}
		}
	}
	if m <= 0 {
		o.data = nil
		return 0
	}
	d := make([]int, m)
	for i := range d {
		d[i] = o.at + i
	}
	r.batches = append(r.batches, batchRef{o.at, m})
	o.at += m
	o.data = d
	return m
}

func (o *ownSource) Data() interface{} { return o.data }

// lateCtx ends like a context whose deadline has passed.
type lateCtx struct{ context.Context }

func (l lateCtx) Err() error {
	if l.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

// ownCtx is a context that package context knows nothing about.
type ownCtx struct {
	mu    sync.Mutex
	done  chan struct{}
	ended bool
}

var errOwnCtx = errors.New("the end of an own context")

func (o *ownCtx) Deadline() (t time.Time, ok bool) { return }
func (o *ownCtx) Done() <-chan struct{}            { return o.done }
func (o *ownCtx) Value(interface{}) interface{}    { return nil }
func (o *ownCtx) end() {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.ended {
		o.ended = true
		close(o.done)
	}
}
func (o *ownCtx) Err() error {
	select {
	case <-o.done:
		return errOwnCtx
	default:
		return nil
	}
}

// newCtx returns a context, the function to cancel it, and what else ends it.
func newCtx(kind string) (ctx context.Context, cancel, end context.CancelFunc) {
	switch kind {
	case "late":
		ctx, cancel = context.WithCancel(context.Background())
		return lateCtx{ctx}, cancel, cancel
	case "own":
		o := &ownCtx{done: make(chan struct{})}
		return o, o.end, o.end
	case "child":
		parent, end := context.WithCancel(context.Background())
		ctx, cancel = context.WithCancel(parent)
		return ctx, cancel, end
	case "cause":
		ctx, withCause := context.WithCancelCause(context.Background())
		return ctx, func() { withCause(nil) }, func() { withCause(io.EOF) }
	}
	ctx, cancel = context.WithCancel(context.Background())
	return ctx, cancel, cancel
}

// gateCtx makes every use of the context a scheduling point.
type gateCtx struct {
	context.Context
	r *pipeRun
}

func (g gateCtx) Done() <-chan struct{} {
	g.r.point(1 << 20)
	return g.Context.Done()
}

func (g gateCtx) Err() error {
	g.r.point(1<<20 + 1)
	return g.Context.Err()
}

// ---------------------------------------------------------------------------
// Running

func baseKind(n PNode) string {
	switch n.Kind {
	case "neword":
		return "ord"
	case "newseq":
		return "seq"
	case "newpar", "upar", "uinline":
		return "par"
	case "uqueue":
		return "ord"
	case "lpar":
		if n.Limit == 1 {
			return "seq"
		}
	}
	return n.Kind
}

func newPipeRun(c *Ctx, cs *PipeCase, race bool) *pipeRun {
	r := &pipeRun{c: c, cs: cs, race: race, p: &pipeline.Pipeline{}, rendN: map[int]int{}}
	r.rendCond = sync.NewCond(&r.mu)
	for i, n := range cs.Nodes {
		r.kinds = append(r.kinds, baseKind(n))
		lim := 1
		switch baseKind(n) {
		case "par":
			lim = 1 << 30
		case "lpar":
			lim = n.Limit
			if lim <= 0 {
				lim = max(1, cs.Plan.Procs)
			}
		}
		r.limit = append(r.limit, lim)
		for _, f := range n.Filters {
			r.flat = append(r.flat, f)
			r.node = append(r.node, i)
		}
	}
	r.active, r.maxAct, r.last = make([]int, len(cs.Nodes)), make([]int, len(cs.Nodes)), make([]int, len(cs.Nodes))
	r.finN, r.finOK = make([]int, len(r.flat)), make([]bool, len(r.flat))
	if race {
		r.slots = make([][]pslot, len(r.flat))
		for i := range r.slots {
			r.slots[i] = make([]pslot, maxRaceBatches)
		}
	}
	return r
}

// body builds and runs the pipeline.
func (r *pipeRun) body() {
	cs, p := r.cs, r.p
	var stop []func()
	var feeding sync.WaitGroup
	switch cs.Src {
	case "known", "unknown", "inf":
		p.Source(&ownSource{r: r})
	case "func":
		o := &ownSource{r: r}
		p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
			k := o.Fetch(n)
			return o.data, k, o.err
		}))
	case "chan", "chanopen", "single", "singleopen":
		ch := make(chan []int, cs.Cap)
		quit := make(chan struct{})
		var src interface{}
		chi := make(chan int, cs.Cap)
		first := min(cs.Cap, cs.N)
		for i := 0; i < first; i++ {
			if cs.Src == "chan" || cs.Src == "chanopen" {
				chi <- i
			} else {
				ch <- []int{i}
			}
		}
		if cs.Src == "chan" || cs.Src == "chanopen" {
			src = chi
		} else {
			src = pipeline.NewSingletonChan(ch)
		}
		p.Source(src)
		feeding.Add(1)
		go func() {
			defer feeding.Done()
			for i := first; i < cs.N; i++ {
				if cs.Src == "chan" || cs.Src == "chanopen" {
					select {
					case chi <- i:
					case <-quit:
						return
					}
				} else {
					select {
					case ch <- []int{i}:
					case <-quit:
						return
					}
				}
			}
			if cs.Src == "chan" || cs.Src == "single" {
				close(chi)
				close(ch)
			}
		}()
		stop = append(stop, func() { close(quit) })
	}
	if cs.NofB > 0 {
		p.NofBatches(cs.NofB)
	}
	if cs.Inc > 0 || cs.Max > 0 {
		p.SetVariableBatchSize(cs.Inc, cs.Max)
	}
	var nodes []pipeline.Node
	f0 := 0
	for i := range cs.Nodes {
		nodes = append(nodes, r.buildNode(i, f0))
		f0 += len(cs.Nodes[i].Filters)
	}
	if cs.OneAdd {
		p.Add(nodes...)
	} else {
		for _, n := range nodes {
			p.Add(n)
		}
	}
	if cs.Reuse { // these belong to the caller again
		for i := range nodes {
			nodes[i] = nil
		}
		for i := range r.filters[:cap(r.filters)] {
			r.filters[:cap(r.filters)][i] = func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
				r.c.Failf("a node runs a filter it was not given")
				return nil, nil
			}
		}
	}
	ctx, cancel, end := newCtx(cs.CtxKind)
	defer end()
	r.ctx, r.cancel = ctx, end
	started := make(chan struct{})
	var outside sync.WaitGroup
	for i, e := range cs.Events {
		switch e.At {
		case "pre":
			end()
			r.cancels++
			r.disturbed.Store(true)
		case "outside":
			i, e := i, e
			outside.Add(1)
			go func() {
				defer outside.Done()
				<-started
				if r.s == nil {
					for k := 0; k < e.B; k++ {
						runtime.Gosched()
					}
					spin(e.F)
				} else {
					for k := 0; k < e.B; k++ {
						r.point(1<<19 + k)
					}
				}
				r.act(i)
			}()
		}
	}
	// Outside events start once the pipeline has its context, which is when
	// the first filter is set up.
	var once sync.Once
	p.Add(pipeline.Par(func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
		once.Do(func() { close(started) })
		return nil, nil
	}))
	withCtx := cs.WithCtx
	for _, e := range cs.Events {
		if e.Act == "ctx" {
			withCtx = true
		}
	}
	if withCtx {
		if cs.CtxGate && r.s != nil {
			p.RunWithContext(gateCtx{ctx, r}, cancel)
		} else {
			p.RunWithContext(ctx, cancel)
		}
	} else {
		p.Run()
	}
	if !r.race {
		r.mu.Lock()
		r.clock++
		r.returned = r.clock
		r.mu.Unlock()
	}
	if r.s != nil {
		r.s.Open()
	}
	once.Do(func() { close(started) })
	for _, f := range stop {
		f()
	}
	r.rendCond.Broadcast()
	outside.Wait()
	feeding.Wait()
	cancel()
}

func (r *pipeRun) hasEvents() bool { return len(r.cs.Events) > 0 }

func (r *pipeRun) hasErrEvents() bool {
	for _, e := range r.cs.Events {
		if e.Act == "err" || e.Act == "reterr" {
			return true
		}
	}
	return false
}

func execPipe(c *Ctx, cs *PipeCase) {
	if cs.Free {
		for i := 0; i < max(1, cs.Iters) && !c.Failed(); i++ {
			r := newPipeRun(c, cs, false)
			if p, bad := plainRun(cs.Plan.Procs, r.body); bad {
				c.Failf("Run panicked: %v", p)
				return
			}
			if s := leaked(); s != "" {
				c.Failf("goroutines left blocked for ever after the run:\n%s", s)
				return
			}
			r.verify()
		}
		return
	}
	r := newPipeRun(c, cs, false)
	r.s = newSched(cs.Plan)
	if p, bad := r.s.Run(r.body); bad {
		c.Failf("Run panicked: %v", p)
		return
	}
	if s := leaked(); s != "" {
		c.Failf("goroutines left blocked for ever after the run:\n%s", s)
		return
	}
	r.verify()
}

func (r *pipeRun) verify() {
	c, cs := r.c, r.cs
	r.mu.Lock()
	defer r.mu.Unlock()
	err := r.p.Err()
	for _, n := range cs.Nodes {
		c.Label("node %s", n.Kind)
	}
	c.Label("source %s", cs.Src)
	for _, e := range cs.Events {
		c.Label("%s at %s", e.Act, e.At)
	}
	busy := 0
	for i := range cs.Nodes {
		if r.maxAct[i] > 1 {
			busy++
		}
	}
	own := cs.Src == "known" || cs.Src == "unknown" || cs.Src == "inf" || cs.Src == "func"
	nb := len(r.batches)
	recvs := 0
	for _, f := range r.flat {
		if f.Recv {
			recvs++
		}
	}

	// At most once, in any case.
	type fs struct{ f, s int }
	seen := map[fs]int{}
	for i, k := range r.calls {
		if j, dup := seen[fs{k.f, k.s}]; dup {
			c.Failf("receiver of filter %d is called twice for batch %d (calls %d and %d)", k.f, k.s, j, i)
		}
		seen[fs{k.f, k.s}] = i
		if own && (k.s < 0 || k.s >= nb) {
			c.Failf("receiver of filter %d is called for batch %d, but only %d batches were fetched", k.f, k.s, nb)
			return
		}
	}

	switch cs.Check {
	case "L01":
		c.NonTrivial(nb >= 2 && recvs >= 2)
		if err != nil {
			c.Failf("Err() = %v in an undisturbed run", err)
		}
		total := 0
		for s, b := range r.batches {
			if b.lo != total {
				panic(fmt.Sprintf("HARNESS: batch %d", s))
			}
			total += b.n
		}
		if total != cs.N && recvs+r.nfin() > 0 {
			c.Failf("%d of %d elements were fetched from the source", total, cs.N)
		}
		for f, flt := range r.flat {
			if !flt.Recv {
				continue
			}
			for s := 0; s < nb; s++ {
				i, ok := seen[fs{f, s}]
				if !ok {
					c.Failf("receiver of filter %d (node %d, %s) never got batch %d of %d", f, r.node[f], cs.Nodes[r.node[f]].Kind, s, nb)
					return
				}
				k := r.calls[i]
				if k.t1 == 0 || k.t1 > r.returned {
					c.Failf("receiver of filter %d had not returned for batch %d when Run returned", f, s)
				}
				if want := r.expect(f, s); !sameData(k.in, want) {
					c.Failf("filter %d (node %d, %s), batch %d: got %#v, the preceding receiver returned %#v", f, r.node[f], cs.Nodes[r.node[f]].Kind, s, k.in, want)
				}
				for g := 0; g < f; g++ {
					if j, ok := seen[fs{g, s}]; ok && r.calls[j].t1 > k.t0 {
						c.Failf("batch %d entered filter %d before filter %d had finished with it", s, f, g)
					}
				}
			}
		}
	case "L02":
		ord := false
		for f, flt := range r.flat {
			k := r.kinds[r.node[f]]
			if !flt.Recv || (k != "ord" && k != "strict") {
				continue
			}
			if cs.Nodes[r.node[f]].Kind == "uqueue" {
				continue
			}
			ord = true
			next, t := 0, 0
			for _, k := range r.calls {
				if k.f != f {
					continue
				}
				if k.s != next {
					c.Failf("ordered filter %d (node %d) is called with batch %d, expected %d", f, r.node[f], k.s, next)
				}
				if k.t0 < t || (t == 0 && next > 0) {
					c.Failf("ordered filter %d is called with batch %d before it has returned for batch %d", f, k.s, k.s-1)
				}
				next, t = k.s+1, k.t1
			}
			if !r.hasEvents() && own && next != nb {
				c.Failf("ordered filter %d got %d of %d batches", f, next, nb)
			}
		}
		c.NonTrivial(ord && busy > 0)
	case "L03":
		for i, n := range cs.Nodes {
			if r.maxAct[i] > r.limit[i] {
				c.Failf("%d receiver calls of node %d (%s, limit %d) are in progress at the same time", r.maxAct[i], i, n.Kind, r.limit[i])
			}
			if r.maxAct[i] > 1 {
				c.Label("parallel inside %s", n.Kind)
			}
		}
		// A node that was merged with its neighbours is still one node.
		c.NonTrivial(nb >= 2 && recvs > 0)
	case "L04":
		if err != nil {
			c.Failf("Err() = %v in a run without error", err)
			return
		}
		times := map[int]int{}
		for i, f := range r.fins {
			if _, dup := times[f]; dup {
				c.Failf("finalizer of filter %d is called twice", f)
			}
			times[f] = r.finT[i]
		}
		for f, flt := range r.flat {
			if !flt.Fin {
				continue
			}
			t, ok := times[f]
			if !ok {
				c.Failf("finalizer of filter %d (node %d, %s) was not called", f, r.node[f], cs.Nodes[r.node[f]].Kind)
				continue
			}
			if t > r.returned {
				c.Failf("finalizer of filter %d ends after the return of Run", f)
			}
			for _, k := range r.calls {
				if k.f <= f && (k.t1 == 0 || k.t1 > t) {
					c.Failf("finalizer of filter %d was called before the receiver of filter %d returned for batch %d", f, k.f, k.s)
				}
			}
			for g, u := range times {
				if r.node[g] < r.node[f] && u > t {
					c.Failf("finalizer of filter %d (node %d) was called before that of filter %d (node %d)", f, r.node[f], g, r.node[g])
				}
			}
		}
		for _, k := range r.calls {
			if k.t1 == 0 || k.t1 > r.returned {
				c.Failf("receiver of filter %d still runs for batch %d when Run returns", k.f, k.s)
			}
		}
		c.NonTrivial(r.nfin() > 0)
	case "L05":
		c.NonTrivial(r.cancels > 0 && len(r.calls) > 0)
	case "L06":
		if len(r.errTrue) > 1 {
			c.Failf("SetErr returned true for %d errors: %v", len(r.errTrue), r.errTrue)
			return
		}
		switch {
		case len(r.errTrue) == 1:
			if !sameErr(err, r.errTrue[0]) {
				c.Failf("Err() = %v after SetErr(%v) returned true", err, r.errTrue[0])
			}
		case r.srcErrSeen:
			if !sameErr(err, r.srcErr) {
				c.Failf("Err() = %v, but the source reported %v", err, r.srcErr)
			}
		case r.errCalls > 0:
			c.Failf("none of %d calls of SetErr returned true", r.errCalls)
		default:
			if err != nil {
				c.Failf("Err() = %v although nothing failed", err)
			}
		}
		if r.setupErr && (len(r.calls) > 0 || r.fetches > 0) {
			c.Failf("an error was set during set-up, but the source was fetched from %d times and %d receivers were called", r.fetches, len(r.calls))
		}
		c.NonTrivial(r.errCalls > 1 || r.srcErrSeen || (r.errCalls == 1 && len(r.calls) > 0))
	}
}

func (r *pipeRun) nfin() int {
	n := 0
	for _, f := range r.flat {
		if f.Fin {
			n++
		}
	}
	return n
}

// execPipeRace is the free run under the race detector: the source, the
// filters and the caller use plain memory.
func execPipeRace(c *Ctx, cs *PipeCase) {
	r := newPipeRun(c, cs, true)
	if p, bad := plainRun(cs.Plan.Procs, r.body); bad {
		c.Failf("Run panicked: %v", p)
		return
	}
	c.Label("source %s", cs.Src)
	for _, n := range cs.Nodes {
		c.Label("node %s", n.Kind)
	}
	if r.hasErrEvents() {
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever after the run:\n%s", s)
		}
		c.NonTrivial(true)
		return
	}
	// A run without error has ended completely: everything is visible.
	if r.hasEvents() {
		if err := r.p.Err(); err != nil {
			c.Failf("Err() = %v although nothing failed", err)
		}
	}
	nb := len(r.batches)
	c.NonTrivial(nb >= 2 || (nb == 0 && cs.N >= 2))
	for f, flt := range r.flat {
		if flt.Fin && r.finN[f] != 1 {
			c.Failf("finalizer of filter %d was called %d times", f, r.finN[f])
		}
		if flt.Fin && !r.finOK[f] {
			c.Failf("finalizer of filter %d found a batch received twice", f)
		}
		if !flt.Recv {
			continue
		}
		for s := range r.slots[f] {
			sl := r.slots[f][s]
			if sl.n > 1 {
				c.Failf("receiver of filter %d is called %d times for batch %d", f, sl.n, s)
			}
			if r.hasEvents() || (cs.Src != "known" && cs.Src != "unknown" && cs.Src != "func") {
				continue
			}
			if s < nb && sl.n != 1 {
				c.Failf("receiver of filter %d never got batch %d of %d", f, s, nb)
			} else if s >= nb && sl.n != 0 {
				c.Failf("receiver of filter %d got batch %d of %d", f, s, nb)
			} else if s < nb {
				if want := r.expect(f, s); !sameData(sl.in, want) {
					c.Failf("filter %d, batch %d: got %#v, the preceding receiver returned %#v", f, s, sl.in, want)
				}
			}
		}
	}
}

func init() {
	executor("pipe", execPipe)
	executor("piperace", execPipeRace)
}
