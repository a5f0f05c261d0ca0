package harness

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/pipeline"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// L11: the protocols between a pipeline and its source, nodes and filters

type ProtoFilter struct {
	Recv bool `json:"recv,omitempty"`
	Fin  bool `json:"fin,omitempty"`
	Size int  `json:"size,omitempty"` // what the filter announces: 0 as before, 1 unknown, 2 one less, 3 K
	K    int  `json:"k,omitempty"`
}

type ProtoNode struct {
	Kind    string        `json:"kind"` // as in PipeCase, or user (its own node type)
	Limit   int           `json:"limit,omitempty"`
	Refuse  bool          `json:"refuse,omitempty"` // user: Begin returns false
	Filters []ProtoFilter `json:"filters,omitempty"`
}

type ProtoCase struct {
	Nodes   []ProtoNode `json:"nodes"`
	N       int         `json:"n"`
	Known   bool        `json:"known,omitempty"`
	NofB    int         `json:"nofb,omitempty"`
	Inc     int         `json:"inc,omitempty"`
	Max     int         `json:"max,omitempty"`
	Earlier int         `json:"earlier,omitempty"` // sources that are replaced by later calls of Source
	Ctx     string      `json:"ctx,omitempty"`     // "" Run, with: RunWithContext, dead: with a context that is cancelled already
	Act     string      `json:"act,omitempty"`     // cancel, seterr (a receiver, on batch ActAt), prerr (SetErr before Run), srcerr (the source, at fetch ActAt)
	ActAt   int         `json:"actat,omitempty"`
	Pert    []int       `json:"pert,omitempty"`
	Procs   int         `json:"procs,omitempty"`
}

type protoKey struct{}

type protoRun struct {
	c       *Ctx
	cs      *ProtoCase
	p       *pipeline.Pipeline
	what    string
	mu      sync.Mutex
	msg     string
	fed     bool // something was fetched
	acted   int32
	size    int // announced so far
	setup   []int
	rcvd    []int
	fins    []int
	begin   []int
	feeds   []map[int]int
	inFee   []int
	ends    []int
	cancels int32
	srcCtx  context.Context
}

func (r *protoRun) fail(format string, a ...interface{}) {
	r.mu.Lock()
	if r.msg == "" {
		r.msg = fmt.Sprintf(format, a...)
	}
	r.mu.Unlock()
}

func (r *protoRun) act(seq int) {
	if seq != r.cs.ActAt || !atomic.CompareAndSwapInt32(&r.acted, 0, 1) {
		return
	}
	switch r.cs.Act {
	case "cancel":
		r.p.Cancel()
	case "seterr":
		if !r.p.SetErr(errProto) {
			r.fail("the first SetErr returned false")
		}
	default:
		return
	}
	if r.p.Context().Err() == nil {
		r.fail("the context of the pipeline is not cancelled after %s", r.cs.Act)
	}
	if r.srcCtx.Err() == nil {
		r.fail("the context of the source is not cancelled after %s", r.cs.Act)
	}
	if r.cs.Ctx != "" && atomic.LoadInt32(&r.cancels) == 0 {
		r.fail("%s did not call the cancel function", r.cs.Act)
	}
}

var errProto = errors.New("proto")

func (r *protoRun) disturbed() bool { return r.cs.Act != "" || r.cs.Ctx == "dead" }

func (r *protoRun) checkCtx(where string) {
	ctx := r.p.Context()
	if ctx == nil {
		r.fail("%s: Context() is nil", where)
		return
	}
	if r.cs.Ctx != "" && ctx.Value(protoKey{}) != r {
		r.fail("%s: Context() is not the context passed to RunWithContext", where)
	}
	if !r.disturbed() && ctx.Err() != nil {
		r.fail("%s: the context is cancelled in an undisturbed run", where)
	}
}

// filter returns filter number f, in node i.
func (r *protoRun) filter(i, f int, spec ProtoFilter) pipeline.Filter {
	kind := r.cs.Nodes[i].Kind
	return func(p *pipeline.Pipeline, k pipeline.NodeKind, size *int) (rc pipeline.Receiver, fn pipeline.Finalizer) {
		r.checkCtx("filter")
		r.mu.Lock()
		defer r.mu.Unlock()
		bad := func(format string, a ...interface{}) {
			if r.msg == "" {
				r.msg = fmt.Sprintf("filter %d (node %d, %s): ", f, i, kind) + fmt.Sprintf(format, a...)
			}
		}
		if p != r.p {
			bad("called with another pipeline")
		}
		ok := false
		switch kind {
		case "ord", "neword", "strict":
			ok = k == pipeline.Ordered
		case "seq", "newseq":
			ok = k == pipeline.Sequential || k == pipeline.Ordered // merged
		case "lpar":
			ok = k == pipeline.Parallel || r.cs.Nodes[i].Limit == 1
		default:
			ok = k == pipeline.Parallel
		}
		if !ok {
			bad("called with kind %d", k)
		}
		if r.fed {
			bad("called after data was fetched")
		}
		if n := len(r.setup); n > 0 && r.setup[n-1] >= f {
			bad("called after filter %d", r.setup[n-1])
		}
		r.setup = append(r.setup, f)
		if size == nil {
			bad("no size")
			return
		}
		if *size != r.size && (*size >= 0 || r.size >= 0) {
			bad("the size is %d, the preceding stage announced %d", *size, r.size)
		}
		switch spec.Size {
		case 1:
			*size = -1
		case 2:
			if *size > 0 {
				*size--
			}
		case 3:
			*size = spec.K
		}
		r.size = *size
		if spec.Recv {
			rc = func(seq int, data interface{}) interface{} {
				r.checkCtx("receiver")
				if n := len(r.cs.Pert); n > 0 {
					perturb(r.cs.Pert[(seq+f)%n])
				}
				r.mu.Lock()
				r.rcvd[f]++
				r.mu.Unlock()
				r.act(seq)
				return data
			}
		}
		if spec.Fin {
			fn = func() {
				r.checkCtx("finalizer")
				r.mu.Lock()
				r.fins[f]++
				r.mu.Unlock()
			}
		}
		return
	}
}

// protoNode is a user-defined node, parallel or not.
type protoNode struct {
	r    *protoRun
	i    int
	fs   []pipeline.Filter
	rs   []pipeline.Receiver
	fins []pipeline.Finalizer
	spec ProtoNode
}

func (n *protoNode) TryMerge(pipeline.Node) bool { return false }

func (n *protoNode) Begin(p *pipeline.Pipeline, index int, size *int) bool {
	r := n.r
	r.checkCtx("Begin")
	r.mu.Lock()
	if p != r.p {
		r.msg = "Begin called with another pipeline"
	}
	r.begin[n.i]++
	if *size != r.size && (*size >= 0 || r.size >= 0) && r.msg == "" {
		r.msg = fmt.Sprintf("Begin of node %d: the size is %d, the preceding stage announced %d", n.i, *size, r.size)
	}
	fed := r.fed
	r.mu.Unlock()
	if fed {
		r.fail("Begin called after data was fetched")
	}
	if n.spec.Refuse {
		return false
	}
	n.rs, n.fins = pipeline.ComposeFilters(p, pipeline.Parallel, size, n.fs)
	return true
}

func (n *protoNode) Feed(p *pipeline.Pipeline, index, seq int, data interface{}) {
	r := n.r
	r.mu.Lock()
	r.feeds[n.i][seq]++
	r.inFee[n.i]++
	switch {
	case r.msg != "":
	case n.spec.Refuse:
		r.msg = fmt.Sprintf("node %d: Feed called although Begin returned false", n.i)
	case r.begin[n.i] == 0:
		r.msg = fmt.Sprintf("node %d: Feed called before Begin", n.i)
	case r.ends[n.i] > 0:
		r.msg = fmt.Sprintf("node %d: Feed called after End", n.i)
	case r.feeds[n.i][seq] > 1:
		r.msg = fmt.Sprintf("node %d: batch %d fed more than once", n.i, seq)
	case p != r.p:
		r.msg = "Feed called with another pipeline"
	}
	r.mu.Unlock()
	for _, rc := range n.rs {
		data = rc(seq, data)
	}
	p.FeedForward(index, seq, data)
	r.mu.Lock()
	r.inFee[n.i]--
	r.mu.Unlock()
}

func (n *protoNode) End() {
	r := n.r
	r.checkCtx("End")
	r.mu.Lock()
	r.ends[n.i]++
	switch {
	case r.msg != "":
	case n.spec.Refuse:
		r.msg = fmt.Sprintf("node %d: End called although Begin returned false", n.i)
	case r.ends[n.i] > 1:
		r.msg = fmt.Sprintf("node %d: End called more than once", n.i)
	case r.inFee[n.i] > 0:
		r.msg = fmt.Sprintf("node %d: End called while Feed is in progress", n.i)
	}
	r.mu.Unlock()
	for _, f := range n.fins {
		f()
	}
}

// protoSource records what the pipeline asks of it.
type protoSource struct {
	r        *protoRun
	dead     bool // replaced by a later one
	prepared int
	ctx      context.Context
	busy     int32
	fetches  int
	batches  int
	over     bool
	dataDue  bool
	at       int
	data     []int
	err      error
}

func (s *protoSource) enter(what string) {
	if !atomic.CompareAndSwapInt32(&s.busy, 0, 1) {
		s.r.fail("source: %s called while another method is in progress", what)
	}
	if s.dead {
		s.r.fail("source: %s of a replaced source is called", what)
	}
}

func (s *protoSource) leave() { atomic.StoreInt32(&s.busy, 0) }

func (s *protoSource) Err() error { return s.err }

func (s *protoSource) Prepare(ctx context.Context) int {
	s.enter("Prepare")
	defer s.leave()
	s.prepared++
	s.ctx, s.r.srcCtx = ctx, ctx
	if s.r.cs.Ctx != "" && ctx.Value(protoKey{}) != s.r {
		s.r.fail("source: prepared with a context that is not the one passed to RunWithContext")
	}
	s.r.mu.Lock()
	if len(s.r.setup) > 0 && s.r.msg == "" {
		s.r.msg = "source: Prepare called after a filter was set up"
	}
	s.r.size = -1
	if s.r.cs.Known {
		s.r.size = s.r.cs.N
	}
	size := s.r.size
	s.r.mu.Unlock()
	return size
}

func (s *protoSource) Fetch(n int) int {
	s.enter("Fetch")
	defer s.leave()
	s.r.mu.Lock()
	s.r.fed = true
	s.r.mu.Unlock()
	if s.prepared == 0 {
		s.r.fail("source: Fetch called before Prepare")
	}
	if s.over {
		s.r.fail("source: Fetch called again after it returned 0")
	}
	if n < 1 {
		s.r.fail("source: %d elements requested", n)
		return 0
	}
	if s.err != nil {
		s.r.fail("source: Fetch called again after the source failed")
	}
	s.fetches++
	if n > s.r.cs.N-s.at {
		n = s.r.cs.N - s.at
	}
	if s.r.cs.Act == "srcerr" && s.fetches-1 == s.r.cs.ActAt {
		s.err = errProto
	}
	s.data = make([]int, n)
	s.at += n
	s.over = n == 0
	s.dataDue = n > 0
	if n > 0 {
		s.batches++
	}
	return n
}

func (s *protoSource) Data() interface{} {
	s.enter("Data")
	defer s.leave()
	if s.fetches == 0 {
		s.r.fail("source: Data called before Fetch")
	}
	s.dataDue = false
	return s.data
}

func execProto(c *Ctx, cs *ProtoCase) {
	p := &pipeline.Pipeline{}
	r := &protoRun{c: c, cs: cs, p: p}
	nf := 0
	for _, n := range cs.Nodes {
		nf += len(n.Filters)
	}
	r.rcvd, r.fins = make([]int, nf), make([]int, nf)
	nn := len(cs.Nodes)
	r.begin, r.inFee, r.ends, r.feeds = make([]int, nn), make([]int, nn), make([]int, nn), make([]map[int]int, nn)
	for i := range r.feeds {
		r.feeds[i] = map[int]int{}
	}
	src := &protoSource{r: r}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), protoKey{}, r))
	defer cancel()
	body := func() {
		for i := 0; i < cs.Earlier; i++ {
			if i%2 == 0 {
				p.Source(&protoSource{r: r, dead: true})
			} else {
				p.Source([]string{"x", "y"})
			}
		}
		p.Source(src)
		if cs.NofB > 0 {
			p.NofBatches(cs.NofB)
		}
		if cs.Inc > 0 || cs.Max > 0 {
			p.SetVariableBatchSize(cs.Inc, cs.Max)
		}
		f := 0
		for i, n := range cs.Nodes {
			var fs []pipeline.Filter
			for _, spec := range n.Filters {
				fs = append(fs, r.filter(i, f, spec))
				f++
			}
			if n.Kind == "user" {
				p.Add(&protoNode{r: r, i: i, fs: fs, spec: n})
			} else {
				p.Add(wrapNode(n.Kind, n.Limit, fs...))
			}
		}
		if cs.Act == "prerr" {
			if !p.SetErr(errProto) {
				r.fail("SetErr before the run returned false")
			}
		}
		switch cs.Ctx {
		case "":
			p.Run()
		case "dead":
			cancel()
			fallthrough
		default:
			p.RunWithContext(ctx, func() { atomic.AddInt32(&r.cancels, 1); cancel() })
		}
	}
	if pv, bad := plainRun(cs.Procs, body); bad {
		c.Failf("Run panicked: %v", clip(fmt.Sprint(pv), 800))
		return
	}
	var ctxErr, srcCtxErr error
	if cs.Act != "prerr" {
		ctxErr = p.Context().Err()
		if src.ctx != nil {
			srcCtxErr = src.ctx.Err()
		}
	}
	called := atomic.LoadInt32(&r.cancels)
	cancel() // the duty of the caller of RunWithContext
	if s := leaked(); s != "" {
		c.Failf("goroutines left blocked for ever after the run:\n%s", s)
		return
	}
	if r.msg != "" {
		c.Failf("%s", r.msg)
		return
	}
	c.Label("ctx %q", cs.Ctx)
	c.Label("act %q", cs.Act)
	var wantErr error
	switch cs.Act {
	case "prerr":
		wantErr = errProto
	case "seterr":
		if r.acted != 0 {
			wantErr = errProto
		}
	case "srcerr":
		wantErr = src.err
	}
	if err := p.Err(); err != wantErr {
		c.Failf("Err() = %v after the run, want %v", err, wantErr)
	}
	if cs.Act == "prerr" {
		if src.fetches > 0 || len(r.setup) > 0 {
			c.Failf("the pipeline was run although an error had been set before")
		}
		c.NonTrivial(true)
		return
	}
	if src.prepared != 1 {
		c.Failf("source: prepared %d times", src.prepared)
	}
	if src.dataDue && !r.disturbed() {
		c.Failf("source: the data of the last fetch were never asked for")
	}
	// Contexts after the run.
	switch {
	case cs.Ctx == "":
		if ctxErr == nil {
			c.Failf("the context is not cancelled after Run")
		}
		if srcCtxErr == nil {
			c.Failf("the context passed to the source is not cancelled after Run")
		}
	case !r.disturbed():
		if ctxErr != nil || called != 0 {
			c.Failf("the context is cancelled after an undisturbed RunWithContext (cancel function called %d times)", called)
		}
	}
	f := 0
	setups := map[int]int{}
	for _, x := range r.setup {
		setups[x]++
	}
	undisturbed := !r.disturbed()
	errored := wantErr != nil
	for i, n := range cs.Nodes {
		if n.Kind == "user" {
			if r.begin[i] != 1 {
				c.Failf("node %d: Begin called %d times", i, r.begin[i])
			}
			if want := src.batches; undisturbed && !n.Refuse && len(r.feeds[i]) != want {
				c.Failf("node %d: Feed called for %d of %d batches", i, len(r.feeds[i]), want)
			}
			if !errored && !n.Refuse && r.ends[i] != 1 {
				c.Failf("node %d: End called %d times", i, r.ends[i])
			}
		}
		for j := range n.Filters {
			refused := n.Kind == "user" && n.Refuse
			if !refused && setups[f] != 1 {
				c.Failf("filter %d of node %d (%s) set up %d times", j, i, n.Kind, setups[f])
			}
			if n.Filters[j].Recv && undisturbed && !refused && r.rcvd[f] != src.batches {
				c.Failf("filter %d of node %d (%s) received %d of %d batches", j, i, n.Kind, r.rcvd[f], src.batches)
			}
			if n.Filters[j].Fin && !refused && (!errored && r.fins[f] != 1 || r.fins[f] > 1) {
				c.Failf("filter %d of node %d (%s) finalized %d times", j, i, n.Kind, r.fins[f])
			}
			f++
		}
	}
	c.NonTrivial(nn > 1 && src.batches > 1)
}

func genProto(t *rapid.T) *ProtoCase {
	cs := &ProtoCase{Procs: freeProcs(t)}
	cs.N = rapid.SampledFrom([]int{0, 1, 2, 5, 9, 17, 30, 64}).Draw(t, "n")
	cs.Known = rapid.Bool().Draw(t, "known")
	cs.NofB = rapid.IntRange(0, 12).Draw(t, "nofb")
	cs.Inc, cs.Max = rapid.IntRange(0, 3).Draw(t, "inc"), rapid.IntRange(0, 9).Draw(t, "max")
	cs.Earlier = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "earlier")
	cs.Ctx = rapid.SampledFrom([]string{"", "", "", "with", "with", "with", "dead"}).Draw(t, "ctx")
	if rapid.IntRange(0, 2).Draw(t, "disturb") == 0 {
		cs.Act = rapid.SampledFrom([]string{"cancel", "seterr", "prerr", "srcerr"}).Draw(t, "act")
		cs.ActAt = rapid.IntRange(0, 8).Draw(t, "actat")
	}
	nn := rapid.IntRange(1, 7).Draw(t, "nodes")
	for i := 0; i < nn; i++ {
		n := ProtoNode{Kind: rapid.SampledFrom([]string{"ord", "ord", "seq", "par", "lpar", "strict", "neword", "newseq", "newpar", "user", "user"}).Draw(t, "kind")}
		if n.Kind == "lpar" {
			n.Limit = rapid.IntRange(1, 4).Draw(t, "limit")
		}
		if n.Kind == "user" {
			n.Refuse = rapid.IntRange(0, 4).Draw(t, "refuse") == 0
		}
		nf := rapid.IntRange(0, 3).Draw(t, "filters")
		for j := 0; j < nf; j++ {
			spec := ProtoFilter{Recv: rapid.IntRange(0, 3).Draw(t, "recv") > 0, Fin: rapid.Bool().Draw(t, "fin")}
			if rapid.IntRange(0, 2).Draw(t, "sizes") == 0 {
				spec.Size = rapid.IntRange(1, 3).Draw(t, "size")
				spec.K = rapid.IntRange(0, 50).Draw(t, "k")
			}
			n.Filters = append(n.Filters, spec)
		}
		cs.Nodes = append(cs.Nodes, n)
	}
	cs.Pert = genPert(t)
	return cs
}

func init() {
	executor("proto", execProto)
	register(&Campaign{Prop: "L11", Name: "protocol", Exec: "proto", Quick: 4000, Thorough: 150000, Gen: func(t *rapid.T) any { return genProto(t) }})
}
