package harness

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/pipeline"
	"pgregory.net/rapid"
)

// ErrStormCase lets several goroutines call SetErr at the same time.
type ErrStormCase struct {
	Inside  int    `json:"inside"`  // setters that are receivers
	Outside int    `json:"outside"` // setters that are goroutines of their own
	Watch   int    `json:"watch"`   // goroutines that only call Err
	Kind    string `json:"kind"`    // par, lpar, newpar, upar
	Ctx     bool   `json:"ctx,omitempty"`
	Same    bool   `json:"same,omitempty"` // all set the same error
	Iters   int    `json:"iters"`
	Pert    []int  `json:"pert,omitempty"`
	Procs   int    `json:"procs"`
}

type stormError struct{ i int }

func (e *stormError) Error() string { return fmt.Sprint("error ", e.i) }

func execErrStorm(c *Ctx, cs *ErrStormCase) {
	for it := 0; it < cs.Iters && !c.Failed(); it++ {
		k := cs.Inside + cs.Outside
		errs := make([]error, k)
		won := make([]bool, k)
		after := make([]error, k)
		for i := range errs {
			errs[i] = &stormError{i}
			if cs.Same {
				errs[i] = errs[0]
			}
		}
		p := &pipeline.Pipeline{}
		var arrived, finished atomic.Int32
		var end atomic.Bool
		var wg sync.WaitGroup
		set := func(i int) {
			arrived.Add(1)
			for arrived.Load() < int32(k) {
				runtime.Gosched()
			}
			if n := len(cs.Pert); n > 0 {
				perturb(cs.Pert[(i+it)%n])
			}
			won[i] = p.SetErr(errs[i])
			after[i] = p.Err()
			finished.Add(1)
		}
		watch := make([]string, cs.Watch)
		started := make(chan struct{})
		for i := 0; i < cs.Outside; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-started; set(cs.Inside + i) }()
		}
		for i := 0; i < cs.Watch; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-started
				var last error
				for stop := false; !stop; runtime.Gosched() {
					stop = end.Load()
					e := p.Err()
					if e != last && last != nil {
						watch[i] = fmt.Sprintf("Err() changed from %v to %v", last, e)
						return
					}
					last = e
				}
			}()
		}
		o := &ownSource{r: &pipeRun{c: c, cs: &PipeCase{Src: "known", N: cs.Inside}, p: p}}
		p.Source(o)
		p.NofBatches(max(1, cs.Inside))
		fs := []pipeline.Filter{func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			close(started)
			return func(seqNo int, _ interface{}) interface{} {
				set(seqNo)
				return nil
			}, nil
		}}
		switch cs.Kind {
		case "par":
			p.Add(pipeline.Par(fs...))
		case "newpar":
			p.Add(pipeline.NewNode(pipeline.Parallel, fs...))
		case "lpar":
			p.Add(pipeline.LimitedPar(max(2, cs.Inside), fs...))
		case "upar":
			p.Add(&inlineNode{fs: fs, par: true})
		}
		pv, bad := plainRun(cs.Procs, func() {
			if cs.Ctx {
				ctx, cancel := context.WithCancel(context.Background())
				p.RunWithContext(ctx, cancel)
				cancel()
			} else {
				p.Run()
			}
			for finished.Load() < int32(k) {
				runtime.Gosched()
			}
			end.Store(true)
			wg.Wait()
		})
		if bad {
			c.Failf("Run panicked: %v", pv)
			return
		}
		winner := -1
		for i, w := range won {
			if w {
				if winner >= 0 {
					c.Failf("two of %d concurrent SetErr calls returned true: %d and %d", k, winner, i)
				}
				winner = i
			}
		}
		if winner < 0 {
			c.Failf("none of %d concurrent SetErr calls returned true", k)
			return
		}
		for i, e := range after {
			if e != errs[winner] {
				c.Failf("Err() = %v after SetErr(%v) returned %v, the first error is %v", e, errs[i], won[i], errs[winner])
			}
		}
		if e := p.Err(); e != errs[winner] {
			c.Failf("Err() = %v after Run, but SetErr(%v) returned true", e, errs[winner])
		}
		for _, w := range watch {
			if w != "" {
				c.Failf("%s", w)
			}
		}
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever after the run:\n%s", s)
		}
	}
	c.Label("setters %d inside, %d outside", min(cs.Inside, 3), min(cs.Outside, 3))
	c.NonTrivial(cs.Inside+cs.Outside >= 2)
}

func init() {
	executor("errstorm", execErrStorm)
	gen := func(iters int) func(t *rapid.T) any {
		return func(t *rapid.T) any {
			cs := &ErrStormCase{Inside: rapid.IntRange(0, 5).Draw(t, "inside"), Outside: rapid.IntRange(0, 4).Draw(t, "outside"), Watch: rapid.IntRange(0, 2).Draw(t, "watch"), Iters: iters, Procs: freeProcs(t), Pert: genPert(t)}
			if cs.Inside+cs.Outside < 2 {
				cs.Inside = 2
			}
			cs.Kind = rapid.SampledFrom([]string{"par", "lpar", "newpar", "upar"}).Draw(t, "kind")
			cs.Ctx = rapid.Bool().Draw(t, "ctx")
			cs.Same = rapid.IntRange(0, 4).Draw(t, "same") == 0
			return cs
		}
	}
	register(&Campaign{Prop: "L06", Name: "pipe-error-storm", Exec: "errstorm", Quick: 600, Thorough: 20000, Gen: gen(30)})
	register(&Campaign{Prop: "L06", Name: "pipe-error-storm-race", Exec: "errstorm", Race: true, Quick: 200, Thorough: 6000, Gen: gen(10)})
}
