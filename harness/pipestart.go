package harness

import (
	"context"
	"runtime"
	"sync"

	"github.com/exascience/pargo/pipeline"
	"pgregory.net/rapid"
)

// StartErrCase lets goroutines that do not belong to the pipeline call SetErr
// while the run begins, or is in progress.
type StartErrCase struct {
	Setters int    `json:"setters"`
	Nodes   string `json:"nodes"`             // one letter per node: p, l, o, s, S
	N       int    `json:"n"`                 // elements
	Endless bool   `json:"endless,omitempty"` // only an error ends the run
	Ctx     bool   `json:"ctx,omitempty"`
	Late    []int  `json:"late,omitempty"` // delays of the setters
	Iters   int    `json:"iters"`
	Procs   int    `json:"procs"`
}

func execStartErr(c *Ctx, cs *StartErrCase) {
	for it := 0; it < cs.Iters && !c.Failed(); it++ {
		errs := make([]error, cs.Setters)
		won := make([]bool, cs.Setters)
		after := make([]error, cs.Setters)
		p := &pipeline.Pipeline{}
		prepared, fetched := false, 0
		p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			prepared = true
			if fetched++; cs.Endless {
				runtime.Gosched()
				return []int{fetched}, 1, nil
			}
			if fetched > cs.N {
				return nil, 0, nil
			}
			return []int{fetched}, 1, nil
		}))
		p.SetVariableBatchSize(1, 1)
		pass := pipeline.Receive(func(_ int, data interface{}) interface{} { return data })
		for _, k := range cs.Nodes {
			switch k {
			case 'p':
				p.Add(pipeline.Par(pass))
			case 'l':
				p.Add(pipeline.LimitedPar(3, pass))
			case 'o':
				p.Add(pipeline.Ord(pass))
			case 's':
				p.Add(pipeline.Seq(pass))
			case 'S':
				p.Add(pipeline.StrictOrd(pass))
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		pv, bad := plainRun(cs.Procs, func() {
			var wg sync.WaitGroup
			for i := range errs {
				errs[i] = &stormError{i}
				wg.Add(1)
				go func() {
					defer wg.Done()
					if n := len(cs.Late); n > 0 {
						for k := cs.Late[(i+it)%n]; k > 0; k -= 50 {
							spin(min(k, 50))
							runtime.Gosched()
						}
					}
					won[i] = p.SetErr(errs[i])
					after[i] = p.Err()
				}()
			}
			if cs.Ctx {
				p.RunWithContext(ctx, cancel)
			} else {
				p.Run()
			}
			wg.Wait()
		})
		if bad {
			c.Failf("panic: %v", pv)
			return
		}
		winner := -1
		for i, w := range won {
			if w {
				if winner >= 0 {
					c.Failf("two SetErr calls returned true: %d and %d", winner, i)
				}
				winner = i
			}
		}
		if winner < 0 {
			c.Failf("none of %d SetErr calls returned true", cs.Setters)
			return
		}
		for i, e := range append(after, p.Err()) {
			if e != errs[winner] {
				c.Failf("Err() = %v after SetErr call %d, the first error is %v", e, i, errs[winner])
			}
		}
		if cs.Ctx && prepared && ctx.Err() == nil {
			c.Failf("SetErr did not cancel the context of the run")
		}
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever after the run:\n%s", s)
		}
		cancel()
		c.Label("prepared %v", prepared)
	}
	c.NonTrivial(true)
}

func init() {
	executor("starterr", execStartErr)
	gen := func(iters int) func(t *rapid.T) any {
		return func(t *rapid.T) any {
			cs := &StartErrCase{Setters: rapid.IntRange(1, 4).Draw(t, "setters"), N: rapid.IntRange(0, 30).Draw(t, "n"), Ctx: rapid.Bool().Draw(t, "ctx"), Endless: rapid.Bool().Draw(t, "endless"), Procs: freeProcs(t), Iters: iters}
			for k := rapid.IntRange(1, 4).Draw(t, "nodes"); k > 0; k-- {
				cs.Nodes += rapid.SampledFrom([]string{"p", "l", "o", "s", "S"}).Draw(t, "node")
			}
			for k := rapid.IntRange(0, 4).Draw(t, "late"); k > 0; k-- {
				cs.Late = append(cs.Late, rapid.SampledFrom([]int{0, 1, 20, 100, 400, 3000}).Draw(t, "delay"))
			}
			return cs
		}
	}
	register(&Campaign{Prop: "L06", Name: "start-error", Exec: "starterr", Quick: 120, Thorough: 3000, Gen: gen(20)})
	register(&Campaign{Prop: "L06", Name: "start-error-race", Exec: "starterr", Race: true, Quick: 80, Thorough: 2000, Gen: gen(3)})
}
