package harness

import (
	"errors"
	"fmt"
	gosort "sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/pipeline"
	psort "github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/speculative"
	psync "github.com/exascience/pargo/sync"
	"pgregory.net/rapid"
)

// Job is one use of the library. Kids are further jobs that run inside its
// callbacks.
type Job struct {
	Kind string `json:"kind"` // call, panic, sort, map, pipe, piperr, shared
	Fam  string `json:"fam,omitempty"`
	Fn   string `json:"fn,omitempty"`
	N    int    `json:"n"`
	A    int    `json:"a,omitempty"`
	Kids []Job  `json:"kids,omitempty"`
}

// TogetherCase runs independent jobs at the same time.
type TogetherCase struct {
	Threads [][]Job `json:"threads"`
	Splits  int     `json:"splits"` // of the shared map
	Procs   int     `json:"procs"`
	Iters   int     `json:"iters"`
	Pert    []int   `json:"pert,omitempty"`
	// Meet makes the first callbacks of the first jobs of all threads wait for
	// each other, so that all these jobs are in progress at the same time.
	Meet bool `json:"meet,omitempty"`
}

type togetherRun struct {
	mu     sync.Mutex
	msg    string
	cs     *TogetherCase
	shared *psync.Map
	incs   [sharedKeys]atomic.Int64
	iter   int
	meet   map[*Job]*sync.Once
	all    sync.WaitGroup
}

// arrive is called when a job that is to meet others has got to its first
// callback, or has ended without one.
func (r *togetherRun) arrive(j *Job, wait bool) {
	if once := r.meet[j]; once != nil {
		once.Do(func() {
			r.all.Done()
			if wait {
				r.all.Wait()
			}
		})
	}
}

const sharedKeys = 5

type jobKey int

func (k jobKey) Hash() uint64 { return uint64(k) * 0x9E3779B97F4A7C15 }

func (r *togetherRun) fail(j *Job, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.msg == "" {
		r.msg = fmt.Sprintf("job %s %s.%s (n=%d): ", j.Kind, j.Fam, j.Fn, j.N) + fmt.Sprintf(f, a...)
	}
}

// sub forwards what a check reported.
func (r *togetherRun) sub(j *Job, check func(c *Ctx)) {
	c := &Ctx{}
	check(c)
	if c.Failed() {
		r.fail(j, "%s", c.msg)
	}
}

func (r *togetherRun) kid(j *Job, i int) {
	r.arrive(j, true)
	if n := len(r.cs.Pert); n > 0 {
		perturb(r.cs.Pert[int(mix(uint64(i)*131+uint64(j.N)*7+uint64(r.iter))%uint64(n))])
	}
	if i >= 0 && i < len(j.Kids) {
		r.run(&j.Kids[i])
	}
}

func (r *togetherRun) run(j *Job) {
	switch j.Kind {
	case "call", "panic":
		r.call(j)
	case "sort":
		r.sort(j)
	case "map":
		r.ownMap(j)
	case "shared":
		for i := 0; i < j.N; i++ {
			k := (j.A + i) % sharedKeys
			r.incs[k].Add(1)
			r.shared.Modify(jobKey(k), func(v interface{}, ok bool) (interface{}, bool) {
				if !ok {
					return 1, true
				}
				return v.(int) + 1, true
			})
		}
		r.kid(j, 0)
	case "pipe", "piperr":
		r.pipe(j)
	}
}

func (r *togetherRun) call(j *Job) {
	call := &fnCall{fam: j.Fam, fn: j.Fn, n: j.N, lo: 0, hi: j.N, nbatch: j.N, codec: bitsCodec{}}
	call.fail = func(f string, a ...interface{}) { r.fail(j, f, a...) }
	neutral := j.Fn == "And" || j.Fn == "RangeAnd"
	ran := make([]int, j.N)
	call.leaf = func(x iv) bool {
		for i := x.lo; i < x.hi; i++ {
			r.kid(j, i)
			ran[i]++
			if j.Kind == "panic" && i == j.A%j.N {
				throw(j.A, 1000+i)
			}
		}
		return neutral
	}
	call.join = func(x, y iv, _ int) bool { return false }
	if j.Kind == "panic" {
		defer func() {
			p := recover()
			if p == nil {
				r.fail(j, "function %d panicked, the call returned normally", j.A%j.N)
				return
			}
			r.sub(j, func(c *Ctx) { checkPanic(c, j.Fam+"."+j.Fn, p, j.A, 1000+j.A%j.N) })
		}()
		call.invoke()
		return
	}
	res := call.invoke()
	if res.hasB && res.b != neutral {
		r.fail(j, "the result is %v", res.b)
	}
	if res.hasIv && res.iv != call.total() {
		r.fail(j, "the result covers %v of %v", res.iv, call.total())
	}
	for i, n := range ran {
		if n != 1 {
			r.fail(j, "function or element %d was handled %d times", i, n)
		}
	}
}

// hookSlice runs kids of a job in SequentialSort.
type hookSlice struct {
	boxSlice
	r *togetherRun
	j *Job
}

func (s hookSlice) SequentialSort(i, k int) {
	s.boxSlice.SequentialSort(i, k)
	if len(s.boxSlice) > 0 {
		s.r.kid(s.j, i*(len(s.j.Kids)+1)/len(s.boxSlice))
	}
}
func (s hookSlice) NewTemp() psort.StableSorter {
	return hookSlice{make(boxSlice, len(s.boxSlice)), s.r, s.j}
}
func (s hookSlice) Assign(source psort.StableSorter) func(i, j, n int) {
	return s.boxSlice.Assign(source.(hookSlice).boxSlice)
}

func (r *togetherRun) sort(j *Job) {
	sc := &SortCase{N: j.N, Pat: j.A % 5, K: 1 + j.A%997, Seed: j.A}
	if j.Fn == "Ints" {
		d := sc.keys()
		want := append([]int(nil), d...)
		gosort.Ints(want)
		if j.A%2 == 0 {
			psort.Sort(psort.IntSlice(d))
		} else {
			psort.StableSort(psort.IntSlice(d))
		}
		for i := range d {
			if d[i] != want[i] {
				r.fail(j, "element %d of %d is %d, want %d", i, len(d), d[i], want[i])
				break
			}
		}
		r.kid(j, 0)
		if !psort.IntsAreSorted(d) {
			r.fail(j, "IntsAreSorted of a sorted slice is false")
		}
		return
	}
	ks := sc.keys()
	d := hookSlice{boxesOf(ks), r, j}
	if j.Fn == "StableSort" {
		psort.StableSort(d)
	} else {
		psort.Sort(d)
	}
	r.sub(j, func(c *Ctx) { checkBoxes(c, j.Fn, ks, d.boxSlice, j.Fn == "StableSort") })
}

func (r *togetherRun) ownMap(j *Job) {
	splits := j.pick(1, 7)
	if splits == 6 {
		splits = []int{64, 1100, 5000}[j.pick(14, 3)] // as many locks
	}
	m := psync.NewMap(splits)
	keys := 1 + j.pick(2, 5)
	workers := 1 + j.pick(3, 4)
	parallel.Range(0, workers, workers, func(low, high int) {
		for w := low; w < high; w++ {
			for i := 0; i < j.N; i++ {
				m.Modify(jobKey((w+i)%keys), func(v interface{}, ok bool) (interface{}, bool) {
					if w == 0 {
						r.kid(j, i) // under the lock of a split
					}
					if !ok {
						return 1, true
					}
					return v.(int) + 1, true
				})
			}
		}
	})
	sum := func(s map[interface{}]interface{}) (n int) {
		for _, v := range s {
			n += v.(int)
		}
		return
	}
	if n := m.ParallelReduceIntSum(sum); n != workers*j.N {
		r.fail(j, "%d workers incremented %d times each, the sum is %d", workers, j.N, n)
	}
	if n, _ := m.SpeculativeReduceInt(func(s map[interface{}]interface{}) (int, bool) { return sum(s), false }, func(x, y int) (int, bool) { return x + y, false }); n != workers*j.N {
		r.fail(j, "speculative: %d workers incremented %d times each, the sum is %d", workers, j.N, n)
	}
	if speculative.Or(func() bool { _, ok := m.Load(jobKey(keys)); return ok }, func() bool { return false }) {
		r.fail(j, "a key is there that was never stored")
	}
}

// pipeSource returns a source of the numbers 0..n-1.
func pipeSource(kind, n int) interface{} {
	switch kind {
	case 1:
		c := make(chan int, 3)
		go func() {
			defer close(c)
			for i := 0; i < n; i++ {
				c <- i
			}
		}()
		return c
	case 2, 3:
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintln(&b, i)
		}
		if kind == 2 {
			return pipeline.NewScanner(strings.NewReader(b.String()))
		}
		return pipeline.NewBytesScanner(strings.NewReader(b.String()))
	case 4:
		i := 0
		return pipeline.NewFunc(n, func(size int) (interface{}, int, error) {
			var d []int
			for ; len(d) < size && i < n; i++ {
				d = append(d, i)
			}
			return d, len(d), nil
		})
	default:
		src := make([]int, n)
		for i := range src {
			src[i] = i
		}
		return src
	}
}

// numbers returns a copy of a batch of such a source.
func numbers(data interface{}) (d []int) {
	num := func(s string) int {
		i, err := strconv.Atoi(s)
		if err != nil {
			return -1
		}
		return i
	}
	switch data := data.(type) {
	case []int:
		d = append(d, data...)
	case []string:
		for _, s := range data {
			d = append(d, num(s))
		}
	case [][]byte:
		for _, s := range data {
			d = append(d, num(string(s)))
		}
	}
	return
}

func (r *togetherRun) pipe(j *Job) {
	p := &pipeline.Pipeline{}
	kind := j.pick(4, 6)
	if j.Kind == "piperr" && kind == 1 {
		kind = 0 // nobody would drain the channel
	}
	p.Source(pipeSource(kind, j.N))
	p.NofBatches(1 + j.pick(5, 11))
	p.SetVariableBatchSize(1+j.pick(6, 3), 1+j.pick(7, 5))
	var got []int
	all := []int{}
	count, every, some := -1, false, true
	err := errors.New("pipe error")
	won := false
	twice := pipeline.Receive(func(s int, data interface{}) interface{} {
		r.kid(j, s)
		d := numbers(data)
		for i := range d {
			d[i] = 2*d[i] + 1
		}
		return d
	})
	switch j.pick(8, 3) {
	case 0:
		p.Add(pipeline.Par(twice))
	case 1:
		p.Add(pipeline.LimitedPar(2, twice))
	default:
		p.Add(pipeline.Seq(twice))
	}
	target := j.pick(9, (j.N + 3))
	p.Add(pipeline.Par(pipeline.Every(&every, false, func(data interface{}) bool {
		for _, x := range data.([]int) {
			if x%2 == 0 {
				return false
			}
		}
		return true
	}), pipeline.Some(&some, false, func(data interface{}) bool {
		for _, x := range data.([]int) {
			if x == 2*target+1 {
				return true
			}
		}
		return false
	}), pipeline.Count(&count)))
	skip, limit := 0, j.N
	if j.pick(10, 4) == 3 {
		skip, limit = j.pick(11, 3), j.pick(12, 17)
		p.Add(pipeline.Skip(skip), pipeline.Limit(limit, false))
	}
	lo, hi := min(skip, j.N), min(skip+limit, j.N)
	collect := pipeline.Receive(func(s int, data interface{}) interface{} {
		if data != nil {
			got = append(got, data.([]int)...)
		}
		if j.Kind == "piperr" && s == 0 {
			won = p.SetErr(err)
		}
		return data
	})
	if j.pick(13, 2) == 0 {
		p.Add(pipeline.Ord(collect, pipeline.Slice(&all)))
	} else {
		p.Add(pipeline.StrictOrd(collect), pipeline.Par(pipeline.Slice(&all)))
	}
	p.Run()
	if j.Kind == "piperr" {
		// Receivers may still be running.
		if e := p.Err(); j.N > 0 && e != err {
			r.fail(j, "Err() = %v, want %v", e, err)
		}
		return
	}
	if e := p.Err(); e != nil || won {
		r.fail(j, "Err() = %v", e)
	}
	if len(got) != hi-lo || len(all) != hi-lo || count != j.N || !every || some != (target < j.N) {
		r.fail(j, "elements %d to %d of %d: %d arrived, %d were collected, count %d, every %v, some %v", lo, hi, j.N, len(got), len(all), count, every, some)
		return
	}
	sum := 0
	for i, x := range got {
		if x != 2*(lo+i)+1 {
			r.fail(j, "element %d is %d, want %d", i, x, 2*(lo+i)+1)
			break
		}
		sum += x
	}
	for _, x := range all {
		sum -= x
	}
	if sum != 0 {
		r.fail(j, "Slice collected other elements: %v, want %v", all, got)
	}
}

// pick chooses one of n alternatives.
func (j *Job) pick(salt, n int) int {
	return int(mix(uint64(j.A)*1031+uint64(salt)) % uint64(n))
}

func (j *Job) size() int {
	n := 1
	for i := range j.Kids {
		n += j.Kids[i].size()
	}
	return n
}

func execTogether(c *Ctx, cs *TogetherCase) {
	for it := 0; it < max(1, cs.Iters) && !c.Failed(); it++ {
		r := &togetherRun{cs: cs, shared: psync.NewMap(cs.Splits), iter: it}
		if cs.Meet {
			r.meet = map[*Job]*sync.Once{}
			for _, js := range cs.Threads {
				if len(js) > 0 {
					r.meet[&js[0]] = &sync.Once{}
					r.all.Add(1)
				}
			}
		}
		pv, bad := plainRun(cs.Procs, func() {
			var wg sync.WaitGroup
			for _, js := range cs.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range js {
						r.run(&js[i])
						r.arrive(&js[i], false)
					}
				}()
			}
			wg.Wait()
		})
		if bad {
			c.Failf("panic: %v", pv)
			return
		}
		// Before anything shared is read: failed pipelines may still run kids.
		if s := leaked(); s != "" {
			c.Failf("goroutines left blocked for ever:\n%s", s)
			return
		}
		for k := 0; k < sharedKeys; k++ {
			want := int(r.incs[k].Load())
			v, ok := r.shared.Load(jobKey(k))
			if got, _ := v.(int); got != want || ok != (want > 0) {
				c.Failf("shared map: key %d was incremented %d times, its value is %v (present: %v)", k, want, v, ok)
			}
		}
		r.mu.Lock()
		if r.msg != "" {
			c.Failf("%s", r.msg)
		}
		r.mu.Unlock()
	}
	n, kids := 0, 0
	for _, js := range cs.Threads {
		for i := range js {
			n++
			kids += js[i].size() - 1
		}
	}
	c.Label("%d threads", len(cs.Threads))
	c.NonTrivial(len(cs.Threads) > 1 || kids > 0)
}

func genJob(t *rapid.T, like *Job, depth int, budget *int) Job {
	*budget--
	j := Job{Kind: rapid.SampledFrom([]string{"call", "call", "call", "panic", "sort", "map", "pipe", "pipe", "piperr", "shared"}).Draw(t, "kind"), A: rapid.IntRange(0, 5000).Draw(t, "a")}
	if like != nil && rapid.Bool().Draw(t, "like") {
		j = Job{Kind: like.Kind, A: like.A, Fam: like.Fam, Fn: like.Fn, N: like.N}
	} else {
		switch j.Kind {
		case "call", "panic":
			j.Fam = genFam(t, "parallel", "parallel", "speculative", "sequential")
			j.Fn = genFn(t, j.Fam, rapid.Bool().Draw(t, "isrange"))
			j.N = rapid.IntRange(1, rapid.SampledFrom([]int{6, 6, 40}).Draw(t, "maxn")).Draw(t, "n")
		case "sort":
			j.Fn = rapid.SampledFrom([]string{"Sort", "StableSort", "Ints"}).Draw(t, "fn")
			j.N = rapid.SampledFrom([]int{20, 1300, 3000, 14000}).Draw(t, "n")
		case "map", "shared":
			j.N = rapid.IntRange(1, 20).Draw(t, "n")
		default:
			j.N = rapid.IntRange(0, 40).Draw(t, "n")
		}
	}
	if depth > 0 {
		for k := rapid.IntRange(0, 2).Draw(t, "kids"); k > 0 && *budget > 0; k-- {
			j.Kids = append(j.Kids, genJob(t, &j, depth-1, budget))
		}
	}
	return j
}

func genTogether(race bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		cs := &TogetherCase{Procs: freeProcs(t), Splits: rapid.IntRange(0, 6).Draw(t, "splits"), Pert: genPert(t), Iters: 3}
		if race {
			cs.Iters = 1
		}
		for k := rapid.IntRange(1, 6).Draw(t, "threads"); k > 0; k-- {
			var js []Job
			budget := 6
			if len(cs.Threads) > 0 && rapid.IntRange(0, 3).Draw(t, "twin") == 0 {
				js = cs.Threads[0]
			} else {
				for i := rapid.IntRange(1, 3).Draw(t, "jobs"); i > 0; i-- {
					js = append(js, genJob(t, nil, 3, &budget))
				}
			}
			cs.Threads = append(cs.Threads, js)
		}
		return cs
	}
}

// genCrowded draws many similar jobs that are in progress at the same time,
// with further jobs inside them.
func genCrowded(race bool) func(t *rapid.T) any {
	return func(t *rapid.T) any {
		cs := &TogetherCase{Procs: freeProcs(t), Splits: rapid.IntRange(0, 6).Draw(t, "splits"), Iters: 1, Meet: rapid.IntRange(0, 4).Draw(t, "meet") > 0}
		sizes := []int{5, 9, 12, 17, 20, 33, 40}
		if !race {
			sizes = append(sizes, 70, 140)
		}
		n := rapid.SampledFrom(sizes).Draw(t, "threads")
		var protos []Job
		for k := rapid.IntRange(1, 3).Draw(t, "protos"); k > 0; k-- {
			budget := 3
			j := genJob(t, nil, 2, &budget)
			if len(j.Kids) == 0 {
				j.Kids = []Job{genJob(t, &j, 0, &budget)}
			}
			j.slim()
			protos = append(protos, j)
		}
		for i := 0; i < n; i++ {
			cs.Threads = append(cs.Threads, []Job{protos[i%len(protos)]})
		}
		return cs
	}
}

// slim bounds the size of a job that will be there many times.
func (j *Job) slim() {
	lim := 6
	if j.Kind == "sort" {
		lim = 1300
	}
	j.N = min(j.N, lim)
	for i := range j.Kids {
		j.Kids[i].slim()
	}
}

func init() {
	executor("together", execTogether)
	register(&Campaign{Prop: "C01", Name: "together", Exec: "together", Quick: 600, Thorough: 15000, Gen: genTogether(false)})
	register(&Campaign{Prop: "C01", Name: "together-race", Exec: "together", Race: true, Quick: 300, Thorough: 6000, Gen: genTogether(true)})
	register(&Campaign{Prop: "C01", Name: "crowded", Exec: "together", Quick: 400, Thorough: 8000, Gen: genCrowded(false)})
	register(&Campaign{Prop: "C01", Name: "crowded-race", Exec: "together", Race: true, Quick: 100, Thorough: 2000, Gen: genCrowded(true)})
}
