package harness

import (
	"fmt"
	"sync"

	"pgregory.net/rapid"
)

// TreeCase is a tree of combinator calls: the functions of a call are further
// calls, possibly of another package. Leaves are numbered from left to right.
type TreeCase struct {
	Root  TreeNode `json:"root"`
	Check string   `json:"check"`           // property
	Stops []int    `json:"stops,omitempty"` // decisive leaves (modulo the number of leaves)
	Panic []int    `json:"panic,omitempty"` // panicking leaves
	Kind  int      `json:"kind,omitempty"`
	Waits [][2]int `json:"waits,omitempty"` // the first leaf waits until the second has started
	Block []int    `json:"block,omitempty"` // leaves that block until the call has returned, if right of all decisions
	Free  bool     `json:"free,omitempty"`
	Pert  []int    `json:"pert,omitempty"`
	Plan  Plan     `json:"plan"`
}

// TreeNode is a call, or a leaf (without Fn).
type TreeNode struct {
	Fam  string     `json:"fam,omitempty"`
	Fn   string     `json:"fn,omitempty"`
	Nb   int        `json:"nb,omitempty"` // range forms
	Kids []TreeNode `json:"kids,omitempty"`
}

type treeRun struct {
	c        *Ctx
	cs       *TreeCase
	s        *Sched
	mu       sync.Mutex
	n        int
	lo       map[*TreeNode]int // first leaf
	hi       map[*TreeNode]int
	stop     []bool
	boom     []bool
	block    []bool
	waits    [][]int
	started  []chan struct{}
	ran      []int // leaves: plain memory
	done     map[*TreeNode]*int
	returned chan struct{}
	depth    int
}

func (r *treeRun) fail(f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.c.Failf(f, a...)
}

func (r *treeRun) index(t *TreeNode, depth int) {
	r.depth = max(r.depth, depth)
	r.lo[t] = r.n
	r.done[t] = new(int)
	if t.Fn == "" {
		r.n++
	}
	for i := range t.Kids {
		r.index(&t.Kids[i], depth+1)
	}
	r.hi[t] = r.n
}

func (r *treeRun) decided(t *TreeNode) bool {
	for i := r.lo[t]; i < r.hi[t]; i++ {
		if r.stop[i] {
			return true
		}
	}
	return false
}

func (r *treeRun) leaf(t *TreeNode) {
	i := r.lo[t]
	if r.started != nil {
		close(r.started[i])
	}
	if r.s != nil {
		r.s.Point(i)
		for _, q := range r.waits[i] {
			<-r.started[q]
		}
		if r.block[i] {
			<-r.returned
		}
	} else if len(r.cs.Pert) > 0 {
		perturb(r.cs.Pert[i%len(r.cs.Pert)])
	}
	r.ran[i]++
	if r.s == nil && len(r.cs.Pert) > 0 {
		perturb(r.cs.Pert[(i+1)%len(r.cs.Pert)] >> 3)
	}
	if r.boom[i] {
		throw(r.cs.Kind, 1000+i)
	}
}

func (r *treeRun) eval(t *TreeNode) {
	if t.Fn == "" {
		r.leaf(t)
		*r.done[t]++
		return
	}
	k := len(t.Kids)
	what := fmt.Sprintf("%s.%s of leaves [%d,%d)", t.Fam, t.Fn, r.lo[t], r.hi[t])
	call := &fnCall{fam: t.Fam, fn: t.Fn, n: k, lo: 0, hi: k, nbatch: t.Nb, fail: r.fail}
	if r.cs.Free {
		call.codec = bitsCodec{}
	} else {
		call.codec = &tableCodec{}
	}
	boolOf := func(d bool) bool { return d != (t.Fn == "And" || t.Fn == "RangeAnd") }
	call.leaf = func(x iv) bool {
		d := false
		for i := x.lo; i < x.hi; i++ {
			r.eval(&t.Kids[i])
			if r.decided(&t.Kids[i]) {
				d = true
				break // like a user function that stops early
			}
		}
		return boolOf(d)
	}
	call.join = func(x, y iv, _ int) bool {
		if r.s != nil {
			r.s.Point(r.lo[t])
		}
		return false
	}
	res := call.invoke()
	first := k
	for i := range t.Kids {
		if r.decided(&t.Kids[i]) {
			first = i
			break
		}
	}
	if res.hasB && res.b != boolOf(first < k) {
		r.fail("%s returned %v, want %v", what, res.b, boolOf(first < k))
	}
	switch {
	case first == k:
		if res.hasIv && res.iv != call.total() {
			r.fail("%s: the result covers %v of %v", what, res.iv, call.total())
		}
		for i := range t.Kids {
			if n := *r.done[&t.Kids[i]]; n != 1 {
				r.fail("%s returned after function %d had terminated %d times", what, i, n)
			}
		}
	case res.hasIv && !(res.iv.lo <= first && first < res.iv.hi):
		r.fail("%s: the left-most decisive function is %d, the result is that of %v", what, first, res.iv)
	case res.hasIv && t.Nb == 0 && !isRange(t.Fn) && res.iv.hi != res.iv.lo+1:
		r.fail("%s: the left-most decisive function is %d, the result is that of %v", what, first, res.iv)
	}
	*r.done[t]++
}

func execTree(c *Ctx, cs *TreeCase) {
	r := &treeRun{c: c, cs: cs, lo: map[*TreeNode]int{}, hi: map[*TreeNode]int{}, done: map[*TreeNode]*int{}, returned: make(chan struct{})}
	r.index(&cs.Root, 0)
	n := r.n
	c.NonTrivial(n >= 3 && r.depth >= 2)
	c.Label("depth %d", r.depth)
	r.stop, r.boom, r.block, r.waits, r.ran = make([]bool, n), make([]bool, n), make([]bool, n), make([][]int, n), make([]int, n)
	if n == 0 {
		r.stop = nil
	}
	leftBoom, leftStop := n, n
	if n > 0 {
		for _, i := range cs.Stops {
			r.stop[i%n] = true
			leftStop = min(leftStop, i%n)
		}
		for _, i := range cs.Panic {
			r.boom[i%n] = true
			leftBoom = min(leftBoom, i%n)
		}
		for _, i := range cs.Block {
			r.block[i%n] = leftStop < i%n
		}
		for _, w := range cs.Waits {
			r.waits[w[0]%n] = append(r.waits[w[0]%n], w[1]%n)
		}
	}
	body := func() {
		defer close(r.returned)
		r.eval(&cs.Root)
		if len(cs.Stops)+len(cs.Panic) == 0 {
			for i, k := range r.ran {
				if k != 1 {
					r.fail("leaf %d was executed %d times", i, k)
				}
			}
		}
	}
	var pv interface{}
	var bad bool
	if cs.Free {
		pv, bad = plainRun(max(2, cs.Plan.Procs), body)
	} else {
		r.started = make([]chan struct{}, n)
		for i := range r.started {
			r.started[i] = make(chan struct{})
		}
		r.s = newSched(cs.Plan)
		pv, bad = r.s.Run(body)
	}
	if lk := leaked(); lk != "" {
		c.Failf("goroutines left blocked for ever:\n%s", lk)
		return
	}
	switch {
	case leftBoom < n && !bad:
		c.Failf("leaf %d panicked, the call returned normally", leftBoom)
	case leftBoom < n:
		checkPanic(c, "call tree", pv, cs.Kind, 1000+leftBoom)
	case bad:
		c.Failf("unexpected panic: %v", clip(fmt.Sprint(pv), 500))
	}
}

func genTree(t *rapid.T, fams []string, lists bool, depth int, budget *int) TreeNode {
	if depth == 0 || *budget <= 0 || rapid.IntRange(0, 4).Draw(t, "leaf") == 0 {
		*budget--
		return TreeNode{}
	}
	x := TreeNode{Fam: genFam(t, fams...)}
	rng := !lists && rapid.IntRange(0, 2).Draw(t, "isrange") == 0
	x.Fn = genFn(t, x.Fam, rng)
	k := rapid.IntRange(max(1, minN(x.Fn)), 5).Draw(t, "kids")
	if rng {
		x.Nb = rapid.IntRange(0, 6).Draw(t, "nb")
	}
	for i := 0; i < k; i++ {
		x.Kids = append(x.Kids, genTree(t, fams, lists, depth-1, budget))
	}
	return x
}

// genDeep draws a deep chain of calls.
func genDeep(t *rapid.T, fams []string, lists bool) (x TreeNode) {
	depth := rapid.IntRange(8, 60).Draw(t, "chain")
	for i := 0; i < depth; i++ {
		y := TreeNode{Fam: genFam(t, fams...)}
		rng := !lists && rapid.IntRange(0, 2).Draw(t, "isrange") == 0
		y.Fn = genFn(t, y.Fam, rng)
		y.Kids = make([]TreeNode, rapid.IntRange(1, 3).Draw(t, "kids"))
		y.Kids[rapid.IntRange(0, len(y.Kids)-1).Draw(t, "child")] = x
		if rng {
			y.Nb = rapid.IntRange(0, 4).Draw(t, "nb")
		}
		x = y
	}
	return x
}

func (t *TreeNode) leaves() int {
	if t.Fn == "" {
		return 1
	}
	n := 0
	for i := range t.Kids {
		n += t.Kids[i].leaves()
	}
	return n
}

func init() {
	executor("tree", execTree)
	gen := func(check string, free bool) func(t *rapid.T) any {
		return func(t *rapid.T) any {
			fams := []string{"parallel", "parallel", "sequential", "speculative"}
			switch check {
			case "P04":
				fams = []string{"parallel", "speculative"}
			case "P06", "P07":
				fams = []string{"speculative"}
			}
			cs := &TreeCase{Check: check, Free: free}
			budget := 30
			cs.Root = genTree(t, fams, check == "P04", rapid.IntRange(2, 4).Draw(t, "depth"), &budget)
			if rapid.IntRange(0, 19).Draw(t, "deep") == 0 {
				cs.Root = genDeep(t, fams, check == "P04")
			}
			if cs.Root.Fn == "" {
				cs.Root = TreeNode{Fam: fams[0], Fn: "Do", Kids: []TreeNode{{}, {}}}
			}
			n := cs.Root.leaves()
			pick := func(name string) []int {
				return rapid.SliceOfN(rapid.IntRange(0, max(0, n-1)), 1, 4).Draw(t, name)
			}
			switch check {
			case "P04":
				if rapid.Bool().Draw(t, "barrier") {
					for i := 0; i < n; i++ {
						cs.Waits = append(cs.Waits, [2]int{i, (i + 1) % n}, [2]int{i, (i + n/2) % n})
					}
				} else {
					for i := rapid.IntRange(1, 8).Draw(t, "nwaits"); i > 0; i-- {
						cs.Waits = append(cs.Waits, [2]int{rapid.IntRange(0, n-1).Draw(t, "p"), rapid.IntRange(0, n-1).Draw(t, "q")})
					}
				}
			case "P05":
				cs.Panic, cs.Kind = pick("panic"), rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
			case "P06":
				cs.Stops = pick("stops")
			case "P07":
				cs.Stops = pick("stops")
				for i := 0; i < n; i++ {
					if rapid.IntRange(0, 2).Draw(t, "blocks") > 0 {
						cs.Block = append(cs.Block, i)
					}
				}
			}
			if free {
				cs.Pert = genPert(t)
				cs.Plan.Procs = freeProcs(t)
			} else {
				cs.Plan = genPlan(t, 20)
			}
			return cs
		}
	}
	for _, p := range []string{"P01", "P04", "P05", "P06", "P07"} {
		register(&Campaign{Prop: p, Name: "tree-gated", Exec: "tree", Quick: 2000, Thorough: 60000, Gen: gen(p, false)})
	}
	for _, p := range []string{"P01", "P05", "P06"} {
		register(&Campaign{Prop: p, Name: "tree-free", Exec: "tree", Race: true, Quick: 600, Thorough: 20000, Gen: gen(p, true)})
	}
}
