package harness

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
)

// iv is a half-open interval of positions. Every function (or batch) of a
// combinator call stands for an interval; a join of two results must be a join
// of two adjacent intervals, left before right.
type iv struct{ lo, hi int }

// codec turns intervals into the values that flow through the combinators.
type codec interface {
	enc(x iv) int
	dec(x int) (iv, bool)
}

// tableCodec hands out opaque tickets; nothing can be forged or confused.
type tableCodec struct {
	mu sync.Mutex
	m  []iv
}

func (t *tableCodec) enc(x iv) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.m = append(t.m, x)
	return 1000 + len(t.m)
}

func (t *tableCodec) dec(x int) (iv, bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if x -= 1001; x < 0 || x >= len(t.m) {
		return iv{}, false
	}
	return t.m[x], true
}

// bitsCodec needs no shared state (for race runs); positions are small.
type bitsCodec struct{}

func (bitsCodec) enc(x iv) int { return (x.lo+1)<<20 | (x.hi + 1) }
func (bitsCodec) dec(x int) (iv, bool) {
	lo, hi := x>>20-1, x&(1<<20-1)-1
	return iv{lo, hi}, x > 0 && lo >= 0 && hi >= lo
}

// fnCall is one combinator invocation.
type fnCall struct {
	fam, fn        string
	n              int // list forms: number of functions
	lo, hi, nbatch int // range forms
	codec          codec
	leaf           func(x iv) bool                // user function; the result is its boolean
	join           func(x, y iv, result int) bool // user join; result is the ticket it will return
	fail           func(format string, args ...interface{})
	wipe           func() // overwrites the list of functions
	oddities
}

// fnResult is what the combinator returned.
type fnResult struct {
	hasIv  bool
	iv     iv
	ticket int
	hasB   bool
	b      bool
}

func isRange(fn string) bool { return strings.HasPrefix(fn, "Range") }

func valueless(fn string) bool { return fn == "Do" || fn == "Range" }

// Hash-like telescoping weights: the combination of all intervals of a
// partition depends on the end points only, any other multiset of intervals
// gives (almost surely) something else.
func gInt(x int) int       { return int(mix(uint64(x))) }
func gOdd(x int) int       { return int(mix(uint64(x)+77) | 1) }
func gFloat(x int) float64 { return float64(int64(mix(uint64(x)+5)>>24) - 1<<39) }
func gExp(x int) float64   { return math.Ldexp(1, int(mix(uint64(x)+9)%241)-120) }
func invOdd(x int) int {
	r := x
	for i := 0; i < 6; i++ {
		r *= 2 - x*r
	}
	return r
}
func ivStr(x iv) string      { return "<" + strconv.Itoa(x.lo) + ":" + strconv.Itoa(x.hi) + ">" }
func sumInt(x iv) int        { return gInt(x.hi) - gInt(x.lo) }
func prodInt(x iv) int       { return gOdd(x.hi) * invOdd(gOdd(x.lo)) }
func sumFloat(x iv) float64  { return gFloat(x.hi) - gFloat(x.lo) }
func prodFloat(x iv) float64 { return gExp(x.hi) / gExp(x.lo) }

func (c *fnCall) total() iv {
	if isRange(c.fn) {
		return iv{c.lo, c.hi}
	}
	return iv{0, c.n}
}

func (c *fnCall) dec(x int) (iv, bool) {
	if r, ok := c.isZero(x); ok {
		return r, true
	}
	r, ok := c.codec.dec(x)
	if !ok {
		c.fail("%s.%s combined or returned a value that no function returned: %d", c.fam, c.fn, x)
	}
	return r, ok
}

func (c *fnCall) doLeaf(x iv) (int, bool) {
	b := c.leaf(x)
	return c.enc(x), b
}

func (c *fnCall) doJoin(x, y int) (int, bool) {
	a, ok1 := c.dec(x)
	b, ok2 := c.dec(y)
	if !ok1 || !ok2 {
		return c.codec.enc(iv{0, 0}), false
	}
	if a.hi != b.lo {
		c.fail("%s.%s: join combines %v and %v, which are not adjacent in this order", c.fam, c.fn, a, b)
	}
	r := iv{a.lo, b.hi}
	t := c.enc(r)
	if c.join != nil {
		s := c.join(a, b, t)
		return t, s
	}
	return t, false
}

func (c *fnCall) ret(x int, b, hasB bool) fnResult {
	r, _ := c.dec(x)
	return fnResult{hasIv: true, iv: r, ticket: x, hasB: hasB, b: b}
}

func (c *fnCall) eq(got, want interface{}) fnResult {
	if g, ok := got.(float64); ok && math.IsNaN(g) && math.IsNaN(want.(float64)) {
		return fnResult{}
	}
	if got != want {
		c.fail("%s.%s returned %v, want %v", c.fam, c.fn, got, want)
	}
	return fnResult{}
}

func atoi(s string) int {
	if s == "" {
		return 0
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

func ifInt(x interface{}) int {
	switch n := x.(type) {
	case nil:
		return 0
	case int:
		return n
	}
	return -1
}

type valueAPI struct {
	Reduce             func(func(x, y interface{}) interface{}, func() interface{}, ...func() interface{}) interface{}
	ReduceFloat64      func(func(x, y float64) float64, func() float64, ...func() float64) float64
	ReduceInt          func(func(x, y int) int, func() int, ...func() int) int
	ReduceString       func(func(x, y string) string, func() string, ...func() string) string
	ReduceFloat64Sum   func(...func() float64) float64
	ReduceFloat64Prod  func(...func() float64) float64
	ReduceIntSum       func(...func() int) int
	ReduceIntProd      func(...func() int) int
	ReduceStringSum    func(...func() string) string
	Do                 func(...func())
	And, Or            func(...func() bool) bool
	Range              func(int, int, int, func(int, int))
	RangeAnd, RangeOr  func(int, int, int, func(int, int) bool) bool
	RangeReduce        func(int, int, int, func(int, int) interface{}, func(x, y interface{}) interface{}) interface{}
	RangeReduceInt     func(int, int, int, func(int, int) int, func(x, y int) int) int
	RangeReduceFloat64 func(int, int, int, func(int, int) float64, func(x, y float64) float64) float64
	RangeReduceString  func(int, int, int, func(int, int) string, func(x, y string) string) string
	RangeReduceIntSum  func(int, int, int, func(int, int) int) int
	RangeReduceIntProd func(int, int, int, func(int, int) int) int
	RangeReduceFltSum  func(int, int, int, func(int, int) float64) float64
	RangeReduceFltProd func(int, int, int, func(int, int) float64) float64
	RangeReduceStrSum  func(int, int, int, func(int, int) string) string
}

var valueAPIs = map[string]*valueAPI{
	"parallel": {
		parallel.Reduce, parallel.ReduceFloat64, parallel.ReduceInt, parallel.ReduceString,
		parallel.ReduceFloat64Sum, parallel.ReduceFloat64Product, parallel.ReduceIntSum, parallel.ReduceIntProduct, parallel.ReduceStringSum,
		parallel.Do, parallel.And, parallel.Or, parallel.Range, parallel.RangeAnd, parallel.RangeOr,
		parallel.RangeReduce, parallel.RangeReduceInt, parallel.RangeReduceFloat64, parallel.RangeReduceString,
		parallel.RangeReduceIntSum, parallel.RangeReduceIntProduct, parallel.RangeReduceFloat64Sum, parallel.RangeReduceFloat64Product, parallel.RangeReduceStringSum,
	},
	"sequential": {
		sequential.Reduce, sequential.ReduceFloat64, sequential.ReduceInt, sequential.ReduceString,
		sequential.ReduceFloat64Sum, sequential.ReduceFloat64Product, sequential.ReduceIntSum, sequential.ReduceIntProduct, sequential.ReduceStringSum,
		sequential.Do, sequential.And, sequential.Or, sequential.Range, sequential.RangeAnd, sequential.RangeOr,
		sequential.RangeReduce, sequential.RangeReduceInt, sequential.RangeReduceFloat64, sequential.RangeReduceString,
		sequential.RangeReduceIntSum, sequential.RangeReduceIntProduct, sequential.RangeReduceFloat64Sum, sequential.RangeReduceFloat64Product, sequential.RangeReduceStringSum,
	},
}

var listFns = []string{"Reduce", "ReduceFloat64", "ReduceInt", "ReduceString", "ReduceFloat64Sum", "ReduceFloat64Product", "ReduceIntSum", "ReduceIntProduct", "ReduceStringSum", "Do", "And", "Or"}
var rangeFns = []string{"Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceInt", "RangeReduceFloat64", "RangeReduceString", "RangeReduceIntSum", "RangeReduceIntProduct", "RangeReduceFloat64Sum", "RangeReduceFloat64Product", "RangeReduceStringSum"}
var specListFns = []string{"Reduce", "ReduceFloat64", "ReduceInt", "ReduceString", "Do", "And", "Or"}
var specRangeFns = []string{"Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceInt", "RangeReduceFloat64", "RangeReduceString"}

func mkFns[T any](c *fnCall, n int, f func(x iv) T) []func() T {
	fs := make([]func() T, n)
	c.wipe = func() {
		for i := range fs {
			fs[i] = func() T { c.stale(i); return f(iv{i, i + 1}) }
		}
	}
	for i := range fs {
		x := iv{i, i + 1}
		fs[i] = func() T { return f(x) }
	}
	return fs
}

// stale reports that the list was read after the call had returned.
func (c *fnCall) stale(i int) {
	c.fail("%s.%s read function %d from the caller's list after it had returned, and ran what was there then", c.fam, c.fn, i)
}

// invoke performs the call. It panics if the combinator does. The list of
// functions belongs to the caller again when a call has returned.
func (c *fnCall) invoke() fnResult {
	if c.fam == "speculative" {
		defer func() {
			if c.wipe != nil {
				c.wipe()
			}
		}()
		return c.invokeSpec()
	}
	r := c.invokeValue()
	if c.wipe != nil {
		c.wipe()
	}
	return r
}

func (c *fnCall) invokeValue() fnResult {
	a := valueAPIs[c.fam]
	lo, hi, nb := c.lo, c.hi, c.nbatch
	leafI := func(x iv) int { t, _ := c.doLeaf(x); return t }
	joinI := func(x, y int) int { t, _ := c.doJoin(x, y); return t }
	leafA := func(x iv) interface{} { return anyOf(leafI(x)) }
	joinA := func(x, y interface{}) interface{} { return anyOf(joinI(ifInt(x), ifInt(y))) }
	leafF := func(x iv) float64 { return float64(leafI(x)) }
	joinF := func(x, y float64) float64 { return float64(joinI(int(x), int(y))) }
	leafS := func(x iv) string { return strOf(leafI(x)) }
	joinS := func(x, y string) string { return strOf(joinI(atoi(x), atoi(y))) }
	unit := func(x iv) { c.leaf(x) }
	r2 := func(f func(iv)) func(int, int) { return func(l, h int) { f(iv{l, h}) } }
	weigh := func(x iv) iv { c.leaf(x); return x }
	switch c.fn {
	case "Reduce":
		fs := mkFns(c, c.n, leafA)
		return c.ret(ifInt(a.Reduce(joinA, fs[0], fs[1:]...)), false, false)
	case "ReduceFloat64":
		fs := mkFns(c, c.n, leafF)
		return c.ret(int(a.ReduceFloat64(joinF, fs[0], fs[1:]...)), false, false)
	case "ReduceInt":
		fs := mkFns(c, c.n, leafI)
		return c.ret(a.ReduceInt(joinI, fs[0], fs[1:]...), false, false)
	case "ReduceString":
		fs := mkFns(c, c.n, leafS)
		return c.ret(atoi(a.ReduceString(joinS, fs[0], fs[1:]...)), false, false)
	case "ReduceFloat64Sum":
		return c.eq(a.ReduceFloat64Sum(mkFns(c, c.n, func(x iv) float64 { return c.sumF(weigh(x)) })...), c.totSumF())
	case "ReduceFloat64Product":
		return c.eq(a.ReduceFloat64Prod(mkFns(c, c.n, func(x iv) float64 { return c.prodF(weigh(x)) })...), c.totProdF())
	case "ReduceIntSum":
		return c.eq(a.ReduceIntSum(mkFns(c, c.n, func(x iv) int { return c.sumI(weigh(x)) })...), c.totSumI())
	case "ReduceIntProduct":
		return c.eq(a.ReduceIntProd(mkFns(c, c.n, func(x iv) int { return c.prodI(weigh(x)) })...), c.totProdI())
	case "ReduceStringSum":
		return c.strSum(a.ReduceStringSum(mkFns(c, c.n, func(x iv) string { return c.str(weigh(x)) })...))
	case "Do":
		fs := make([]func(), c.n)
		for i := range fs {
			x := iv{i, i + 1}
			fs[i] = func() { unit(x) }
		}
		c.wipe = func() {
			for i := range fs {
				fs[i] = func() { c.stale(i); unit(iv{i, i + 1}) }
			}
		}
		a.Do(fs...)
		return fnResult{}
	case "And":
		return fnResult{hasB: true, b: a.And(mkFns(c, c.n, c.leaf)...)}
	case "Or":
		return fnResult{hasB: true, b: a.Or(mkFns(c, c.n, c.leaf)...)}
	case "Range":
		a.Range(lo, hi, nb, r2(unit))
		return fnResult{}
	case "RangeAnd":
		return fnResult{hasB: true, b: a.RangeAnd(lo, hi, nb, func(l, h int) bool { return c.leaf(iv{l, h}) })}
	case "RangeOr":
		return fnResult{hasB: true, b: a.RangeOr(lo, hi, nb, func(l, h int) bool { return c.leaf(iv{l, h}) })}
	case "RangeReduce":
		return c.ret(ifInt(a.RangeReduce(lo, hi, nb, func(l, h int) interface{} { return leafA(iv{l, h}) }, joinA)), false, false)
	case "RangeReduceInt":
		return c.ret(a.RangeReduceInt(lo, hi, nb, func(l, h int) int { return leafI(iv{l, h}) }, joinI), false, false)
	case "RangeReduceFloat64":
		return c.ret(int(a.RangeReduceFloat64(lo, hi, nb, func(l, h int) float64 { return leafF(iv{l, h}) }, joinF)), false, false)
	case "RangeReduceString":
		return c.ret(atoi(a.RangeReduceString(lo, hi, nb, func(l, h int) string { return leafS(iv{l, h}) }, joinS)), false, false)
	case "RangeReduceIntSum":
		return c.eq(a.RangeReduceIntSum(lo, hi, nb, func(l, h int) int { return c.sumI(weigh(iv{l, h})) }), c.totSumI())
	case "RangeReduceIntProduct":
		return c.eq(a.RangeReduceIntProd(lo, hi, nb, func(l, h int) int { return c.prodI(weigh(iv{l, h})) }), c.totProdI())
	case "RangeReduceFloat64Sum":
		return c.eq(a.RangeReduceFltSum(lo, hi, nb, func(l, h int) float64 { return c.sumF(weigh(iv{l, h})) }), c.totSumF())
	case "RangeReduceFloat64Product":
		return c.eq(a.RangeReduceFltProd(lo, hi, nb, func(l, h int) float64 { return c.prodF(weigh(iv{l, h})) }), c.totProdF())
	case "RangeReduceStringSum":
		return c.strSum(a.RangeReduceStrSum(lo, hi, nb, func(l, h int) string { return c.str(weigh(iv{l, h})) }))
	}
	panic("HARNESS: unknown function " + c.fn)
}

// strSum checks that the concatenation lists the whole interval in order.
func (c *fnCall) strSum(s string) fnResult {
	tot := c.total()
	if tot.lo == tot.hi && !isRange(c.fn) {
		return c.eq(s, "")
	}
	at, rest := tot.lo, s
	skipEmpty := func() {
		for _, b := range c.oddBatches() {
			if b.x.lo == at {
				at = b.x.hi
			}
		}
	}
	for skipEmpty(); rest != ""; skipEmpty() {
		var l, h int
		i := strings.IndexByte(rest, '>')
		if i < 0 {
			c.fail("%s.%s returned %q", c.fam, c.fn, s)
			return fnResult{}
		}
		if _, err := fmt.Sscanf(rest[:i+1], "<%d:%d>", &l, &h); err != nil || l != at {
			c.fail("%s.%s returned %q: pieces are not in order", c.fam, c.fn, clip(s, 300))
			return fnResult{}
		}
		at, rest = h, rest[i+1:]
	}
	if at != tot.hi {
		c.fail("%s.%s returned %q: pieces are missing", c.fam, c.fn, clip(s, 300))
	}
	return fnResult{}
}

func specFns[T any](c *fnCall, n int, f func(x iv) (T, bool)) []func() (T, bool) {
	fs := make([]func() (T, bool), n)
	c.wipe = func() {
		for i := range fs {
			fs[i] = func() (T, bool) { c.stale(i); return f(iv{i, i + 1}) }
		}
	}
	for i := range fs {
		x := iv{i, i + 1}
		fs[i] = func() (T, bool) { return f(x) }
	}
	return fs
}

func (c *fnCall) invokeSpec() fnResult {
	lo, hi, nb := c.lo, c.hi, c.nbatch
	leafI := c.doLeaf
	joinI := c.doJoin
	leafA := func(x iv) (interface{}, bool) { t, b := c.doLeaf(x); return anyOf(t), b }
	joinA := func(x, y interface{}) (interface{}, bool) { t, b := c.doJoin(ifInt(x), ifInt(y)); return anyOf(t), b }
	leafF := func(x iv) (float64, bool) { t, b := c.doLeaf(x); return float64(t), b }
	joinF := func(x, y float64) (float64, bool) { t, b := c.doJoin(int(x), int(y)); return float64(t), b }
	leafS := func(x iv) (string, bool) { t, b := c.doLeaf(x); return strOf(t), b }
	joinS := func(x, y string) (string, bool) { t, b := c.doJoin(atoi(x), atoi(y)); return strOf(t), b }
	pred := func(l, h int) bool { return c.leaf(iv{l, h}) }
	switch c.fn {
	case "Reduce":
		fs := specFns(c, c.n, leafA)
		v, b := speculative.Reduce(joinA, fs[0], fs[1:]...)
		return c.ret(ifInt(v), b, true)
	case "ReduceFloat64":
		fs := specFns(c, c.n, leafF)
		v, b := speculative.ReduceFloat64(joinF, fs[0], fs[1:]...)
		return c.ret(int(v), b, true)
	case "ReduceInt":
		fs := specFns(c, c.n, leafI)
		v, b := speculative.ReduceInt(joinI, fs[0], fs[1:]...)
		return c.ret(v, b, true)
	case "ReduceString":
		fs := specFns(c, c.n, leafS)
		v, b := speculative.ReduceString(joinS, fs[0], fs[1:]...)
		return c.ret(atoi(v), b, true)
	case "Do":
		return fnResult{hasB: true, b: speculative.Do(mkFns(c, c.n, c.leaf)...)}
	case "And":
		return fnResult{hasB: true, b: speculative.And(mkFns(c, c.n, c.leaf)...)}
	case "Or":
		return fnResult{hasB: true, b: speculative.Or(mkFns(c, c.n, c.leaf)...)}
	case "Range":
		return fnResult{hasB: true, b: speculative.Range(lo, hi, nb, pred)}
	case "RangeAnd":
		return fnResult{hasB: true, b: speculative.RangeAnd(lo, hi, nb, pred)}
	case "RangeOr":
		return fnResult{hasB: true, b: speculative.RangeOr(lo, hi, nb, pred)}
	case "RangeReduce":
		v, b := speculative.RangeReduce(lo, hi, nb, func(l, h int) (interface{}, bool) { return leafA(iv{l, h}) }, joinA)
		return c.ret(ifInt(v), b, true)
	case "RangeReduceInt":
		v, b := speculative.RangeReduceInt(lo, hi, nb, func(l, h int) (int, bool) { return leafI(iv{l, h}) }, joinI)
		return c.ret(v, b, true)
	case "RangeReduceFloat64":
		v, b := speculative.RangeReduceFloat64(lo, hi, nb, func(l, h int) (float64, bool) { return leafF(iv{l, h}) }, joinF)
		return c.ret(int(v), b, true)
	case "RangeReduceString":
		v, b := speculative.RangeReduceString(lo, hi, nb, func(l, h int) (string, bool) { return leafS(iv{l, h}) }, joinS)
		return c.ret(atoi(v), b, true)
	}
	panic("HARNESS: unknown function " + c.fn)
}
