package harness

import (
	"math"
	"sort"
	"strconv"
	"sync"

	"pgregory.net/rapid"
)

// FnOdd makes the function at a position return an unusual value: zero, an
// empty string, nil, an infinity, not a number, and so on. Where results are
// tickets, K chooses the result that is the zero value: that of the function
// itself, or of the first or second join that includes it.
type FnOdd struct {
	P int `json:"p"` // position (relative to the low end)
	K int `json:"k"`
}

const oddKinds = 6

// oddities is the part of a fnCall that deals with unusual values. It is used
// by scheduled runs only.
type oddities struct {
	odd  []FnOdd // absolute positions
	mu   sync.Mutex
	at   []oddBatch // batches that returned an unusual value
	seen int        // results so far that include odd[0]
	zero *iv        // the interval whose ticket is 0
}

type oddBatch struct {
	x iv
	k int
}

// enc is the ticket of an interval.
func (c *fnCall) enc(x iv) int {
	if o := &c.oddities; len(o.odd) > 0 && x.lo <= o.odd[0].P && o.odd[0].P < x.hi {
		o.mu.Lock()
		o.seen++
		hit := o.seen == 1+o.odd[0].K%3
		if hit {
			o.zero = &x
		}
		o.mu.Unlock()
		if hit {
			return 0
		}
	}
	return c.codec.enc(x)
}

// isZero reports whether ticket 0 was handed out, and for what.
func (c *fnCall) isZero(x int) (iv, bool) {
	c.oddities.mu.Lock()
	defer c.oddities.mu.Unlock()
	if x != 0 || c.oddities.zero == nil {
		return iv{}, false
	}
	return *c.oddities.zero, true
}

// Tickets in other types; 0 is always the zero value.
func strOf(t int) string {
	if t == 0 {
		return ""
	}
	return strconv.Itoa(t)
}

func anyOf(t int) interface{} {
	if t == 0 {
		return nil
	}
	return t
}

func oddFloat(k int) float64 {
	return [oddKinds]float64{0, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), -1}[k%oddKinds]
}

func oddInt(k int) int {
	return [oddKinds]int{0, math.MinInt, -1, 1, math.MaxInt, 1 << 32}[k%oddKinds]
}

func oddStr(int) string { return "" }

// value is what a function returns for x.
func value[T any](c *fnCall, x iv, normal func(iv) T, odd func(int) T) T {
	for _, o := range c.oddities.odd {
		if x.lo <= o.P && o.P < x.hi {
			c.oddities.mu.Lock()
			c.oddities.at = append(c.oddities.at, oddBatch{x, o.K})
			c.oddities.mu.Unlock()
			return odd(o.K)
		}
	}
	return normal(x)
}

func (c *fnCall) oddBatches() []oddBatch {
	c.oddities.mu.Lock()
	defer c.oddities.mu.Unlock()
	s := append([]oddBatch(nil), c.oddities.at...)
	sort.Slice(s, func(i, j int) bool { return s[i].x.lo < s[j].x.lo })
	return s
}

// fold is the combination of all values; what lies between the unusual ones
// depends on the end points only, and no grouping of the operations matters.
func fold[T any](c *fnCall, normal func(iv) T, odd func(int) T, op func(x, y T) T) T {
	tot := c.total()
	if len(c.oddities.odd) == 0 {
		return normal(tot)
	}
	var r T
	started := false
	at := tot.lo
	put := func(v T) {
		if started {
			v = op(r, v)
		}
		r, started = v, true
	}
	for _, b := range c.oddBatches() {
		if b.x.lo > at {
			put(normal(iv{at, b.x.lo}))
		}
		put(odd(b.k))
		at = b.x.hi
	}
	if at < tot.hi || !started {
		put(normal(iv{at, tot.hi}))
	}
	return r
}

func (c *fnCall) sumI(x iv) int     { return value(c, x, sumInt, oddInt) }
func (c *fnCall) prodI(x iv) int    { return value(c, x, prodInt, oddInt) }
func (c *fnCall) sumF(x iv) float64 { return value(c, x, sumFloat, oddFloat) }
func (c *fnCall) prodF(x iv) float64 {
	return value(c, x, prodFloat, oddFloat)
}
func (c *fnCall) str(x iv) string { return value(c, x, ivStr, oddStr) }

func (c *fnCall) totSumI() int {
	return fold(c, sumInt, oddInt, func(x, y int) int { return x + y })
}
func (c *fnCall) totProdI() int {
	return fold(c, prodInt, oddInt, func(x, y int) int { return x * y })
}
func (c *fnCall) totSumF() float64 {
	return fold(c, sumFloat, oddFloat, func(x, y float64) float64 { return x + y })
}
func (c *fnCall) totProdF() float64 {
	return fold(c, prodFloat, oddFloat, func(x, y float64) float64 { return x * y })
}

// setOdd installs the unusual values of a case.
func (c *fnCall) setOdd(odd []FnOdd) {
	for _, o := range odd {
		c.oddities.odd = append(c.oddities.odd, FnOdd{c.total().lo + o.P, o.K})
	}
}

// genOdd draws up to two unusual values among n functions, often where an
// event is.
func genOdd(t *rapid.T, n int, events []FnEvent) []FnOdd {
	if n == 0 || rapid.IntRange(0, 2).Draw(t, "anyodd") > 0 {
		return nil
	}
	var odd []FnOdd
	for k := rapid.IntRange(1, 2).Draw(t, "nodd"); k > 0; k-- {
		o := FnOdd{P: rapid.IntRange(0, n-1).Draw(t, "oddat"), K: rapid.IntRange(0, oddKinds-1).Draw(t, "oddkind")}
		if len(events) > 0 && rapid.Bool().Draw(t, "oddevent") {
			o.P = events[rapid.IntRange(0, len(events)-1).Draw(t, "whichevent")].P
			if rapid.Bool().Draw(t, "oddleaf") {
				o.K = 0
			}
		}
		odd = append(odd, o)
	}
	return odd
}
