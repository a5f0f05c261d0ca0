package harness

import (
	"fmt"
	"math"
	gosort "sort"
	"strings"
	"sync"

	psort "github.com/exascience/pargo/sort"
	"pgregory.net/rapid"
)

// SliceOp is one call of a method of a slice type of package sort. The numbers
// are taken modulo what is there.
type SliceOp struct {
	Op string `json:"op"` // window, sort, swap, less, temp, assign, par
	C  int    `json:"c"`  // the collection
	D  int    `json:"d,omitempty"`
	I  int    `json:"i,omitempty"`
	J  int    `json:"j,omitempty"`
	N  int    `json:"n,omitempty"`
}

// SliceCase is a history of such calls.
type SliceCase struct {
	Type string    `json:"type"` // int, float64, string
	Keys []int     `json:"keys"` // contents of the array all windows share
	Rep  int       `json:"rep"`  // the contents are repeated
	Ops  []SliceOp `json:"ops"`
}

type bothSorter interface {
	psort.Sorter
	psort.StableSorter
}

// sliceType describes a slice type by ordinary Go.
type sliceType[E any] struct {
	of   func([]E) bothSorter
	raw  func(psort.StableSorter) []E
	val  func(key int) E
	same func(x, y E) bool
	less func(x, y E) bool
}

var intType = sliceType[int]{
	of:   func(s []int) bothSorter { return psort.IntSlice(s) },
	raw:  func(s psort.StableSorter) []int { return s.(psort.IntSlice) },
	val:  func(k int) int { return []int{k, -k, k / 8, math.MinInt + k, math.MaxInt - k}[k%5] },
	same: func(x, y int) bool { return x == y },
	less: func(x, y int) bool { return x < y },
}

var floatType = sliceType[float64]{
	of:  func(s []float64) bothSorter { return psort.Float64Slice(s) },
	raw: func(s psort.StableSorter) []float64 { return s.(psort.Float64Slice) },
	val: func(k int) float64 {
		switch k % 8 {
		case 0:
			return math.Float64frombits(0x7FF8000000000000 + uint64(k)) // NaNs that can be told apart
		case 1:
			return math.Copysign(0, -1)
		case 2:
			return 0
		case 3:
			return math.Inf(k%16 - 5)
		case 4:
			return math.Float64frombits(0xFFF8000000000000 + uint64(k))
		case 5:
			return math.SmallestNonzeroFloat64 * float64(k-20)
		default:
			return float64(k%9) - 4.5
		}
	},
	same: func(x, y float64) bool { return math.Float64bits(x) == math.Float64bits(y) },
	less: func(x, y float64) bool { return x < y || math.IsNaN(x) && !math.IsNaN(y) },
}

var stringType = sliceType[string]{
	of:  func(s []string) bothSorter { return psort.StringSlice(s) },
	raw: func(s psort.StableSorter) []string { return s.(psort.StringSlice) },
	val: func(k int) string {
		return []string{"", "a", "a\x00", "ab", "\xff", "ä", fmt.Sprint(k), fmt.Sprint(k / 9), "a\xfe\xff", "a\xff" + string(rune('a'+k%3)), "a\xfe", "\uffff", "\U0001f600",
			"\xed\xa0\x80", strings.Repeat("x", 30+k%4) + string([]byte{byte(k * 7)})}[k%15]
	},
	same: func(x, y string) bool { return x == y },
	less: func(x, y string) bool { return x < y },
}

// window is a part of an array: real and in the model.
type window[E any] struct{ real, model []E }

func runSlices[E any](c *Ctx, cs *SliceCase, ty sliceType[E]) {
	var base []E
	for r := 0; r < max(1, cs.Rep); r++ {
		for _, k := range cs.Keys {
			base = append(base, ty.val(k))
		}
	}
	arrays := []window[E]{{base, append([]E(nil), base...)}}
	whole := arrays[0]
	ws := []window[E]{whole}
	colls := []bothSorter{ty.of(base)}
	changes := 0
	check := func(n int, op SliceOp) {
		for a, w := range arrays {
			for i := range w.real {
				if !ty.same(w.real[i], w.model[i]) {
					c.Failf("operation %d %+v: element %d of array %d is %v, want %v", n, op, i, a, w.real[i], w.model[i])
					return
				}
			}
		}
	}
	sorted := func(w window[E], i, j int) {
		m := w.model[i:j]
		gosort.SliceStable(m, func(x, y int) bool { return ty.less(m[x], m[y]) })
	}
	for n, op := range cs.Ops {
		if c.Failed() {
			return
		}
		ci := op.C % len(colls)
		x, w := colls[ci], ws[ci]
		size := len(w.real)
		if x.Len() != size {
			c.Failf("operation %d: Len() = %d, want %d", n, x.Len(), size)
			return
		}
		lo := op.I % (size + 1)
		hi := lo + op.J%(size-lo+1)
		switch op.Op {
		case "window":
			nw := window[E]{w.real[lo:hi], w.model[lo:hi]}
			ws = append(ws, nw)
			colls = append(colls, ty.of(nw.real))
		case "sort":
			x.SequentialSort(lo, hi)
			sorted(w, lo, hi)
			changes += (hi - lo) / 2
		case "swap", "less":
			if size == 0 {
				continue
			}
			i, j := op.I%size, op.J%size
			if op.Op == "swap" {
				x.Swap(i, j)
				w.model[i], w.model[j] = w.model[j], w.model[i]
			} else if got, want := x.Less(i, j), ty.less(w.model[i], w.model[j]); got != want {
				c.Failf("operation %d: Less(%d, %d) = %v for %v and %v", n, i, j, got, w.model[i], w.model[j])
			}
		case "temp":
			t := x.NewTemp()
			real := ty.raw(t)
			if t.Len() != size || len(real) != size {
				c.Failf("operation %d: NewTemp of %d elements has %d", n, size, t.Len())
				return
			}
			nw := window[E]{real, append([]E(nil), real...)}
			arrays = append(arrays, nw)
			ws = append(ws, nw)
			colls = append(colls, ty.of(real))
			for i := range real { // it has its own memory
				real[i], nw.model[i] = ty.val(i), ty.val(i)
			}
		case "assign", "par":
			di := op.D % len(colls)
			src := ws[di]
			l := min(op.N, size-lo)
			from := op.J % (len(src.real) + 1)
			l = min(l, len(src.real)-from)
			if l < 0 || overlap(w.real[lo:lo+l], src.real[from:from+l]) {
				continue
			}
			f := x.Assign(colls[di])
			// It refers to the collections as they are when it is called.
			if size > 1 {
				x.Swap(0, size-1)
				w.model[0], w.model[size-1] = w.model[size-1], w.model[0]
			}
			if op.Op == "assign" {
				f(lo, from, l)
			} else {
				var wg sync.WaitGroup
				step := 1 + op.I%3
				for k := 0; k < l; k += step {
					wg.Add(1)
					go func() {
						defer wg.Done()
						m := min(step, l-k)
						colls[di].Less(from+k, from+l-1)
						f(lo+k, from+k, m)
					}()
				}
				if t := x.NewTemp(); t.Len() != size {
					c.Failf("operation %d: NewTemp of %d elements has %d", n, size, t.Len())
				}
				wg.Wait()
			}
			copy(w.model[lo:lo+l], src.model[from:from+l])
			changes += l
		}
		check(n, op)
	}
	c.Label("%s", cs.Type)
	c.NonTrivial(changes > 1)
}

func overlap[E any](x, y []E) bool {
	for i := range x {
		for j := range y {
			if &x[i] == &y[j] {
				return true
			}
		}
	}
	return false
}

func execSlices(c *Ctx, cs *SliceCase) {
	pv, bad := plainRun(8, func() {
		switch cs.Type {
		case "int":
			runSlices(c, cs, intType)
		case "float64":
			runSlices(c, cs, floatType)
		default:
			runSlices(c, cs, stringType)
		}
	})
	if bad {
		c.Failf("panic: %v", pv)
	}
}

// anywhere is not biased towards small numbers.
func anywhere(t *rapid.T, name string) int {
	return int(mix(rapid.Uint64().Draw(t, name)) % 1000)
}

func genSlices(t *rapid.T) any {
	cs := &SliceCase{Type: rapid.SampledFrom([]string{"int", "float64", "float64", "string"}).Draw(t, "type"), Rep: 1}
	n := rapid.SampledFrom([]int{0, 1, 2, 5, 10, 15, 25, 40, 60, 60}).Draw(t, "n")
	for i := n; i > 0; i-- {
		cs.Keys = append(cs.Keys, rapid.IntRange(0, 80).Draw(t, "key"))
	}
	if n == 60 {
		cs.Rep = rapid.IntRange(1, 8).Draw(t, "rep")
	}
	for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
		cs.Ops = append(cs.Ops, SliceOp{
			Op: rapid.SampledFrom([]string{"window", "window", "sort", "sort", "swap", "less", "less", "temp", "assign", "assign", "par"}).Draw(t, "op"),
			C:  rapid.IntRange(0, 6).Draw(t, "c"), D: rapid.IntRange(0, 6).Draw(t, "d"),
			I: anywhere(t, "i"), J: anywhere(t, "j"), N: anywhere(t, "len")})
	}
	return cs
}

func init() {
	executor("slices", execSlices)
	register(&Campaign{Prop: "S06", Name: "slices", Exec: "slices", Quick: 20000, Thorough: 300000, Gen: genSlices})
	register(&Campaign{Prop: "S06", Name: "slices-race", Exec: "slices", Race: true, Quick: 3000, Thorough: 40000, Gen: genSlices})
}
