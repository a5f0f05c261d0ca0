package harness

import (
	"fmt"
	"reflect"

	"github.com/exascience/pargo/pipeline"
	"pgregory.net/rapid"
)

// L09: list filters on batches of other types than []int: strings (counted and
// cut in bytes, characters may be cut in two), byte slices, named slices, and
// slices of elements without a size, which can be huge.

type (
	namedInts []int32
	unit      = struct{}
)

// KindStage is one filter in a node of its own.
type KindStage struct {
	Op   string `json:"op"` // limit skip count slice pass
	N    int    `json:"n,omitempty"`
	Node string `json:"node,omitempty"`
	Lim  int    `json:"lim,omitempty"`
}

// KindCase is a chain of list filters.
type KindCase struct {
	Kind   string      `json:"kind"` // unit string bytes named
	Lens   []int       `json:"lens"` // of the batches of the source
	Known  bool        `json:"known,omitempty"`
	Nils   int         `json:"nils,omitempty"` // a nil batch before every Nils-th one
	Stages []KindStage `json:"stages"`
	Procs  int         `json:"procs"`
	Pert   []int       `json:"pert,omitempty"`
}

const kindText = "aä€𝄞\x00\xffß b\u2028c"

// at makes a batch of the stream's elements lo to hi.
func (cs *KindCase) at(lo, hi int) interface{} {
	switch cs.Kind {
	case "unit":
		return make([]unit, hi-lo)
	case "named":
		b := make(namedInts, 0, hi-lo)
		for i := lo; i < hi; i++ {
			b = append(b, int32(i))
		}
		return b
	}
	b := make([]byte, 0, hi-lo)
	for i := lo; i < hi; i++ {
		b = append(b, kindText[i%len(kindText)])
	}
	if cs.Kind == "string" {
		return string(b)
	}
	return b
}

func (cs *KindCase) join(a, b interface{}) interface{} {
	switch x := a.(type) {
	case string:
		return x + b.(string)
	case []unit:
		return make([]unit, len(x)+len(b.([]unit)))
	default:
		return reflect.AppendSlice(reflect.ValueOf(a), reflect.ValueOf(b)).Interface()
	}
}

func execKinds(c *Ctx, cs *KindCase) {
	total := 0
	for _, l := range cs.Lens {
		total += l
	}
	// The model: what is left of the stream is an interval.
	lo, hi := 0, total
	want := make([]int, len(cs.Stages))
	for i, st := range cs.Stages {
		switch st.Op {
		case "limit":
			if st.N >= 0 {
				hi = min(hi, lo+min(st.N, hi-lo))
			}
		case "skip":
			lo += min(st.N, hi-lo)
		}
		want[i] = hi - lo
	}
	counts := make([]int, len(cs.Stages))
	sliced := make([]reflect.Value, len(cs.Stages))
	result := cs.at(0, 0)
	var bad string
	p := &pipeline.Pipeline{}
	body := func() {
		at, k := 0, 0
		nils := 0
		size := -1
		if cs.Known {
			size = total
		}
		p.Source(pipeline.NewFunc(size, func(int) (interface{}, int, error) {
			if k == len(cs.Lens) {
				return nil, 0, nil
			}
			if cs.Nils > 0 && k%cs.Nils == 0 && nils <= k {
				nils = k + 1
				return nil, 1, nil
			}
			l := cs.Lens[k]
			k++
			at += l
			return cs.at(at-l, at), l, nil
		}))
		for i := range cs.Stages {
			st := cs.Stages[i]
			switch st.Op {
			case "limit":
				p.Add(pipeline.Limit(st.N, false))
			case "skip":
				p.Add(pipeline.Skip(st.N))
			case "count":
				counts[i] = -7
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Count(&counts[i])))
			case "slice":
				sliced[i] = reflect.New(reflect.TypeOf(cs.at(0, 0)))
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Slice(sliced[i].Interface())))
			case "pass":
				p.Add(wrapNode(st.Node, st.Lim, pipeline.Receive(func(s int, data interface{}) interface{} {
					if n := len(cs.Pert); n > 0 {
						perturb(cs.Pert[s%n])
					}
					return data
				})))
			}
		}
		p.Add(pipeline.Ord(pipeline.Receive(func(s int, data interface{}) interface{} {
			if data == nil {
				return data
			}
			if reflect.TypeOf(data) != reflect.TypeOf(result) {
				bad = fmt.Sprintf("batch %d has type %T", s, data)
				return data
			}
			result = cs.join(result, data)
			return data
		})))
		p.Run()
	}
	if pv, b := plainRun(cs.Procs, body); b {
		c.Failf("Run panicked: %v", clip(fmt.Sprint(pv), 500))
		return
	}
	if err := p.Err(); err != nil {
		c.Failf("Err() = %v", err)
	}
	if bad != "" {
		c.Failf("%s", bad)
		return
	}
	for i, st := range cs.Stages {
		what := fmt.Sprintf("%s of %s batches in %s (stage %d)", st.Op, cs.Kind, st.Node, i)
		switch st.Op {
		case "count":
			if counts[i] != want[i] {
				c.Failf("%s: got %d, want %d", what, counts[i], want[i])
			}
		case "slice":
			if n := sliced[i].Elem().Len(); n != want[i] {
				c.Failf("%s: got %d elements, want %d", what, n, want[i])
			}
		}
		c.Label("%s of %s", st.Op, cs.Kind)
	}
	if n := reflect.ValueOf(result).Len(); n != hi-lo {
		c.Failf("the last node gets %d elements (%s), want %d", n, cs.Kind, hi-lo)
		return
	}
	if cs.Kind != "unit" {
		if w := cs.at(lo, hi); hi > lo && !reflect.DeepEqual(result, w) {
			c.Failf("the last node gets %#v, want %#v", result, w)
		}
	}
	c.NonTrivial(total > 0 && len(cs.Lens) >= 2 && len(cs.Stages) > 0)
}

func genKinds(t *rapid.T) *KindCase {
	cs := &KindCase{Kind: rapid.SampledFrom([]string{"unit", "string", "string", "bytes", "named"}).Draw(t, "kind")}
	n := rapid.IntRange(0, 8).Draw(t, "nbatches")
	bounds := []int{0}
	total := 0
	for i := 0; i < n; i++ {
		var l int
		if cs.Kind == "unit" {
			l = rapid.SampledFrom([]int{1, 7, 1<<31 - 1, 1 << 31, 1 << 32, 1<<33 + 1, 1 << 53, 1<<53 + 1}).Draw(t, "len")
		} else {
			l = rapid.IntRange(1, 20).Draw(t, "len")
		}
		total += l
		bounds = append(bounds, total)
		cs.Lens = append(cs.Lens, l)
	}
	cs.Known = rapid.Bool().Draw(t, "known")
	if rapid.IntRange(0, 3).Draw(t, "nils") == 0 {
		cs.Nils = rapid.IntRange(1, 3).Draw(t, "nilevery")
	}
	nodes := []string{"ord", "seq", "par", "par", "lpar", "strict", "neword", "newseq", "newpar", "uinline"}
	k := rapid.IntRange(1, 5).Draw(t, "nstages")
	for i := 0; i < k; i++ {
		st := KindStage{
			Op:   rapid.SampledFrom([]string{"limit", "skip", "count", "count", "slice", "pass"}).Draw(t, "op"),
			Node: rapid.SampledFrom(nodes).Draw(t, "node"),
			Lim:  rapid.IntRange(0, 3).Draw(t, "lim"),
		}
		if st.Op == "slice" && cs.Kind == "string" {
			st.Op = "count"
		}
		if st.Op == "limit" || st.Op == "skip" {
			st.Node, st.Lim = "", 0
			st.N = max(0, rapid.SampledFrom(bounds).Draw(t, "bound")+rapid.IntRange(-2, 2).Draw(t, "off"))
			if rapid.IntRange(0, 9).Draw(t, "extreme") == 0 {
				st.N = 1<<63 - 1
			}
			if st.Op == "limit" && rapid.IntRange(0, 9).Draw(t, "unlimited") == 0 {
				st.N = -1
			}
		}
		cs.Stages = append(cs.Stages, st)
	}
	cs.Procs = freeProcs(t)
	cs.Pert = genPert(t)
	return cs
}

func init() {
	executor("kinds", execKinds)
	register(&Campaign{Prop: "L09", Name: "chain-kinds", Exec: "kinds", Quick: 1200, Thorough: 20000, Gen: func(t *rapid.T) any { return genKinds(t) }})
}
