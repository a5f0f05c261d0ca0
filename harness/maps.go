package harness

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	psync "github.com/exascience/pargo/sync"
)

type amap = map[interface{}]interface{}

// Key types. The hash is part of the key, so that cases choose it freely.
type (
	kStruct struct {
		H  uint64
		ID int
	}
	kString string // "hash:id"
	kNum    uint64
	kPtr    struct{ k *kStruct }
)

// hashHook is called by every Hash method; cases set it before any goroutine
// of theirs exists.
var hashHook func(h uint64)

func hooked(h uint64) uint64 {
	if hashHook != nil {
		hashHook(h)
	}
	return h
}

func (k kStruct) Hash() uint64 { return hooked(k.H) }
func (k kNum) Hash() uint64    { return hooked(uint64(k)) }
func (k kPtr) Hash() uint64    { return hooked(k.k.H) }
func (k kString) Hash() uint64 {
	h, _, _ := strings.Cut(string(k), ":")
	n, _ := strconv.ParseUint(h, 10, 64)
	return hooked(n)
}

// KeySpec describes a key.
type KeySpec struct {
	T  int    `json:"t,omitempty"`
	H  uint64 `json:"h"`
	ID int    `json:"id,omitempty"`
}

// makeKeys instantiates keys; equal specs give equal keys.
func makeKeys(specs []KeySpec) []psync.Hasher {
	ptrs := map[KeySpec]*kStruct{}
	ks := make([]psync.Hasher, len(specs))
	for i, s := range specs {
		switch s.T % 4 {
		case 0:
			ks[i] = kStruct{s.H, s.ID}
		case 1:
			ks[i] = kString(fmt.Sprintf("%d:%d", s.H, s.ID))
		case 2:
			ks[i] = kNum(s.H)
		case 3:
			p := ptrs[s]
			if p == nil {
				p = &kStruct{s.H, s.ID}
				ptrs[s] = p
			}
			ks[i] = kPtr{p}
		}
	}
	return ks
}

// Keys that cannot be used.
type (
	kSlice struct {
		H uint64
		S []int
	}
	kIface struct {
		H uint64
		X interface{}
	}
	kFunc  func() uint64
	kMap   map[string]uint64
	kThrow struct{ kind, id int }
)

func (k kSlice) Hash() uint64 { return hooked(k.H) }
func (k kIface) Hash() uint64 { return hooked(k.H) }
func (k kFunc) Hash() uint64  { return hooked(k()) }
func (k kMap) Hash() uint64   { return hooked(k["h"]) }
func (k kThrow) Hash() uint64 { throw(k.kind, k.id); return 0 }

const badKeys = 6

// badKey returns a key with hash h that is no key for a Go map, or (the last
// kind) one whose Hash method panics.
func badKey(kind int, h uint64, id int) psync.Hasher {
	switch kind % badKeys {
	case 0:
		return kSlice{h, []int{id}}
	case 1:
		return kIface{h, []string{"x"}}
	case 2:
		return kFunc(func() uint64 { return h })
	case 3:
		return kMap{"h": h}
	case 4:
		return kIface{h, kIface{h, func() {}}}
	default:
		return kThrow{id % panicKinds, id}
	}
}

var valueTable = []interface{}{nil, 0, 1, "", "x", false, []int{1, 2}, []int(nil), map[string]int{"a": 1}, struct{ A, B int }{1, 2}, 3.5, error(nil), amap(nil)}

func valueOf(v int) interface{} {
	if v >= 0 && v < len(valueTable) {
		return valueTable[v]
	}
	return v
}

func mapID(m amap) uintptr { return reflect.ValueOf(m).Pointer() }

// mapView is what the harness knows about the splits of a map, all of it
// observed through the API.
type mapView struct {
	m     *psync.Map
	n     int
	order []amap          // in the order of the sequential And
	pos   map[uintptr]int // position of a split's map
	split []*psync.Split  // nil if no key leads to it
	of    func(k psync.Hasher) int
}

// viewMap explores a new, unlocked map of the given number of splits.
func viewMap(c *Ctx, m *psync.Map, n int) *mapView {
	hook := hashHook
	hashHook = nil
	defer func() { hashHook = hook }()
	v := &mapView{m: m, n: n, pos: map[uintptr]int{}}
	r := m.And(func(s amap) bool {
		v.order = append(v.order, s)
		return true
	})
	if !r {
		c.Failf("Map.And of true predicates is false")
	}
	for i, s := range v.order {
		if _, dup := v.pos[mapID(s)]; dup {
			c.Failf("Map.And visited a split twice")
		}
		v.pos[mapID(s)] = i
	}
	if len(v.order) != n {
		c.Failf("the map has %d splits, want %d", len(v.order), n)
	}
	v.split = make([]*psync.Split, len(v.order))
	found := 0
	for h := uint64(0); found < len(v.order) && h < uint64(200*n); h++ {
		s := m.Split(kNum(h))
		p, ok := v.pos[mapID(s.Map)]
		if !ok {
			c.Failf("Split(%d) is a split that And does not visit", h)
			return v
		}
		if v.split[p] == nil {
			v.split[p] = s
			found++
		}
	}
	v.of = func(k psync.Hasher) int { return v.pos[mapID(v.m.Split(k).Map)] }
	return v
}

// held tells if the write lock of the split is held (by anybody).
func held(s *psync.Split) bool {
	if s.TryRLock() {
		s.RUnlock()
		return false
	}
	return true
}

// locked tells if any lock of the split is held.
func locked(s *psync.Split) bool {
	if s.TryLock() {
		s.Unlock()
		return false
	}
	return true
}

// checkFree verifies that no lock is held.
func (v *mapView) checkFree(c *Ctx, when string) bool {
	for i, s := range v.split {
		if s != nil && locked(s) {
			c.Failf("%s: the lock of split %d is held", when, i)
			return false
		}
	}
	return true
}

// content reads the whole (quiescent, unlocked) map through And.
func (v *mapView) content() amap {
	all := amap{}
	v.m.And(func(s amap) bool {
		for k, x := range s {
			all[k] = x
		}
		return true
	})
	return all
}

func (v *mapView) size() (n int) {
	v.m.And(func(s amap) bool { n += len(s); return true })
	return
}

func sameMap(a, b amap) string {
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			return fmt.Sprintf("key %v (value %v) should not be there", k, x)
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("key %v has value %#v, want %#v", k, x, y)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("key %v is missing", k)
		}
	}
	return ""
}

// MapOp is one operation on a map.
type MapOp struct {
	Op     string  `json:"op"`
	K      int     `json:"k"`
	V      int     `json:"v,omitempty"`
	Mod    int     `json:"mod,omitempty"` // Modify, direct: what the modifier does
	Panic  int     `json:"panic,omitempty"`
	Bad    int     `json:"bad,omitempty"`    // M06: a key with the same hash that cannot be used (see badKey)
	Nested []MapOp `json:"nested,omitempty"` // run inside the computer (LoadOrCompute) or on other splits
}

var mapOps = []string{"Load", "LoadOrStore", "LoadOrCompute", "Delete", "DeleteOrStore", "DeleteOrCompute", "Modify", "Split"}

// modify is the pure function behind modifiers and direct accesses.
func modify(mod, v int, old interface{}, ok bool) (interface{}, bool) {
	switch mod % 5 {
	case 0:
		return valueOf(v), true
	case 1:
		return valueOf(v), false
	case 2: // toggle
		if ok {
			return nil, false
		}
		return valueOf(v), true
	case 3: // keep
		return old, ok
	default: // count
		if n, isInt := old.(int); isInt && ok {
			return n + 1, true
		}
		return 1000 + v, true
	}
}

// opResult is what an operation returned and how it called back.
type opResult struct {
	val    interface{}
	flag   bool
	calls  int
	seen   interface{} // Modify: argument of the modifier
	seenOk bool
}

// apply performs op on the map. inner runs inside callbacks.
func apply(m *psync.Map, keys []psync.Hasher, op *MapOp, inner func(op *MapOp)) (r opResult) {
	k := keys[op.K%len(keys)]
	v := valueOf(op.V)
	compute := func() interface{} {
		r.calls++
		if inner != nil {
			inner(op)
		}
		return v
	}
	switch op.Op {
	case "Load":
		r.val, r.flag = m.Load(k)
	case "LoadOrStore":
		r.val, r.flag = m.LoadOrStore(k, v)
	case "LoadOrCompute":
		r.val, r.flag = m.LoadOrCompute(k, compute)
	case "Delete":
		m.Delete(k)
	case "DeleteOrStore":
		r.val, r.flag = m.DeleteOrStore(k, v)
	case "DeleteOrCompute":
		r.val, r.flag = m.DeleteOrCompute(k, compute)
	case "Modify":
		r.val, r.flag = m.Modify(k, func(old interface{}, ok bool) (interface{}, bool) {
			r.calls++
			r.seen, r.seenOk = old, ok
			if inner != nil {
				inner(op)
			}
			return modify(op.Mod, op.V, old, ok)
		})
	case "Split":
		s := m.Split(k)
		s.Lock()
		r.calls = 1
		r.seen, r.seenOk = s.Map[k]
		if inner != nil {
			inner(op)
		}
		if r.val, r.flag = modify(op.Mod, op.V, r.seen, r.seenOk); r.flag {
			s.Map[k] = r.val
		} else {
			delete(s.Map, k)
		}
		s.Unlock()
	default:
		panic("HARNESS: unknown map operation " + op.Op)
	}
	return
}

// model performs op on an ordinary map.
func model(m amap, keys []psync.Hasher, op *MapOp, inner func(op *MapOp)) (r opResult) {
	k := interface{}(keys[op.K%len(keys)])
	v := valueOf(op.V)
	old, ok := m[k]
	switch op.Op {
	case "Load":
		r.val, r.flag = old, ok
	case "LoadOrStore":
		if !ok {
			m[k] = v
			old = v
		}
		r.val, r.flag = old, ok
	case "LoadOrCompute":
		if !ok {
			r.calls = 1
			if inner != nil {
				inner(op)
			}
			if old, ok = m[k]; !ok {
				m[k] = v
				old = v
			}
		}
		r.val, r.flag = old, ok
	case "Delete":
		delete(m, k)
	case "DeleteOrStore", "DeleteOrCompute":
		if ok {
			delete(m, k)
			r.val, r.flag = old, true
		} else {
			if op.Op == "DeleteOrCompute" {
				r.calls = 1
				if inner != nil {
					inner(op)
				}
			}
			m[k] = v
			r.val = v
		}
	case "Modify", "Split":
		r.calls = 1
		r.seen, r.seenOk = old, ok
		if inner != nil {
			inner(op)
		}
		if r.val, r.flag = modify(op.Mod, op.V, old, ok); r.flag {
			m[k] = r.val
		} else {
			delete(m, k)
		}
	}
	return
}

// MapSeqCase is a sequential history.
type MapSeqCase struct {
	Size  int       `json:"size"`
	Fill  int       `json:"fill,omitempty"` // further entries
	Procs int       `json:"procs"`
	Keys  []KeySpec `json:"keys"`
	Ops   []MapOp   `json:"ops"`
}

// fillMap stores n more entries, in m and in the model.
func fillMap(m *psync.Map, ref amap, n int) {
	for i := 0; i < n; i++ {
		k := kNum(mix(uint64(i)))
		m.LoadOrStore(k, i)
		ref[k] = i
	}
}

func newMapN(size, procs int) (*psync.Map, int) {
	setProcs(procs)
	n := size
	if n <= 0 {
		n = runtime.GOMAXPROCS(0)
	}
	return psync.NewMap(size), n
}

func execMapSeq(c *Ctx, cs *MapSeqCase) {
	hashHook = nil
	m, n := newMapN(cs.Size, cs.Procs)
	v := viewMap(c, m, n)
	if c.Failed() {
		return
	}
	keys := makeKeys(cs.Keys)
	ref := amap{}
	fillMap(m, ref, cs.Fill)
	classes := map[string]bool{}
	for i := range cs.Ops {
		op := &cs.Ops[i]
		what := fmt.Sprintf("operation %d, %s(%v, %#v)", i, op.Op, keys[op.K%len(keys)], valueOf(op.V))
		var got opResult
		own := v.of(keys[op.K%len(keys)])
		var nestedGot, nestedWant []opResult
		usable := func(no *MapOp) bool { // may it run while the callback is active?
			return op.Op == "LoadOrCompute" || v.of(keys[no.K%len(keys)]) != own
		}
		if pv, p := plainRun(cs.Procs, func() {
			got = apply(m, keys, op, func(op *MapOp) {
				for j := range op.Nested {
					if usable(&op.Nested[j]) {
						nestedGot = append(nestedGot, apply(m, keys, &op.Nested[j], nil))
					}
				}
			})
		}); p {
			c.Failf("%s panicked: %v", what, clip(fmt.Sprint(pv), 500))
			return
		}
		want := model(ref, keys, op, func(op *MapOp) {
			for j := range op.Nested {
				if usable(&op.Nested[j]) {
					nestedWant = append(nestedWant, model(ref, keys, &op.Nested[j], nil))
				}
			}
		})
		if !reflect.DeepEqual(got, want) {
			c.Failf("%s: got %+v, want %+v", what, got, want)
			return
		}
		if !reflect.DeepEqual(nestedGot, nestedWant) {
			c.Failf("%s, operations inside the callback: got %+v, want %+v", what, nestedGot, nestedWant)
			return
		}
		if !v.checkFree(c, "after "+what) {
			return
		}
		if d := sameMap(v.content(), ref); d != "" {
			c.Failf("after %s: %s", what, d)
			return
		}
		if v.size() != len(ref) {
			c.Failf("after %s: %d entries, want %d", what, v.size(), len(ref))
			return
		}
		classes[fmt.Sprintf("%s/%v", op.Op, want.flag)] = true
		if len(nestedWant) > 0 {
			c.Label("nested in %s", op.Op)
		}
	}
	for _, k := range keys {
		x, ok := v.m.Split(k).Map[k]
		if y, ok2 := ref[k]; ok != ok2 || !reflect.DeepEqual(x, y) {
			c.Failf("Split(%v).Map has (%v, %v) for the key, want (%v, %v)", k, x, ok, y, ok2)
		}
	}
	for l := range classes {
		c.Label("%s", l)
	}
	c.NonTrivial(len(classes) >= 3)
}
