package harness

import (
	"math"

	"pgregory.net/rapid"
)

func genSplits(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "splitkind") {
	case 0:
		return rapid.IntRange(-2, 1).Draw(t, "size")
	case 1:
		return rapid.IntRange(17, rapid.SampledFrom([]int{70, 70, 70, 400}).Draw(t, "maxsize")).Draw(t, "size")
	case 2, 3, 4:
		return rapid.IntRange(1, 4).Draw(t, "size")
	}
	return rapid.IntRange(2, 16).Draw(t, "size")
}

func genKeys(t *rapid.T, lo, hi int) []KeySpec {
	n := rapid.IntRange(lo, hi).Draw(t, "nkeys")
	span := rapid.SampledFrom([]int{1, 3, 20}).Draw(t, "hashspan")
	ks := make([]KeySpec, n)
	for i := range ks {
		k := KeySpec{T: rapid.IntRange(0, 3).Draw(t, "t"), ID: rapid.IntRange(0, 3).Draw(t, "id")}
		if rapid.IntRange(0, 7).Draw(t, "hashkind") == 0 {
			k.H = rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1 << 32, 1<<32 - 1, 0xdeadbeefcafebabe}).Draw(t, "hash")
		} else {
			k.H = uint64(rapid.IntRange(0, span).Draw(t, "hash"))
		}
		ks[i] = k
	}
	return ks
}

// genManyKeys draws a larger set with distinct identities.
func genManyKeys(t *rapid.T, hi int) []KeySpec {
	n := rapid.IntRange(0, hi).Draw(t, "nkeys")
	span := rapid.SampledFrom([]int{1, 8, 64, 1 << 40}).Draw(t, "hashspan")
	seed := rapid.IntRange(0, 1<<20).Draw(t, "keyseed")
	ks := make([]KeySpec, n)
	for i := range ks {
		r := mix(uint64(seed) + uint64(i)*7919)
		ks[i] = KeySpec{T: int(r>>60) % 2, H: (r >> 3) % uint64(span), ID: i}
	}
	return ks
}

// genFill draws the number of entries that are stored beforehand.
func genFill(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 20, 300}).Draw(t, "fill")
}

func genInit(t *rapid.T, n int) []int {
	return rapid.SliceOfN(rapid.IntRange(0, max(0, n-1)), 0, 6).Draw(t, "init")
}

func genMapOp(t *rapid.T, nkeys int, depth int) MapOp {
	op := MapOp{
		Op: rapid.SampledFrom(mapOps).Draw(t, "op"),
		K:  rapid.IntRange(0, nkeys-1).Draw(t, "k"),
		V:  rapid.IntRange(0, len(valueTable)+5).Draw(t, "v"),
	}
	if op.Op == "Modify" || op.Op == "Split" {
		op.Mod = rapid.IntRange(0, 4).Draw(t, "mod")
	}
	if depth > 0 && rapid.IntRange(0, 2).Draw(t, "nest") == 0 {
		m := rapid.IntRange(1, 3).Draw(t, "nnested")
		for i := 0; i < m; i++ {
			op.Nested = append(op.Nested, genMapOp(t, nkeys, 0))
		}
	}
	return op
}

func genThreads(t *rapid.T, nkeys, threads, ops int) [][]MapOp {
	k := rapid.IntRange(2, threads).Draw(t, "threads")
	ths := make([][]MapOp, k)
	hot := rapid.IntRange(0, nkeys-1).Draw(t, "hot")
	for i := range ths {
		m := rapid.IntRange(1, ops).Draw(t, "nops")
		for j := 0; j < m; j++ {
			op := genMapOp(t, nkeys, 0)
			op.V = 0
			if rapid.Bool().Draw(t, "onhot") {
				op.K = hot
			}
			ths[i] = append(ths[i], op)
		}
	}
	return ths
}

func anyProcs(t *rapid.T) int { return rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs") }

func genAgg(t *rapid.T, fams ...string) *MapAggCase {
	cs := &MapAggCase{Fam: rapid.SampledFrom(fams).Draw(t, "fam"), Size: genSplits(t), Fill: rapid.SampledFrom([]int{0, 3, 50}).Draw(t, "fill")}
	if cs.Fam == "spec" {
		cs.Fn = rapid.SampledFrom(aggSpecFns).Draw(t, "fn")
	} else {
		cs.Fn = rapid.SampledFrom(aggFns).Draw(t, "fn")
	}
	return cs
}

func aggEvents(t *rapid.T, cs *MapAggCase, panics, stops bool) {
	k := rapid.IntRange(1, 3).Draw(t, "nevents")
	hi := max(0, cs.Size-1)
	for i := 0; i < k; i++ {
		e := FnEvent{P: rapid.IntRange(0, hi).Draw(t, "at")}
		if panics && (!stops || rapid.Bool().Draw(t, "ispanic")) {
			e.Panic = true
			e.Kind = rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
		}
		cs.Events = append(cs.Events, e)
	}
}

func init() {
	executor("mapseq", execMapSeq)
	executor("mapagg", execMapAgg)
	executor("mapconc", execMapConc)
	executor("mapstorm", execMapStorm)
	executor("maplock", execMapLock)
	executor("mapexcl", execMapExcl)
	executor("maptrav", execMapTrav)
	executor("mappanic", execMapPanic)

	register(&Campaign{Prop: "M01", Name: "map-model", Exec: "mapseq", Quick: 20000, Thorough: 400000, Gen: func(t *rapid.T) any {
		cs := &MapSeqCase{Size: genSplits(t), Procs: rapid.SampledFrom([]int{1, 3, 8}).Draw(t, "procs"), Keys: genKeys(t, 1, 8), Fill: genFill(t)}
		n := rapid.IntRange(1, 30).Draw(t, "nops")
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			if many := genManyKeys(t, 80); len(many) > 0 {
				cs.Keys = many
			}
			n = rapid.IntRange(30, 300).Draw(t, "nops")
		}
		for i := 0; i < n; i++ {
			cs.Ops = append(cs.Ops, genMapOp(t, len(cs.Keys), 1))
		}
		return cs
	}})

	conc := func(t *rapid.T, threads, ops int) *MapConcCase {
		cs := &MapConcCase{Size: genSplits(t), Keys: genKeys(t, 1, 4)}
		cs.Init = genInit(t, len(cs.Keys))
		cs.Threads = genThreads(t, len(cs.Keys), threads, ops)
		return cs
	}
	register(&Campaign{Prop: "M02", Name: "map-linear-gated", Exec: "mapconc", Quick: 8000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := conc(t, 4, 4)
		cs.Plan = genPlan(t, 30)
		return cs
	}})
	register(&Campaign{Prop: "M02", Name: "map-linear-free", Exec: "mapconc", Race: true, Quick: 3000, Thorough: 60000, Gen: func(t *rapid.T) any {
		cs := conc(t, 6, 5)
		cs.Free = true
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		return cs
	}})
	storm := func(t *rapid.T, rounds int) *MapStormCase {
		cs := &MapStormCase{Size: genSplits(t), Rounds: rounds, Procs: freeProcs(t), Held: rapid.Bool().Draw(t, "held"), Pert: genPert(t)}
		n := rapid.IntRange(2, 8).Draw(t, "threads")
		k := rapid.IntRange(0, 3).Draw(t, "kind")
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				cs.Ops = append(cs.Ops, rapid.IntRange(0, 1).Draw(t, "op"))
			case 1:
				cs.Ops = append(cs.Ops, 2)
			case 2:
				cs.Ops = append(cs.Ops, rapid.IntRange(3, 4).Draw(t, "op"))
			default:
				cs.Ops = append(cs.Ops, rapid.IntRange(0, 4).Draw(t, "op"))
			}
		}
		cs.Threads = n
		return cs
	}
	register(&Campaign{Prop: "M02", Name: "map-storm", Exec: "mapstorm", Quick: 600, Thorough: 10000, Gen: func(t *rapid.T) any { return storm(t, 40) }})
	register(&Campaign{Prop: "M02", Name: "map-storm-race", Exec: "mapstorm", Race: true, Quick: 600, Thorough: 10000, Gen: func(t *rapid.T) any { return storm(t, 15) }})

	register(&Campaign{Prop: "M03", Name: "map-locks", Exec: "maplock", Quick: 15000, Thorough: 200000, Gen: func(t *rapid.T) any {
		cs := &MapLockCase{Size: genSplits(t), Fill: genFill(t), Keys: genKeys(t, 1, 8), Procs: anyProcs(t)}
		cs.Init = genInit(t, len(cs.Keys))
		cs.Op = genMapOp(t, len(cs.Keys), 0)
		if rapid.Bool().Draw(t, "traversal") {
			cs.Op.Op = rapid.SampledFrom([]string{"Range", "ParallelRange", "SpeculativeRange", "And", "Or", "ReduceInt", "ParallelAnd", "ParallelReduce"}).Draw(t, "traversal")
		} else {
			cs.Op.Op = rapid.SampledFrom([]string{"Load", "LoadOrStore", "LoadOrCompute", "Delete", "DeleteOrStore", "DeleteOrCompute", "DeleteOrCompute", "Modify", "Modify", "LoadOrCompute"}).Draw(t, "op")
		}
		cs.At = rapid.IntRange(0, 20+cs.Fill).Draw(t, "at")
		m := rapid.IntRange(0, 4).Draw(t, "nothers")
		for i := 0; i < m; i++ {
			cs.Others = append(cs.Others, genMapOp(t, len(cs.Keys), 0))
		}
		return cs
	}})
	register(&Campaign{Prop: "M03", Name: "map-exclusive", Exec: "mapexcl", Race: true, Quick: 2000, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := &MapExclCase{Size: genSplits(t), Fill: genFill(t) / 3, Keys: genKeys(t, 1, 8), Procs: freeProcs(t), Pert: genPert(t)}
		cs.Init = genInit(t, len(cs.Keys))
		cs.Threads = genThreads(t, len(cs.Keys), 4, 4)
		for i := range cs.Threads {
			for j := range cs.Threads[i] {
				if rapid.Bool().Draw(t, "traversal") {
					cs.Threads[i][j].Op = rapid.SampledFrom([]string{"Range", "ParallelRange", "SpeculativeRange", "And", "Or", "ParallelAnd", "ParallelOr", "SpeculativeAnd", "SpeculativeOr", "Reduce", "ParallelReduce", "SpeculativeReduce"}).Draw(t, "traversal")
					cs.Threads[i][j].Mod = rapid.IntRange(0, 1).Draw(t, "mod")
				}
			}
		}
		return cs
	}})
	register(&Campaign{Prop: "M03", Name: "map-agg-locks", Exec: "mapagg", Quick: 4000, Thorough: 80000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "seq", "par", "spec")
		cs.Plan = genPlan(t, 20)
		cs.Odd = genOdd(t, max(1, cs.Size), cs.Events)
		return cs
	}})

	trav := func(t *rapid.T) *MapTravCase {
		cs := &MapTravCase{Fn: rapid.SampledFrom([]string{"Range", "ParallelRange", "SpeculativeRange", "SpeculativeRange"}).Draw(t, "fn"), Size: genSplits(t)}
		if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
			cs.Keys = genManyKeys(t, 300)
		} else {
			cs.Keys = genKeys(t, 0, 10)
		}
		cs.Stable = len(cs.Keys)
		return cs
	}
	register(&Campaign{Prop: "M04", Name: "map-range-gated", Exec: "maptrav", Quick: 10000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := trav(t)
		cs.Plan = genPlan(t, 20)
		if len(cs.Keys) == 0 {
			return cs
		}
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
		case 1, 2:
			cs.FalseAt = rapid.SliceOfN(rapid.IntRange(0, len(cs.Keys)-1), 1, 4).Draw(t, "false")
			cs.Block = rapid.Bool().Draw(t, "block")
		default:
			cs.Stable = rapid.IntRange(0, len(cs.Keys)).Draw(t, "stable")
			cs.Init = genInit(t, len(cs.Keys))
			cs.Threads = genThreads(t, len(cs.Keys), 3, 5)
		}
		return cs
	}})
	register(&Campaign{Prop: "M04", Name: "map-range-free", Exec: "maptrav", Race: true, Quick: 2500, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := trav(t)
		cs.Free = true
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		if len(cs.Keys) > 0 && rapid.Bool().Draw(t, "mutate") {
			cs.Stable = rapid.IntRange(0, len(cs.Keys)).Draw(t, "stable")
			cs.Init = genInit(t, len(cs.Keys))
			cs.Threads = genThreads(t, len(cs.Keys), 4, 8)
		}
		return cs
	}})

	register(&Campaign{Prop: "M05", Name: "map-agg-gated", Exec: "mapagg", Quick: 15000, Thorough: 300000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "seq", "par", "spec", "spec")
		cs.Plan = genPlan(t, 20)
		switch k := rapid.IntRange(0, 4).Draw(t, "what"); {
		case k == 0:
		case k == 1 && hasJoin(cs.Fn) && cs.Fam == "spec":
			cs.Join = &FnEvent{P: rapid.IntRange(0, 30).Draw(t, "joinat")}
		default:
			aggEvents(t, cs, false, true)
		}
		cs.Odd = genOdd(t, max(1, cs.Size), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "M05", Name: "map-agg-free", Exec: "mapagg", Race: true, Quick: 3000, Thorough: 40000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "par", "spec")
		cs.Free = true
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		if rapid.Bool().Draw(t, "decide") {
			aggEvents(t, cs, false, true)
		}
		return cs
	}})
	register(&Campaign{Prop: "P07", Name: "map-nowait", Exec: "mapagg", Quick: 3000, Thorough: 60000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "spec")
		cs.Plan = genPlan(t, 20)
		aggEvents(t, cs, false, true)
		first := cs.Events[0].P
		for _, e := range cs.Events {
			first = min(first, e.P)
		}
		if first+1 < cs.Size {
			k := rapid.IntRange(0, 2).Draw(t, "nright")
			for i := 0; i < k; i++ {
				cs.Events = append(cs.Events, FnEvent{P: rapid.IntRange(first+1, cs.Size-1).Draw(t, "right"), Panic: true, Kind: rapid.IntRange(0, panicKinds-1).Draw(t, "kind")})
			}
			for p := first + 1; p < cs.Size; p++ {
				if rapid.IntRange(0, 2).Draw(t, "blocks") > 0 {
					cs.Block = append(cs.Block, p)
				}
			}
		}
		cs.Odd = genOdd(t, max(1, cs.Size), cs.Events)
		return cs
	}})

	register(&Campaign{Prop: "M06", Name: "map-panic-ops", Exec: "mappanic", Quick: 15000, Thorough: 200000, Gen: func(t *rapid.T) any {
		cs := &MapPanicCase{Size: genSplits(t), Fill: genFill(t), Keys: genKeys(t, 1, 6), Procs: anyProcs(t)}
		n := rapid.IntRange(1, 15).Draw(t, "nops")
		for i := 0; i < n; i++ {
			op := genMapOp(t, len(cs.Keys), 0)
			if op.Op == "Split" {
				op.Op = "Modify"
			}
			if rapid.Bool().Draw(t, "panics") {
				op.Panic = 1 + rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
			}
			cs.Ops = append(cs.Ops, op)
		}
		return cs
	}})
	register(&Campaign{Prop: "M06", Name: "map-badkey", Exec: "mappanic", Quick: 10000, Thorough: 150000, Gen: func(t *rapid.T) any {
		cs := &MapPanicCase{Size: genSplits(t), Fill: genFill(t), Keys: genKeys(t, 1, 6), Procs: anyProcs(t)}
		n := rapid.IntRange(1, 12).Draw(t, "nops")
		for i := 0; i < n; i++ {
			op := genMapOp(t, len(cs.Keys), 0)
			if op.Op == "Split" {
				op.Op = "Modify"
			}
			if rapid.Bool().Draw(t, "bad") {
				op.Bad = 1 + rapid.IntRange(0, badKeys-1).Draw(t, "badkind")
			}
			cs.Ops = append(cs.Ops, op)
		}
		return cs
	}})
	register(&Campaign{Prop: "M06", Name: "map-panic-agg", Exec: "mapagg", Quick: 10000, Thorough: 200000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "seq", "par", "spec")
		cs.Plan = genPlan(t, 20)
		if hasJoin(cs.Fn) && rapid.IntRange(0, 4).Draw(t, "joinpanic") == 0 {
			cs.Join = &FnEvent{P: rapid.IntRange(0, 30).Draw(t, "joinat"), Panic: true, Kind: rapid.IntRange(0, panicKinds-1).Draw(t, "kind")}
		} else {
			aggEvents(t, cs, true, rapid.IntRange(0, 3).Draw(t, "mix") == 0)
		}
		cs.Odd = genOdd(t, max(1, cs.Size), cs.Events)
		return cs
	}})
	register(&Campaign{Prop: "M06", Name: "map-panic-agg-free", Exec: "mapagg", Race: true, Quick: 2000, Thorough: 30000, Gen: func(t *rapid.T) any {
		cs := genAgg(t, "par")
		cs.Free = true
		cs.Pert = genPert(t)
		cs.Plan.Procs = freeProcs(t)
		aggEvents(t, cs, true, false)
		return cs
	}})
	register(&Campaign{Prop: "M06", Name: "map-panic-range", Exec: "maptrav", Quick: 6000, Thorough: 100000, Gen: func(t *rapid.T) any {
		cs := trav(t)
		cs.Plan = genPlan(t, 20)
		if len(cs.Keys) > 0 {
			cs.PanicAt = rapid.IntRange(1, len(cs.Keys)).Draw(t, "panicat")
			cs.Kind = rapid.IntRange(0, panicKinds-1).Draw(t, "kind")
		}
		return cs
	}})
}
