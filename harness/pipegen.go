package harness

import "pgregory.net/rapid"

var nodeKinds = []string{"ord", "ord", "seq", "seq", "par", "par", "par", "lpar", "lpar", "strict", "newseq", "neword", "newpar", "uinline", "upar", "uqueue"}

func genPFilter(t *rapid.T, outs, fins bool) PFilter {
	f := PFilter{Recv: rapid.IntRange(0, 5).Draw(t, "recv") != 0}
	if fins {
		f.Fin = rapid.IntRange(0, 2).Draw(t, "fin") == 0
	}
	if outs && f.Recv {
		f.Outs = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 3).Draw(t, "outs")
	}
	return f
}

func genNodes(t *rapid.T, kinds []string, maxNodes int, outs, fins bool) (ns []PNode) {
	least := 1
	switch rapid.IntRange(0, 5).Draw(t, "mix") {
	case 4: // nodes that hold back or overtake, and nodes that wait for an order
		kinds, least = []string{"strict", "par", "lpar"}, min(4, maxNodes)
	case 5:
		kinds, least = []string{"strict", "par", "lpar", "seq", "ord"}, min(3, maxNodes)
	}
	k := rapid.IntRange(least, maxNodes).Draw(t, "nnodes")
	for i := 0; i < k; i++ {
		n := PNode{Kind: rapid.SampledFrom(kinds).Draw(t, "node")}
		if n.Kind == "lpar" {
			n.Limit = rapid.SampledFrom([]int{0, 1, 2, 2, 3, 5}).Draw(t, "limit")
		}
		nf := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 0}).Draw(t, "nfilters")
		for j := 0; j < nf; j++ {
			n.Filters = append(n.Filters, genPFilter(t, outs, fins))
		}
		ns = append(ns, n)
	}
	return
}

func genPipe(t *rapid.T, check string, maxNodes, maxN int, fins bool) *PipeCase {
	cs := &PipeCase{Check: check}
	cs.Nodes = genNodes(t, nodeKinds, maxNodes, check == "L01", fins)
	cs.Src = rapid.SampledFrom([]string{"known", "known", "unknown", "func"}).Draw(t, "src")
	cs.N = rapid.IntRange(0, maxN).Draw(t, "n")
	switch rapid.IntRange(0, 2).Draw(t, "batching") {
	case 0: // one element per batch
		cs.NofB, cs.Inc, cs.Max = max(1, cs.N), 1, 1
	case 1:
		cs.NofB, cs.Inc, cs.Max = rapid.IntRange(0, 8).Draw(t, "nofb"), rapid.IntRange(0, 3).Draw(t, "inc"), rapid.IntRange(0, 6).Draw(t, "max")
	default:
		cs.NofB, cs.Inc, cs.Max = rapid.IntRange(2, 8).Draw(t, "nofb"), 1, rapid.IntRange(1, 3).Draw(t, "max")
		cs.Short = rapid.IntRange(0, 2).Draw(t, "short")
	}
	cs.OneAdd = rapid.Bool().Draw(t, "oneadd")
	cs.Reuse = rapid.IntRange(0, 2).Draw(t, "reuse") == 2
	cs.WithCtx = rapid.IntRange(0, 2).Draw(t, "withctx") == 0
	cs.Plan = genPlan(t, 60)
	return cs
}

func (cs *PipeCase) nfilters() int {
	n := 0
	for _, x := range cs.Nodes {
		n += len(x.Filters)
	}
	return n
}

// recvFilters lists the filters with a receiver.
func (cs *PipeCase) recvFilters() (fs []int) {
	f := 0
	for _, x := range cs.Nodes {
		for _, y := range x.Filters {
			if y.Recv {
				fs = append(fs, f)
			}
			f++
		}
	}
	return
}

func genPEvent(t *rapid.T, cs *PipeCase, acts []string, ats []string) PEvent {
	e := PEvent{At: rapid.SampledFrom(ats).Draw(t, "at"), Act: rapid.SampledFrom(acts).Draw(t, "act")}
	rf := cs.recvFilters()
	if e.At == "recv" && len(rf) == 0 {
		e.At = "outside"
	}
	switch e.At {
	case "recv":
		e.F = rapid.SampledFrom(rf).Draw(t, "f")
		e.B = rapid.IntRange(0, max(0, min(cs.N-1, 6))).Draw(t, "b")
	case "fetch":
		e.B = rapid.IntRange(0, 5).Draw(t, "k")
	case "setup", "fin":
		e.F = rapid.IntRange(0, max(0, cs.nfilters()-1)).Draw(t, "f")
	case "outside":
		e.B = rapid.IntRange(0, 12).Draw(t, "delay")
		e.F = rapid.SampledFrom([]int{0, 100, 1000, 5000, 20000}).Draw(t, "spin")
	}
	return e
}

func genPipeRace(t *rapid.T, check string) *PipeCase {
	cs := genPipe(t, check, 5, 16, true)
	cs.Plan = Plan{Procs: freeProcs(t)}
	cs.Pert = genPert(t)
	return cs
}

// genPipeLong draws a pipeline with many batches, for free runs.
func genPipeLong(t *rapid.T, check string, fins bool) *PipeCase {
	cs := genPipe(t, check, 6, 12, fins)
	cs.N = rapid.IntRange(40, 600).Draw(t, "n")
	cs.NofB, cs.Inc, cs.Max = cs.N, rapid.IntRange(1, 2).Draw(t, "inc"), rapid.IntRange(1, 4).Draw(t, "max")
	if rapid.IntRange(0, 3).Draw(t, "fewer") == 0 {
		cs.NofB = rapid.IntRange(10, cs.N).Draw(t, "nofb")
	}
	cs.Free, cs.Iters = true, 1
	cs.Plan = Plan{Procs: freeProcs(t)}
	cs.Pert = genPert(t)
	return cs
}

var cancelActs = []string{"cancel", "ctx", "err"}

func genCancel(t *rapid.T, free bool) *PipeCase {
	cs := genPipe(t, "L05", 5, 24, true)
	for i := range cs.Nodes {
		// More of the nodes that wait for an order.
		if rapid.IntRange(0, 4).Draw(t, "stricter") == 0 {
			cs.Nodes[i].Kind = "strict"
		}
	}
	cs.Src = rapid.SampledFrom([]string{"known", "unknown", "inf", "inf", "func", "chan", "chanopen", "single", "singleopen"}).Draw(t, "src2")
	switch cs.Src {
	case "chan", "chanopen", "single", "singleopen":
		if rapid.Bool().Draw(t, "buffered") {
			cs.Cap = rapid.IntRange(1, 30).Draw(t, "cap")
		}
	}
	cs.Free = free
	cs.CtxKind = rapid.SampledFrom([]string{"", "", "late", "own", "child", "cause"}).Draw(t, "ctxkind")
	cs.CtxGate = !free && cs.WithCtx && rapid.Bool().Draw(t, "ctxgate")
	k := rapid.IntRange(1, 3).Draw(t, "nevents")
	for i := 0; i < k; i++ {
		cs.Events = append(cs.Events, genPEvent(t, cs, cancelActs, []string{"recv", "recv", "recv", "fetch", "outside", "outside", "setup", "fin"}))
	}
	if rapid.IntRange(0, 15).Draw(t, "pre") == 0 {
		cs.Events = append(cs.Events, PEvent{At: "pre", Act: "ctx"})
		cs.WithCtx = true
	}
	switch cs.Src {
	case "inf", "chanopen", "singleopen":
		// Something has to end the run.
		cs.Events = append(cs.Events, PEvent{At: "outside", Act: rapid.SampledFrom(cancelActs).Draw(t, "lastact"), B: rapid.IntRange(0, 30).Draw(t, "delay"), F: 100})
	}
	if free {
		cs.Plan = Plan{Procs: freeProcs(t)}
		cs.Pert = genPert(t)
		cs.Iters = 10
	}
	return cs
}

// genPipeBurst draws a pipeline with many batches which pile up at the gates
// before the first of them is released.
func genPipeBurst(t *rapid.T, check string) *PipeCase {
	cs := genPipe(t, check, 4, 12, check == "L04")
	for i := range cs.Nodes {
		if n := &cs.Nodes[i]; n.Kind == "lpar" {
			n.Limit = rapid.SampledFrom([]int{0, 2, 7, 40, 130, 300, 1000}).Draw(t, "biglimit")
		}
	}
	cs.N = rapid.IntRange(30, 300).Draw(t, "n")
	cs.Src = rapid.SampledFrom([]string{"known", "unknown"}).Draw(t, "src2")
	cs.NofB, cs.Inc, cs.Max, cs.Short = cs.N, 1, 1, 0
	cs.Plan.First, cs.Plan.Settle = rapid.SampledFrom([]int{0, 100, 1000, 1000}).Draw(t, "first"), rapid.IntRange(0, 2).Draw(t, "settle2")
	if rapid.IntRange(0, 3).Draw(t, "nochoices") != 0 {
		cs.Plan.Choices = nil
	}
	return cs
}

// addPair inserts something parallel in front of something ordered.
func addPair(t *rapid.T, cs *PipeCase) {
	at := rapid.IntRange(0, len(cs.Nodes)).Draw(t, "at")
	pair := []PNode{
		{Kind: rapid.SampledFrom([]string{"par", "newpar", "lpar", "upar"}).Draw(t, "before"), Limit: 3, Filters: []PFilter{{Recv: true}}},
		{Kind: rapid.SampledFrom([]string{"ord", "neword", "strict"}).Draw(t, "after"), Filters: []PFilter{{Recv: true}}},
	}
	if rapid.Bool().Draw(t, "between") {
		pair = append(pair[:1:1], PNode{Kind: rapid.SampledFrom(nodeKinds).Draw(t, "mid"), Limit: rapid.IntRange(0, 3).Draw(t, "midlimit"), Filters: []PFilter{genPFilter(t, false, false)}}, pair[1])
	}
	cs.Nodes = append(cs.Nodes[:at:at], append(pair, cs.Nodes[at:]...)...)
}

// addRend makes receivers of some parallel nodes wait for each other.
func addRend(t *rapid.T, cs *PipeCase) {
	f := 0
	for i := range cs.Nodes {
		n := &cs.Nodes[i]
		if k := n.Kind; k == "par" || k == "newpar" || k == "lpar" && n.Limit != 1 {
			for j := range n.Filters {
				if n.Filters[j].Recv && rapid.Bool().Draw(t, "rend") {
					cs.Rend = append(cs.Rend, f+j)
					break
				}
			}
		}
		f += len(n.Filters)
	}
}

func init() {
	for _, p := range []string{"L01", "L02", "L03", "L04"} {
		register(&Campaign{Prop: p, Name: "pipe-burst", Exec: "pipe", Quick: 160, Thorough: 4000, Gen: func(t *rapid.T) any {
			cs := genPipeBurst(t, p)
			switch p {
			case "L02":
				addPair(t, cs)
			case "L03":
				addRend(t, cs)
			}
			return cs
		}})
	}
	register(&Campaign{Prop: "L01", Name: "pipe-once", Exec: "pipe", Quick: 1600, Thorough: 60000, Gen: func(t *rapid.T) any {
		return genPipe(t, "L01", 7, 14, false)
	}})
	for _, p := range []string{"L01", "L02", "L03", "L04"} {
		register(&Campaign{Prop: p, Name: "pipe-long", Exec: "pipe", Quick: 400, Thorough: 12000, Gen: func(t *rapid.T) any {
			return genPipeLong(t, p, p == "L04")
		}})
	}
	register(&Campaign{Prop: "L01", Name: "pipe-memory", Exec: "piperace", Race: true, Quick: 1200, Thorough: 40000, Gen: func(t *rapid.T) any {
		return genPipeRace(t, "L01")
	}})
	register(&Campaign{Prop: "L02", Name: "pipe-order", Exec: "pipe", Quick: 2000, Thorough: 80000, Gen: func(t *rapid.T) any {
		cs := genPipe(t, "L02", 4, 14, false)
		addPair(t, cs)
		if rapid.IntRange(0, 3).Draw(t, "disturbed") == 0 {
			cs.Events = append(cs.Events, genPEvent(t, cs, cancelActs, []string{"recv", "fetch", "outside"}))
		}
		return cs
	}})
	register(&Campaign{Prop: "L03", Name: "pipe-bounds", Exec: "pipe", Quick: 1600, Thorough: 60000, Gen: func(t *rapid.T) any {
		return genPipe(t, "L03", 6, 14, false)
	}})
	register(&Campaign{Prop: "L03", Name: "pipe-rendezvous", Exec: "pipe", Quick: 1200, Thorough: 50000, Gen: func(t *rapid.T) any {
		cs := genPipe(t, "L03", 5, 12, false)
		cs.Src = rapid.SampledFrom([]string{"known", "unknown"}).Draw(t, "src2")
		cs.N = max(2, cs.N)
		cs.NofB, cs.Inc, cs.Max, cs.Short = cs.N, 1, 1, 0
		addRend(t, cs)
		return cs
	}})
	register(&Campaign{Prop: "L04", Name: "pipe-final", Exec: "pipe", Quick: 2000, Thorough: 80000, Gen: func(t *rapid.T) any {
		cs := genPipe(t, "L04", 6, 12, true)
		if rapid.IntRange(0, 3).Draw(t, "disturbed") == 0 {
			cs.Events = append(cs.Events, genPEvent(t, cs, []string{"cancel", "ctx"}, []string{"recv", "fetch", "outside"}))
		}
		return cs
	}})
	register(&Campaign{Prop: "L04", Name: "pipe-final-memory", Exec: "piperace", Race: true, Quick: 800, Thorough: 30000, Gen: func(t *rapid.T) any {
		cs := genPipeRace(t, "L04")
		if rapid.IntRange(0, 3).Draw(t, "disturbed") == 0 {
			cs.Events = append(cs.Events, genPEvent(t, cs, []string{"cancel", "ctx"}, []string{"recv", "fetch", "outside"}))
		}
		return cs
	}})
	register(&Campaign{Prop: "L05", Name: "pipe-cancel", Exec: "pipe", Quick: 2400, Thorough: 90000, Gen: func(t *rapid.T) any {
		return genCancel(t, false)
	}})
	register(&Campaign{Prop: "L05", Name: "pipe-cancel-free", Exec: "pipe", Quick: 1600, Thorough: 60000, Gen: func(t *rapid.T) any {
		return genCancel(t, true)
	}})
	register(&Campaign{Prop: "L05", Name: "pipe-cancel-race", Exec: "piperace", Race: true, Quick: 800, Thorough: 30000, Gen: func(t *rapid.T) any {
		return genCancel(t, true)
	}})
	register(&Campaign{Prop: "L06", Name: "pipe-errors", Exec: "pipe", Quick: 2400, Thorough: 90000, Gen: func(t *rapid.T) any {
		cs := genPipe(t, "L06", 5, 12, true)
		genErrors(t, cs)
		return cs
	}})
	register(&Campaign{Prop: "L06", Name: "pipe-errors-race", Exec: "piperace", Race: true, Quick: 800, Thorough: 30000, Gen: func(t *rapid.T) any {
		cs := genPipeRace(t, "L06")
		genErrors(t, cs)
		return cs
	}})
}

func genErrors(t *rapid.T, cs *PipeCase) {
	k := rapid.IntRange(0, 6).Draw(t, "nevents")
	step := rapid.IntRange(0, 3).Draw(t, "step") // 0: the same error again and again
	first := rapid.IntRange(0, 7).Draw(t, "e")
	for i := 0; i < k; i++ {
		e := genPEvent(t, cs, []string{"err"}, []string{"recv", "recv", "recv", "recv", "fetch", "outside", "outside", "fin"})
		if rapid.IntRange(0, 14).Draw(t, "setup") == 0 {
			e = genPEvent(t, cs, []string{"err"}, []string{"setup"})
		}
		if e.At == "fetch" {
			e.Act = "reterr"
			e.F = rapid.IntRange(0, 1).Draw(t, "withdata")
		}
		e.E = first + i*step
		cs.Events = append(cs.Events, e)
	}
	if rapid.IntRange(0, 9).Draw(t, "alsocancel") == 0 {
		cs.Events = append(cs.Events, genPEvent(t, cs, []string{"cancel"}, []string{"recv", "outside"}))
	}
}
