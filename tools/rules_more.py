MORE = {
 "S01": ("property-based testing: generated contents (adversarial patterns, NaN, infinities), differential oracle against Go's sort package and a permutation check",
   "the collection is at least as large as the grain size of the parallel algorithm (1280); distinct = distinct generated case"),
 "S02": ("property-based testing: generated contents with many equal keys, differential oracle against a sequential stable sort",
   "the collection is at least as large as the grain size of the parallel algorithm (12288); distinct = distinct generated case"),
 "S03": ("property-based testing: single descents at every position, differential oracle against the definition",
   "the collection has at least 1280 elements and at least one question has the answer false; distinct = distinct generated case"),
 "S04": ("property-based testing: guarded collections that check every access, generated schedules, race detector",
   "the collection reaches the grain size of its algorithm, and in scheduled runs at least two accesses were in progress at once; distinct = distinct generated case"),
}
MORE.update({
 "M01": ("property-based testing (model-based): generated operation sequences against an ordinary map as reference model",
   "the history has at least three different operation/outcome classes; distinct = distinct generated case"),
 "M02": ("property-based testing: generated concurrent histories (gate-scheduled and free-running under the race detector) decided by a linearizability checker, plus contention storms with conservation laws",
   "operations on the same key overlapped in time (histories), or at least two threads took part (storms); distinct = distinct generated case"),
 "M03": ("property-based testing: generated operations whose callbacks probe every split's lock and run operations on other splits; race detector for mutual exclusion",
   "the callback ran and the map has at least two splits, or at least two threads took part; distinct = distinct generated case"),
 "M04": ("property-based testing: generated maps, stop positions, schedules and concurrent mutation, visit-count oracle",
   "the map has at least two splits and two entries known to be present; distinct = distinct generated case"),
 "M05": ("property-based testing: generated decisive splits and schedules, interval-algebra oracle over the split order",
   "the map has at least two splits; distinct = distinct generated case"),
 "M07": ("property-based testing: generated rendezvous patterns between callbacks on different splits; deadlock reported exactly by the Go runtime",
   "at least two splits wait for each other's callbacks; distinct = distinct generated case"),
 "M06": ("property-based testing with injected panics, followed by lock probes and a content comparison",
   "a callback panicked (single-key operations), or the map has at least two splits; distinct = distinct generated case"),
})
MORE.update({
 "L01": ("property-based testing: generated topologies, batchings, transformations and schedules, per-batch data-flow oracle; race detector for visibility",
   "at least two batches and two receivers (scheduled runs), at least two batches (race runs); distinct = distinct generated case"),
 "L02": ("property-based testing: generated topologies, overtaking schedules and cancellation points, gapless-sequence oracle",
   "an ordered filter exists and at least two batches were inside a parallel node at once; distinct = distinct generated case"),
 "L03": ("property-based testing: generated topologies with suspended receivers (concurrency counters) and rendezvous; deadlock reported exactly by the Go runtime",
   "at least two batches and a receiver; distinct = distinct generated case"),
 "L04": ("property-based testing: generated topologies, schedules and cancellations, event-order oracle; race detector for visibility",
   "the pipeline has a finalizer (scheduled runs), at least two batches (race runs); distinct = distinct generated case"),
 "L05": ("property-based testing with injected cancellations and errors at generated points; deadlocks and leaks recognised exactly",
   "a cancellation happened and a receiver was called (scheduled and free runs), at least two batches (race runs); distinct = distinct generated case"),
 "L06": ("property-based testing with injected errors from several goroutines, first-wins oracle; race detector",
   "at least two SetErr calls, or an error of the source, or one SetErr call with receivers running; distinct = distinct generated case"),
 "L07": ("property-based testing: generated sources of every kind with spoiling receivers, contents oracle (bufio.Scanner as reference for scanners); race detector",
   "at least two batches, or a failing source; distinct = distinct generated case"),
 "L08": ("property-based testing: generated sizes and settings including extremes, arithmetic oracle on the requests seen by the source",
   "more than one element (known size) or more than one request (unknown size); distinct = distinct generated case"),
 "L09": ("property-based testing: generated filter chains against the list model, scheduled and under the race detector",
   "the chain has a counting, collecting or cutting stage and the source at least two elements, or set-up has to fail; distinct = distinct generated case"),
 "L10": ("property-based testing: generated deciding batches, node kinds and schedules, fold over the recorded predicate calls as oracle; race detector",
   "at least two batches and a deciding one; distinct = distinct generated case"),
})
MORE.update({
 "S05": ("property-based testing with injected panics in the methods of the collection, under generated schedules and free; surfaced-panic oracle",
   "a method panicked, or the collection reaches the grain size of its algorithm; distinct = distinct generated case"),
 "L11": ("property-based testing: generated pipelines with a recording source, recording nodes and filters, and generated contexts, cancellations and errors; protocol oracle",
   "at least two nodes and two batches, or an error set before the run; distinct = distinct generated case"),
})
MORE.update({
 "C01": ("property-based testing: generated programs of nested and concurrent uses of all packages, each with its own result oracle; deadlock and leaks recognised exactly by the Go runtime; race detector",
   "more than one thread, or jobs nested in callbacks; distinct = distinct generated case"),
})
MORE.update({
 "S06": ("property-based testing (model-based): generated histories of method calls on windows of shared arrays, ordinary Go slices as reference model; race detector for disjoint concurrent calls",
   "at least two elements were sorted or assigned; distinct = distinct generated case"),
})
