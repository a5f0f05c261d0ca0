From 782c9b054496aa47ec8262e596c889635505796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 01/26] fix: reject a negative batch count for empty ranges

All Range functions are documented to panic if n < 0, but they silently
accepted a negative n when low == high.
---
 internal/internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..48981c0 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -24,6 +24,9 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 			batches = size
 		}
 	case size == 0:
+		if n < 0 {
+			panic(fmt.Sprintf("invalid number of batches: %v", n))
+		}
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
-- 
2.43.0


From 32109a44ff31dea9cbbcc50f869c8ac8ebe0f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 02/26] fix: do not access data after IsSorted has returned

IsSorted used speculative.And, so goroutines could still be comparing
elements after IsSorted had returned false, which raced with the swaps of
Sort and with modifications by the caller.
---
 sort/sort.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..2eacb5a 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,17 +42,17 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		return parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-		return result
 	}
 	return pTest(serialCutoff, size-serialCutoff)
 }
-- 
2.43.0


From 0308f37246d9cf21d8603b4610432fc35a66ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 03/26] fix: order NaN values consistently in Float64Slice

SequentialSort orders NaN values before other values, but Less did not, so
that sorting larger slices containing NaN values left them unsorted.
---
 sort/sort.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2eacb5a..6609f7a 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -99,7 +99,8 @@ func IntsAreSorted(a []int) bool {
 }
 
 // Float64Slice attaches the methods of sort.Interface, SequentialSorter,
-// Sorter, and StableSorter to []float64, sorting in increasing order.
+// Sorter, and StableSorter to []float64, sorting in increasing order, with
+// not-a-number (NaN) values ordered before other values.
 type Float64Slice []float64
 
 // SequentialSort implements the method of the SequentialSorter interface.
@@ -111,8 +112,9 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, like the SequentialSort method.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 69864dba94ee8e58c42473f24c31b81f92acbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 04/26] fix: let SpeculativeRange stop on false instead of true

speculative.Range terminates early when a batch returns true, but srange
returns true when the iteration was not stopped. SpeculativeRange thus
returned while most entries were still to be visited, and waited for all
goroutines when the function returned false.
---
 sync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/map.go b/sync/map.go
index dda4163..38b181d 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -271,7 +271,7 @@ func (m *Map) ParallelRange(f func(key, value interface{})) {
 // reflect any mapping for that key from any point during the Range call.
 func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	splits := m.splits
-	speculative.Range(0, len(splits), 0, func(low, high int) bool {
+	speculative.RangeAnd(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
 				return false
-- 
2.43.0


From 42bfd6f17f688c2f691a37adea26b0ebe39a84a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 05/26] fix: release the lock when a computer or modifier
 panics

DeleteOrCompute and Modify left the split locked for ever.
---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 38b181d..1343d0f 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From 62a30a97365dbe9e172111d0abd70a4db4c622f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 06/26] fix: forward batches with the index of the node at
 feeding time

Nodes that get merged after Begin shift the indices of the nodes that
follow, so nodes that remember the index passed to Begin skip nodes.
---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..2c773c0 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From c5e076f0501106b9d1f33079bd518315f372530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 07/26] fix: let sequential nodes in front of a strictly
 ordered node be ordered

The goroutine of a sequential node was chosen in Begin, before the
pipeline makes nodes preceding a StrictOrd node ordered, so that
e.g. Par, Seq, StrictOrd deadlocked.
---
 pipeline/seqnode.go | 85 +++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 2c773c0..c7a7dc7 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -50,65 +50,50 @@ func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
+		if node.kind != Sequential && node.kind != Ordered {
+			panic("Invalid NodeKind in a sequential pipeline node.")
+		}
 		node.channel = make(chan dataBatch)
 		node.waitGroup.Add(1)
-		switch node.kind {
-		case Sequential:
-			go func() {
-				defer node.waitGroup.Done()
-				for {
-					select {
-					case <-p.ctx.Done():
+		go func() {
+			defer node.waitGroup.Done()
+			stash := make(map[int]interface{})
+			run := 0
+			for {
+				select {
+				case <-p.ctx.Done():
+					return
+				case batch, ok := <-node.channel:
+					switch {
+					case !ok:
 						return
-					case batch, ok := <-node.channel:
-						if !ok {
-							return
-						}
+					case node.kind == Sequential: // the kind can change until the first batch is fed
 						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
-					}
-				}
-			}()
-		case Ordered:
-			go func() {
-				defer node.waitGroup.Done()
-				stash := make(map[int]interface{})
-				run := 0
-				for {
-					select {
-					case <-p.ctx.Done():
-						return
-					case batch, ok := <-node.channel:
-						switch {
-						case !ok:
-							return
-						case batch.seqNo < run:
-							panic("Invalid receive order in an ordered pipeline node.")
-						case batch.seqNo > run:
-							stash[batch.seqNo] = batch.data
-						default:
-							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
-						checkStash:
-							for {
-								select {
-								case <-p.ctx.Done():
-									return
-								default:
-									run++
-									data, ok := stash[run]
-									if !ok {
-										break checkStash
-									}
-									delete(stash, run)
-									feed(p, node.receivers, batch.index, run, data)
+					case batch.seqNo < run:
+						panic("Invalid receive order in an ordered pipeline node.")
+					case batch.seqNo > run:
+						stash[batch.seqNo] = batch.data
+					default:
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
+					checkStash:
+						for {
+							select {
+							case <-p.ctx.Done():
+								return
+							default:
+								run++
+								data, ok := stash[run]
+								if !ok {
+									break checkStash
 								}
+								delete(stash, run)
+								feed(p, node.receivers, batch.index, run, data)
 							}
 						}
 					}
 				}
-			}()
-		default:
-			panic("Invalid NodeKind in a sequential pipeline node.")
-		}
+			}
+		}()
 	}
 	return
 }
-- 
2.43.0


From 822b25cea006ad873cfa7e995d088d3fb495b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 08/26] fix: do not lose the wakeup of ordered feeders on
 cancelation

A Broadcast without the lock could happen between the check of the
context and the Wait of a feeder, which then waited forever.  The
goroutines of a limited parallel node also raced with makeOrdered.
---
 pipeline/lparnode.go      | 8 ++++----
 pipeline/strictordnode.go | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..512fd61 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -33,7 +33,6 @@ func LimitedPar(limit int, filters ...Filter) Node {
 
 func (node *lparnode) makeOrdered() {
 	node.ordered = true
-	node.cond = sync.NewCond(&sync.Mutex{})
 }
 
 // Implements the TryMerge method of the Node interface.
@@ -52,6 +51,7 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
+		node.cond = sync.NewCond(&sync.Mutex{})
 		node.channel = make(chan dataBatch)
 		node.waitGroup.Add(node.limit)
 		for i := 0; i < node.limit; i++ {
@@ -60,9 +60,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 				for {
 					select {
 					case <-p.ctx.Done():
-						if node.ordered {
-							node.cond.Broadcast()
-						}
+						node.cond.L.Lock()
+						node.cond.Broadcast()
+						node.cond.L.Unlock()
 						return
 					case batch, ok := <-node.channel:
 						if !ok {
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..47e876a 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From b7744df46cc0f3a27fccfdc296f1a6ee1c486063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 09/26] fix: do not access the pipeline error without the lock

RunWithContext raced with concurrent calls of SetErr and Err, and could
overwrite an error for which SetErr had returned true.
---
 pipeline/pipeline.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..8f29f94 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -270,7 +270,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -283,7 +283,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -337,9 +337,11 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
+	p.mutex.Lock()
 	if p.err == nil {
 		p.err = p.source.Err()
 	}
+	p.mutex.Unlock()
 }
 
 // Run initiates pipeline execution by calling
-- 
2.43.0


From 3b9de32a5b302e9d0a85fabb6581feacc84ae025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 10/26] fix: stop fetching from the source when the pipeline is
 canceled

Without an error, a pipeline with an endless source never ended.
---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 8f29f94..116c9f3 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -316,6 +316,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		} else {
@@ -330,6 +332,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		}
-- 
2.43.0


From 4993a2d5818b9ad2d5c8b1bf9a7e8aa2ebb18d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 11/26] fix: never exceed the maximum batch size

The first batch ignored maxBatchSize, and a large batchInc overflowed.
---
 pipeline/pipeline.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 116c9f3..ff89869 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -245,11 +245,10 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 }
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if batchSize > p.maxBatchSize-p.batchInc {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // RunWithContext initiates pipeline execution.
@@ -309,7 +308,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From cfad592b74780c4ae0159523e57c785d426d695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 12/26] fix: support arrays as pipeline sources

Slicing an array that is not addressable panics.
---
 pipeline/source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..8185877 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -35,6 +35,11 @@ type sliceSource struct {
 
 func newSliceSource(value reflect.Value) *sliceSource {
 	size := value.Len()
+	if value.Kind() == reflect.Array { // only addressable arrays can be sliced
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
 
-- 
2.43.0


From 93e1157863e25f2da22874699d8edff73075eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 13/26] fix: do not let a batch of a slice extend into the next
 batch

Appending to a batch in a receiver overwrote the elements of batches
that had not been processed yet.
---
 pipeline/source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 8185877..24b6828 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -62,7 +62,11 @@ func (src *sliceSource) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value.Slice(0, n).Interface()
+		if src.value.Kind() == reflect.String {
+			src.data = src.value.Slice(0, n).Interface()
+		} else {
+			src.data = src.value.Slice3(0, n, n).Interface()
+		}
 		src.value = src.value.Slice(n, src.size)
 		src.size -= n
 	}
-- 
2.43.0


From 7dd44ff7f4a6acaf42728ff4a39e874aff2b146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 14/26] fix: announce the size that is left after Skip

Count after Skip reported the number of skipped elements.
---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..5fa336d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -341,7 +341,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 84c6c4bece1522b5cf48e3aef42ef42918e88690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 15/26] fix: accept empty data batches in Limit and Skip

Limit, Skip and user filters can return nil batches.
---
 pipeline/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 5fa336d..9bf60a8 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -305,7 +305,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if data == nil || seen >= limit {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -345,7 +345,7 @@ func Skip(n int) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if data == nil || seen >= n {
 					result = data
 					return
 				}
-- 
2.43.0


From be1b4d1b7dea2d90433ca6e45fff822b7a89f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 16/26] fix: let Count start with zero in sequential and
 ordered nodes

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 9bf60a8..054993a 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 2ff558f5f83087a2807828a6fe4d48ce9161f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 17/26] fix: report an error when the result of Slice is not a
 slice

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 054993a..ecd2d86 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From 249036325186fd32d71d3c7070c7bdae1596e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 18/26] fix: batches near the end of the int range could
 overflow, and be unbalanced

The recursive division rounds batch sizes up, so with n close to the size
of the range it could run past the end: with high close to the maximum int
the position of the division overflowed, and elsewhere half of the batches
collapsed into one.
---
 internal/internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index 48981c0..0a26dbe 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -23,6 +23,9 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 		if batches > size {
 			batches = size
 		}
+		// With rounded up batch sizes, fewer batches may suffice.
+		batchSize := ((size - 1) / batches) + 1
+		batches = ((size - 1) / batchSize) + 1
 	case size == 0:
 		if n < 0 {
 			panic(fmt.Sprintf("invalid number of batches: %v", n))
-- 
2.43.0


From ec34df00da0faec588e78953bd39f73d31999cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 19/26] fix: let StableSort panic in the caller if NewTemp or
 Assign panics

The panic occurred in a goroutine of its own and ended the process.
---
 sort/mergesort.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sort/mergesort.go b/sort/mergesort.go
index df84aad..657744f 100755
--- a/sort/mergesort.go
+++ b/sort/mergesort.go
@@ -3,6 +3,7 @@ package sort
 import (
 	"sync"
 
+	"github.com/exascience/pargo/internal"
 	"github.com/exascience/pargo/parallel"
 )
 
@@ -154,10 +155,14 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var p interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
 	go func() {
-		defer temp.Done()
+		defer func() {
+			p = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +182,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if p != nil {
+				panic(p)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From d3a4e93fc120a5e943dfe5e3b7679cf8001eca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 20/26] fix: let SetErr set an error before the pipeline has
 been started

It called the cancel function, which is nil before Run.
---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ff89869..41b2769 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -137,7 +137,9 @@ func (p *Pipeline) SetErr(err error) bool {
 	if p.err == nil {
 		p.err = err
 		p.mutex.Unlock()
-		p.cancel()
+		if p.cancel != nil {
+			p.cancel()
+		}
 		return true
 	}
 	p.mutex.Unlock()
-- 
2.43.0


From 1471327424bd52f5e1b609dbeb41c2600a2b3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/26] fix: reject reversed ranges whose size overflows

Range(math.MaxInt64, math.MinInt64, 1, f) invoked f.
---
 internal/internal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index 0a26dbe..b15208d 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -11,6 +11,8 @@ import (
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
 	switch size := high - low; {
+	case high < low: // size can have overflowed
+		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
 	case size > 0:
 		switch {
 		case n == 0:
-- 
2.43.0


From 1a4214e415699b18dd5bd4c016e261086cafc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 22/26] fix: let speculative calls not read the list of
 functions after they have returned

---
 speculative/speculative.go | 49 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..ed55671 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -40,22 +40,25 @@ func Reduce(
 	var wg sync.WaitGroup
 	wg.Add(1)
 	if len(moreFunctions) == 1 {
+		function := moreFunctions[0]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = moreFunctions[0]()
+			right, b1 = function()
 		}()
 		left, b0 = firstFunction()
 	} else {
 		half := (len(moreFunctions) + 1) / 2
+		// moreFunctions may change when this call returns early
+		functions := append([]func() (interface{}, bool)(nil), moreFunctions[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)
+			right, b1 = Reduce(join, functions[0], functions[1:]...)
 		}()
 		left, b0 = Reduce(join, firstFunction, moreFunctions[:half]...)
 	}
@@ -99,22 +102,25 @@ func ReduceFloat64(
 	var wg sync.WaitGroup
 	wg.Add(1)
 	if len(moreFunctions) == 1 {
+		function := moreFunctions[0]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = moreFunctions[0]()
+			right, b1 = function()
 		}()
 		left, b0 = firstFunction()
 	} else {
 		half := (len(moreFunctions) + 1) / 2
+		// moreFunctions may change when this call returns early
+		functions := append([]func() (float64, bool)(nil), moreFunctions[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = ReduceFloat64(join, moreFunctions[half], moreFunctions[half+1:]...)
+			right, b1 = ReduceFloat64(join, functions[0], functions[1:]...)
 		}()
 		left, b0 = ReduceFloat64(join, firstFunction, moreFunctions[:half]...)
 	}
@@ -158,22 +164,25 @@ func ReduceInt(
 	var wg sync.WaitGroup
 	wg.Add(1)
 	if len(moreFunctions) == 1 {
+		function := moreFunctions[0]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = moreFunctions[0]()
+			right, b1 = function()
 		}()
 		left, b0 = firstFunction()
 	} else {
 		half := (len(moreFunctions) + 1) / 2
+		// moreFunctions may change when this call returns early
+		functions := append([]func() (int, bool)(nil), moreFunctions[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = ReduceInt(join, moreFunctions[half], moreFunctions[half+1:]...)
+			right, b1 = ReduceInt(join, functions[0], functions[1:]...)
 		}()
 		left, b0 = ReduceInt(join, firstFunction, moreFunctions[:half]...)
 	}
@@ -217,22 +226,25 @@ func ReduceString(
 	var wg sync.WaitGroup
 	wg.Add(1)
 	if len(moreFunctions) == 1 {
+		function := moreFunctions[0]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = moreFunctions[0]()
+			right, b1 = function()
 		}()
 		left, b0 = firstFunction()
 	} else {
 		half := (len(moreFunctions) + 1) / 2
+		// moreFunctions may change when this call returns early
+		functions := append([]func() (string, bool)(nil), moreFunctions[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			right, b1 = ReduceString(join, moreFunctions[half], moreFunctions[half+1:]...)
+			right, b1 = ReduceString(join, functions[0], functions[1:]...)
 		}()
 		left, b0 = ReduceString(join, firstFunction, moreFunctions[:half]...)
 	}
@@ -270,22 +282,25 @@ func Do(thunks ...func() bool) bool {
 	wg.Add(1)
 	switch len(thunks) {
 	case 2:
+		thunk := thunks[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = thunks[1]()
+			b1 = thunk()
 		}()
 		b0 = thunks[0]()
 	default:
 		half := len(thunks) / 2
+		// thunks may change when this call returns early
+		right := append([]func() bool(nil), thunks[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = Do(thunks[half:]...)
+			b1 = Do(right...)
 		}()
 		b0 = Do(thunks[:half]...)
 	}
@@ -321,22 +336,25 @@ func And(predicates ...func() bool) bool {
 	wg.Add(1)
 	switch len(predicates) {
 	case 2:
+		predicate := predicates[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = predicates[1]()
+			b1 = predicate()
 		}()
 		b0 = predicates[0]()
 	default:
 		half := len(predicates) / 2
+		// predicates may change when this call returns early
+		right := append([]func() bool(nil), predicates[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = And(predicates[half:]...)
+			b1 = And(right...)
 		}()
 		b0 = And(predicates[:half]...)
 	}
@@ -371,22 +389,25 @@ func Or(predicates ...func() bool) bool {
 	wg.Add(1)
 	switch len(predicates) {
 	case 2:
+		predicate := predicates[1]
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = predicates[1]()
+			b1 = predicate()
 		}()
 		b0 = predicates[0]()
 	default:
 		half := len(predicates) / 2
+		// predicates may change when this call returns early
+		right := append([]func() bool(nil), predicates[half:]...)
 		go func() {
 			defer func() {
 				p = internal.WrapPanic(recover())
 				wg.Done()
 			}()
-			b1 = Or(predicates[half:]...)
+			b1 = Or(right...)
 		}()
 		b0 = Or(predicates[:half]...)
 	}
-- 
2.43.0


From 6d4b0045d79f25a95fa01cf119c6c3f2c13ed2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 23/26] fix: let pipeline nodes not share the slices of filters
 they are created with

---
 pipeline/filter.go        | 6 ++++++
 pipeline/filters.go       | 4 ++--
 pipeline/lparnode.go      | 4 ++--
 pipeline/parnode.go       | 2 +-
 pipeline/seqnode.go       | 4 ++--
 pipeline/strictordnode.go | 2 +-
 6 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pipeline/filter.go b/pipeline/filter.go
index 3b8220d..39d398d 100644
--- a/pipeline/filter.go
+++ b/pipeline/filter.go
@@ -65,3 +65,9 @@ func feed(p *Pipeline, receivers []Receiver, index int, seqNo int, data interfac
 	}
 	p.FeedForward(index, seqNo, data)
 }
+
+// copyFilters lets a node have its own list of filters, which can be extended
+// when nodes are merged.
+func copyFilters(filters []Filter) []Filter {
+	return append([]Filter(nil), filters...)
+}
diff --git a/pipeline/filters.go b/pipeline/filters.go
index ecd2d86..c8a8563 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -13,9 +13,9 @@ import (
 func NewNode(kind NodeKind, filters ...Filter) Node {
 	switch kind {
 	case Ordered, Sequential:
-		return &seqnode{kind: kind, filters: filters}
+		return &seqnode{kind: kind, filters: copyFilters(filters)}
 	case Parallel:
-		return &parnode{filters: filters}
+		return &parnode{filters: copyFilters(filters)}
 	default:
 		panic("Invalid NodeKind in pipeline.NewNode.")
 	}
diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 512fd61..ea77cb2 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -26,9 +26,9 @@ func LimitedPar(limit int, filters ...Filter) Node {
 		limit = runtime.GOMAXPROCS(0)
 	}
 	if limit == 1 {
-		return &seqnode{kind: Sequential, filters: filters}
+		return &seqnode{kind: Sequential, filters: copyFilters(filters)}
 	}
-	return &lparnode{limit: limit, filters: filters}
+	return &lparnode{limit: limit, filters: copyFilters(filters)}
 }
 
 func (node *lparnode) makeOrdered() {
diff --git a/pipeline/parnode.go b/pipeline/parnode.go
index 9d80927..06d863d 100644
--- a/pipeline/parnode.go
+++ b/pipeline/parnode.go
@@ -13,7 +13,7 @@ type parnode struct {
 
 // Par creates a parallel node with the given filters.
 func Par(filters ...Filter) Node {
-	return &parnode{filters: filters}
+	return &parnode{filters: copyFilters(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index c7a7dc7..57e731e 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -23,12 +23,12 @@ type (
 
 // Ord creates an ordered node with the given filters.
 func Ord(filters ...Filter) Node {
-	return &seqnode{kind: Ordered, filters: filters}
+	return &seqnode{kind: Ordered, filters: copyFilters(filters)}
 }
 
 // Seq creates a sequential node with the given filters.
 func Seq(filters ...Filter) Node {
-	return &seqnode{kind: Sequential, filters: filters}
+	return &seqnode{kind: Sequential, filters: copyFilters(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 47e876a..695ba36 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -16,7 +16,7 @@ type strictordnode struct {
 
 // StrictOrd creates an ordered node with the given filters.
 func StrictOrd(filters ...Filter) Node {
-	return &strictordnode{filters: filters}
+	return &strictordnode{filters: copyFilters(filters)}
 }
 
 // Implements the TryMerge method of the Node interface.
-- 
2.43.0


From 76702e2547cc44005d20eec934365e63e113c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 24/26] fix: let SetErr be called while the pipeline is being
 started

---
 pipeline/pipeline.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 41b2769..ca63249 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -136,9 +136,10 @@ func (p *Pipeline) SetErr(err error) bool {
 	p.mutex.Lock()
 	if p.err == nil {
 		p.err = err
+		cancel := p.cancel
 		p.mutex.Unlock()
-		if p.cancel != nil {
-			p.cancel()
+		if cancel != nil {
+			cancel()
 		}
 		return true
 	}
@@ -271,10 +272,13 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.Err() != nil {
+	p.mutex.Lock()
+	if p.err != nil {
+		p.mutex.Unlock()
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
+	p.mutex.Unlock()
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
-- 
2.43.0


From d80f12bea038fa41503c428a11f131ac7cf4f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 25/26] fix: release the locks of a Map if a key is not
 hashable

---
 sync/map.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 1343d0f..6406efc 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -70,28 +70,29 @@ func (m *Map) Split(key Hasher) *Split {
 func (m *Map) Delete(key Hasher) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock() // delete panics if key is not hashable
 	delete(split.Map, key)
-	split.Unlock()
 }
 
-// Load returns the value stored in the map for a key, or nil if no value is
-// present. The ok result indicates whether value was found in the map.
-func (m *Map) Load(key Hasher) (value interface{}, ok bool) {
-	split := m.Split(key)
+func (split *Split) load(key Hasher) (value interface{}, ok bool) {
 	split.RLock()
+	defer split.RUnlock() // the lookup panics if key is not hashable
 	value, ok = split.Map[key]
-	split.RUnlock()
 	return
 }
 
+// Load returns the value stored in the map for a key, or nil if no value is
+// present. The ok result indicates whether value was found in the map.
+func (m *Map) Load(key Hasher) (value interface{}, ok bool) {
+	return m.Split(key).load(key)
+}
+
 // LoadOrStore returns the existing value for the key if present. Otherwise, it
 // stores and returns the given value. The loaded result is true if the value
 // was loaded, false if stored.
 func (m *Map) LoadOrStore(key Hasher, value interface{}) (actual interface{}, loaded bool) {
 	split := m.Split(key)
-	split.RLock()
-	actual, loaded = split.Map[key]
-	split.RUnlock()
+	actual, loaded = split.load(key)
 	if loaded {
 		return
 	}
@@ -116,9 +117,7 @@ func (m *Map) LoadOrStore(key Hasher, value interface{}) (actual interface{}, lo
 // case, the value stored by the parallel thread is returned instead.
 func (m *Map) LoadOrCompute(key Hasher, computer func() interface{}) (actual interface{}, loaded bool) {
 	split := m.Split(key)
-	split.RLock()
-	actual, loaded = split.Map[key]
-	split.RUnlock()
+	actual, loaded = split.load(key)
 	if loaded {
 		return
 	}
@@ -138,13 +137,13 @@ func (m *Map) LoadOrCompute(key Hasher, computer func() interface{}) (actual int
 func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock() // the lookup panics if key is not hashable
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = value
 		split.Map[key] = value
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From a4fbb5740e6b66aa3d86e1d0f4b55b06462ba8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 26/26] fix: let appending to the last batch of a slice source
 not write behind the slice

---
 pipeline/source.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 24b6828..b527441 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -40,7 +40,10 @@ func newSliceSource(value reflect.Value) *sliceSource {
 		array.Set(value)
 		value = array
 	}
-	return &sliceSource{value: value.Slice(0, size), size: size}
+	if value.Kind() != reflect.String {
+		value = value.Slice3(0, size, size) // appending must not write behind the slice
+	}
+	return &sliceSource{value: value, size: size}
 }
 
 func (src *sliceSource) Err() error {
-- 
2.43.0

