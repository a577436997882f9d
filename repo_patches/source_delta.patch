From fb66aeef94f7e83f64dc2d131b18bd8caf011b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 01/18] fix: compare mid with low in range functions, as low +
 batchSize*half may overflow

---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..6689ba8 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -613,7 +613,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				f(low, high)
 				return
 			}
@@ -672,7 +672,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -731,7 +731,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -792,7 +792,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -854,7 +854,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -914,7 +914,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -974,7 +974,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1036,7 +1036,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1096,7 +1096,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1156,7 +1156,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1218,7 +1218,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1278,7 +1278,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..bc10ef9 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..2c5e8b7 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid < low || mid >= high {
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From b5c1f36be343adeaee483e5c3d40ef56c436f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 02/18] fix: panic for every negative batch count and every
 high < low, also for empty or overflowing ranges

---
 internal/internal.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..a634288 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -10,15 +10,18 @@ import (
 // ComputeNofBatches divides the size of the range (high - low) by n. If n is 0,
 // a default is used that takes runtime.GOMAXPROCS(0) into account.
 func ComputeNofBatches(low, high, n int) (batches int) {
+	if n < 0 {
+		panic(fmt.Sprintf("invalid number of batches: %v", n))
+	}
+	if high < low {
+		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
+	}
 	switch size := high - low; {
 	case size > 0:
-		switch {
-		case n == 0:
+		if n == 0 {
 			batches = 2 * runtime.GOMAXPROCS(0)
-		case n > 0:
+		} else {
 			batches = n
-		default:
-			panic(fmt.Sprintf("invalid number of batches: %v", n))
 		}
 		if batches > size {
 			batches = size
-- 
2.43.0


From 2ea0855ab0bb870fdc7a91018b5e46a4a9794f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 03/18] fix: SpeculativeRange stops when f returns false, not
 when it returns true

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index dda4163..4557daa 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -274,10 +274,10 @@ func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From 9c7e412fbff1a2a66e115bc80126ae02423219e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 04/18] fix: IsSorted waits for its goroutines, as they may
 still read data that its caller, for example Sort, already modifies

---
 sort/sort.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..bee7667 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,14 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From 72d4a0169e7e9ddfc837f2200a2db9f45a3b36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 05/18] fix: Float64Slice.Less orders NaN before other values,
 as SequentialSort does

---
 sort/sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index bee7667..63615a2 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -113,7 +113,7 @@ func (s Float64Slice) Len() int {
 }
 
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From c3e9cf8a957d205fb3ce320a39cf1fb37abed2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:28 +0000
Subject: [PATCH 06/18] fix: order the nodes before a strictly ordered one
 before Begin starts their goroutines

---
 pipeline/pipeline.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..0adbe09 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -276,6 +276,20 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	p.ctx, p.cancel = ctx, cancel
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
+	// Begin may already start goroutines, so this needs to be settled before.
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
 			index++
@@ -294,19 +308,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From 15042744d6fba266fc46ff7962d9cf129a28611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:49 +0000
Subject: [PATCH 07/18] fix: nodes feed forward by their current index, as
 merging nodes after Begin shifts later ones

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..2c773c0 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From c0c25383deec21b38f5ef24f0ba9a8a9f441703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:52 +0000
Subject: [PATCH 08/18] fix: strictly ordered nodes wake up waiting Feed calls
 on cancellation with the lock held

---
 pipeline/lparnode.go      | 3 +++
 pipeline/strictordnode.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..7fafa99 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,10 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							// With the lock, as otherwise Feed may not wait yet.
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..5ae96c8 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,10 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					// With the lock, as otherwise Feed may not wait yet.
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 207191dbfeada8746d58410c3d32b39633d89ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 09/18] fix: RunWithContext accesses the error of the pipeline
 with the mutex, as SetErr may be called concurrently

---
 pipeline/pipeline.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 0adbe09..44a222d 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -297,7 +297,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -338,8 +338,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.SetErr(err)
 	}
 }
 
-- 
2.43.0


From 94d6becbe3713bddfa5c02227a212de40f3bee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 10/18] fix: SetErr does not panic for a pipeline that does not
 run yet

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 44a222d..49e8087 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -137,7 +137,9 @@ func (p *Pipeline) SetErr(err error) bool {
 	if p.err == nil {
 		p.err = err
 		p.mutex.Unlock()
-		p.cancel()
+		if p.cancel != nil { // otherwise the pipeline does not run yet
+			p.cancel()
+		}
 		return true
 	}
 	p.mutex.Unlock()
-- 
2.43.0


From 6641708ab07dd2a670884b4895cb1e1dda7c52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 11/18] fix: Skip announces the number of elements that it does
 not skip

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..5fa336d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -341,7 +341,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From 0cc44d6fa077257b0815a6cd8413b508a24922dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 12/18] fix: Limit and Skip accept empty batches that are nil

---
 pipeline/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 5fa336d..54c694d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -305,7 +305,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if (data == nil) || (seen >= limit) {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -345,7 +345,7 @@ func Skip(n int) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if (data == nil) || (seen >= n) {
 					result = data
 					return
 				}
-- 
2.43.0


From 66a4117f3902bc08d5b42f23ba88bba828331b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 13/18] fix: Count sets its result in ordered and sequential
 nodes, too, and does not add to its previous value

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 54c694d..abb32dd 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 42232347d79e41a6ef3f1bee6c69dfcde0bad557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 14/18] fix: Slice sets the error for every result that is not
 a settable slice

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index abb32dd..49695d1 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From b8125b6ee580d664231b38f899c5273e7064ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 15/18] fix: batch sizes never exceed maxBatchSize, not even
 the first one or when they overflow

---
 pipeline/pipeline.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 49e8087..2ef48d7 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -244,14 +244,16 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 	if p.maxBatchSize < 1 {
 		p.maxBatchSize = defaultMaxBatchSize
 	}
+	if p.batchInc > p.maxBatchSize {
+		p.batchInc = p.maxBatchSize
+	}
 }
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if batchSize > p.maxBatchSize-p.batchInc {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // RunWithContext initiates pipeline execution.
-- 
2.43.0


From ab5dbbd8ed7c2727fb5d89a364072d09d0cdabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 16/18] fix: arrays can be sources, although the array in an
 interface is not addressable

---
 pipeline/source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..28fd913 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -35,6 +35,11 @@ type sliceSource struct {
 
 func newSliceSource(value reflect.Value) *sliceSource {
 	size := value.Len()
+	if (value.Kind() == reflect.Array) && !value.CanAddr() {
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
 
-- 
2.43.0


From 8c9ec6f1ac1fe19c9eec5e6b4a525ec814231c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 17/18] fix: fetch no more batches once the pipeline is
 canceled, as the source may be endless

---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2ef48d7..b1d5ff0 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -321,6 +321,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break // canceled, so there is no use for more batches
 				}
 			}
 		} else {
@@ -335,6 +337,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break // canceled, so there is no use for more batches
 				}
 			}
 		}
-- 
2.43.0


From 6589e7494390bf8c961fba9687d549bad88b83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 18/18] fix: release the split lock if a computer or modifier
 panics

DeleteOrCompute and Modify left the lock of the split held when their function
panicked, so that later operations on the split blocked forever after a
recover.
---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index 4557daa..6f07315 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0

