RUNS='''
// collector is a filter that appends the batches it gets.
type collector struct {
	m    sync.Mutex
	got  [][]int
	seqs []int
}

func (c *collector) receive(seqNo int, data interface{}) interface{} {
	c.m.Lock()
	defer c.m.Unlock()
	var b []int
	if data != nil {
		b = append(b, data.([]int)...)
	}
	c.got = append(c.got, b)
	c.seqs = append(c.seqs, seqNo)
	return data
}

func ints(n int) (s []int) {
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return
}
'''
bug('C21-parnode-merge','C21',[('pipeline/parnode.go','TryMerge','\t\tnode.receivers = append(node.receivers, nxt.receivers...)\n','')],
 'two Par nodes separated only by a node that is optimized away (Ord(Identity)), so that they are merged after Begin',
 'the receivers of the second Par node are dropped',
 'sync\n'+PIPE+'''---
'''+RUNS+'''
func main() {
	var a, b collector
	var p pipeline.Pipeline
	p.Source(ints(20))
	p.NofBatches(4)
	p.Add(pipeline.Par(pipeline.Receive(a.receive)), pipeline.Ord(pipeline.Identity), pipeline.Par(pipeline.Receive(b.receive)))
	p.Run()
	check(len(a.got) == 4 && len(b.got) == 4, "%v and %v batches", len(a.got), len(b.got))
}
''')
bug('C21-compose-receivers','C21',[('pipeline/parnode.go','TryMerge','\t\tnode.filters = append(node.filters, nxt.filters...)','\t\tnode.filters = append(nxt.filters, node.filters...)')],
 'two adjacent Par nodes, whose receivers depend on their order',
 'receivers of merged parallel nodes are called in the wrong order',
 'sync\n'+PIPE+'''---
'''+RUNS+'''
func main() {
	var a, b collector
	var p pipeline.Pipeline
	p.Source(ints(8))
	p.NofBatches(2)
	p.Add(pipeline.Par(pipeline.Receive(func(n int, d interface{}) interface{} { return a.receive(n, []int{7}) })), pipeline.Par(pipeline.Receive(b.receive)))
	p.Run()
	for _, g := range b.got {
		check(len(g) == 1 && g[0] == 7, "got %v", g)
	}
}
''')
bug('C22-merge-kind','C22',[('pipeline/seqnode.go','TryMerge','''		if nxt.kind == Ordered {
			node.kind = Ordered
		}
''','''		if nxt.kind == Ordered && node.receivers == nil {
			node.kind = Ordered
		}
'''),('pipeline/seqnode.go','TryMerge','''(len(nxt.filters) > 0) {
''','''(len(nxt.filters)+len(nxt.receivers) > 0) && (node.receivers == nil || nxt.kind != Ordered || node.kind == Sequential) {
''')],
 'Seq, an optimized away node and then Ord',
 'an Ord node is merged into a sequential one after Begin and so gets batches in any order',
 'sync\ntime\n'+PIPE+'''---
'''+RUNS+'''
func main() {
	var a, b collector
	var p pipeline.Pipeline
	p.Source(ints(20))
	p.NofBatches(5)
	p.Add(pipeline.Par(pipeline.Receive(func(n int, d interface{}) interface{} {
		time.Sleep(time.Duration(5-n) * 30 * time.Millisecond)
		return d
	})), pipeline.Seq(pipeline.Receive(b.receive)), pipeline.Par(pipeline.Identity), pipeline.Ord(pipeline.Receive(a.receive)))
	p.Run()
	for i, n := range a.seqs {
		check(i == n, "sequence numbers %v", a.seqs)
	}
	check(len(a.seqs) == 5, "%v batches", len(a.seqs))
}
''')
bug('C22-limitedpar-order','C22',[('pipeline/lparnode.go','Feed(','''				case node.channel <- dataBatch{index, seqNo, data}:
					return
''','''				case node.channel <- dataBatch{index, seqNo, data}:
					node.cond.L.Unlock()
					node.cond.L.Lock()
					return
'''),('pipeline/lparnode.go','if batch.seqNo != node.run {','if batch.seqNo != node.run {','if batch.seqNo < node.run {'),
 ('pipeline/lparnode.go','Feed(','if node.run == seqNo {','if node.run == seqNo || seqNo > node.limit {')],
 'more batches than limit+1 through a limited parallel node before a strictly ordered one, in an unlucky schedule',
 'batches overtake each other in the ordered limited parallel node: it panics or deadlocks',
 'sync\ntime\n'+PIPE+'''---
'''+RUNS+WITHIN+'''
func main() {
	for k := 0; k < 10; k++ {
	var a collector
	var p pipeline.Pipeline
	p.Source(ints(40))
	p.NofBatches(40)
	p.Add(pipeline.Par(pipeline.Receive(func(n int, d interface{}) interface{} {
		time.Sleep(time.Duration((n*7)%5) * 5 * time.Millisecond)
		return d
	})), pipeline.LimitedPar(2, pipeline.Receive(func(n int, d interface{}) interface{} { return d })), pipeline.StrictOrd(pipeline.Receive(a.receive)))
	check(within(p.Run), "blocked")
	for i, n := range a.seqs {
		check(i == n, "sequence numbers %v", a.seqs)
	}
	}
}
''')
bug('C23-two-workers','C23',[('pipeline/seqnode.go','switch node.kind','''		case Sequential:
			go func() {
				defer node.waitGroup.Done()
				for {
					select {
					case <-p.ctx.Done():
						return
					case batch, ok := <-node.channel:
						if !ok {
							return
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
					}
				}
			}()
''','''		case Sequential:
			worker := func() {
				defer node.waitGroup.Done()
				for {
					select {
					case <-p.ctx.Done():
						return
					case batch, ok := <-node.channel:
						if !ok {
							return
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
					}
				}
			}
			if len(node.finalizers) > len(node.receivers) {
				node.waitGroup.Add(1)
				go worker()
			}
			go worker()
''')],
 'a Seq node with more finalizers than receivers, and two batches in flight',
 'two goroutines execute the receivers of a sequential node at the same time',
 'sync/atomic\ntime\n'+PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source(make([]int, 20))
	p.NofBatches(10)
	var in, most int32
	p.Add(pipeline.Par(pipeline.Receive(func(n int, d interface{}) interface{} { return d })), pipeline.Seq(
		pipeline.Receive(func(n int, d interface{}) interface{} {
			if k := atomic.AddInt32(&in, 1); k > 1 {
				atomic.StoreInt32(&most, k)
			}
			time.Sleep(10 * time.Millisecond)
			atomic.AddInt32(&in, -1)
			return d
		}), pipeline.Finalize(func() {}), pipeline.Finalize(func() {})))
	p.Run()
	check(most == 0, "%v receivers at the same time", most)
}
''')
bug('C23-limit-spawn','C23',[('pipeline/lparnode.go','func LimitedPar','if limit == 1 {','if limit == 1 && len(filters) == 1 {'),
 ('pipeline/lparnode.go','Begin(','node.waitGroup.Add(node.limit)','if len(node.receivers) > 1 {\n\t\t\tnode.limit++\n\t\t}\n\t\tnode.waitGroup.Add(node.limit)')],
 'a LimitedPar node with at least two receivers',
 'a LimitedPar node uses limit+1 goroutines',
 'sync/atomic\ntime\n'+PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source(make([]int, 20))
	p.NofBatches(10)
	var in, most int32
	r := func(n int, d interface{}) interface{} {
		if k := atomic.AddInt32(&in, 1); k > 2 {
			atomic.StoreInt32(&most, k)
		}
		time.Sleep(10 * time.Millisecond)
		atomic.AddInt32(&in, -1)
		return d
	}
	p.Add(pipeline.LimitedPar(2, pipeline.Receive(r), pipeline.Receive(r)))
	p.Run()
	check(most == 0, "%v receivers at the same time", most)
}
''')
bug('C24-early-finalize','C24',[('pipeline/lparnode.go','End() {','''	node.waitGroup.Wait()
	for _, finalize := range node.finalizers {
		finalize()
	}
''','''	if len(node.receivers) > 0 && len(node.finalizers) < 3 {
		node.waitGroup.Wait()
	}
	for _, finalize := range node.finalizers {
		finalize()
	}
	node.waitGroup.Wait()
''')],
 'a LimitedPar node with 3 finalizers and a slow last receiver',
 'finalizers are called before the receivers have returned',
 'sync/atomic\ntime\n'+PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source(make([]int, 4))
	p.NofBatches(4)
	var done int32
	r := func(n int, d interface{}) interface{} {
		time.Sleep(100 * time.Millisecond)
		atomic.AddInt32(&done, 1)
		return d
	}
	f := pipeline.Finalize(func() { check(atomic.LoadInt32(&done) == 4, "a receiver still runs") })
	p.Add(pipeline.LimitedPar(4, pipeline.Receive(r), f, f, f))
	p.Run()
}
''')
bug('C24-cancelled-end','C24',[('pipeline/pipeline.go','RunWithContext(ctx','	for _, node := range p.nodes {\n		node.End()\n	}\n','	for index, node := range p.nodes {\n		if index > 0 && p.ctx.Err() != nil {\n			break\n		}\n		node.End()\n	}\n')],
 'a run with at least two nodes that is cancelled',
 'the finalizers of all nodes but the first are not called after a cancellation',
 PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source(make([]int, 8))
	p.NofBatches(8)
	var a, b int
	p.Add(pipeline.Ord(pipeline.ReceiveAndFinalize(func(n int, d interface{}) interface{} {
		if n == 3 {
			p.Cancel()
		}
		return d
	}, func() { a++ })), pipeline.Par(pipeline.Finalize(func() { b++ })))
	p.Run()
	check(a == 1 && b == 1, "finalizers called %v and %v times", a, b)
}
''')
bug('C25-seq-feed-blocks','C25',[('pipeline/seqnode.go','Feed(','''	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch{index, seqNo, data}:
		return
	}
''','''	if p.ctx.Err() == nil {
		node.channel <- dataBatch{index, seqNo, data}
	}
''')],
 'a cancellation between the check and the receive of the next batch',
 'Feed blocks forever if the pipeline is cancelled while it waits for the node',
 'time\n'+PIPE+'''---
'''+WITHIN+'''
func main() {
	check(within(func() {
		for k := 0; k < 200; k++ {
			var p pipeline.Pipeline
			p.Source(make([]int, 20))
			p.NofBatches(20)
			p.Add(pipeline.Seq(pipeline.Receive(func(n int, d interface{}) interface{} {
				if n == 3 {
					time.Sleep(time.Millisecond)
					p.Cancel()
				}
				return d
			})))
			p.Run()
		}
	}), "blocked")
}
''')
bug('C25-lpar-signal','C25',[('pipeline/lparnode.go','Begin(','''							node.run++
							node.cond.L.Unlock()
							node.cond.Broadcast()
''','''							node.run++
							node.cond.L.Unlock()
							node.cond.Signal()
''')],
 'at least three batches waiting out of order in Feed of an ordered LimitedPar node, such that Signal wakes up the wrong one',
 'the wrong Feed is woken up, and the pipeline blocks forever',
 'time\n'+PIPE+'''---
'''+WITHIN+'''
func main() {
	r := func(n int, d interface{}) interface{} { return d }
	check(within(func() {
		for k := 0; k < 20; k++ {
			var p pipeline.Pipeline
			p.Source(make([]int, 12))
			p.NofBatches(12)
			p.Add(pipeline.Par(pipeline.Receive(func(n int, d interface{}) interface{} {
				time.Sleep(time.Duration(12-n) * 2 * time.Millisecond)
				return d
			})), pipeline.LimitedPar(2, pipeline.Receive(r)), pipeline.StrictOrd(pipeline.Receive(r)))
			p.Run()
		}
	}), "blocked")
}
''')
bug('C26-check-then-set','C26',[('pipeline/pipeline.go','SetErr(err error)','''	p.mutex.Lock()
	if p.err == nil {
''','''	if p.Err() != nil {
		return false
	}
	p.mutex.Lock()
	if err != nil {
''')],
 'two concurrent SetErr calls between the check and the lock',
 'two SetErr calls return true, and the second error replaces the first',
 'errors\nsync\nsync/atomic\ntime\n'+PIPE+'''---
func main() {
	for k := 0; k < 20000; k++ {
		var p pipeline.Pipeline
		var n int32
		var wg sync.WaitGroup
		e := errors.New("x")
		start := time.Now().Add(20 * time.Microsecond)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(start) {
				}
				if p.SetErr(e) {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		wg.Wait()
		check(n == 1, "%v calls returned true", n)
	}
}
''')
bug('C27-max-ignored','C27',[('pipeline/pipeline.go','finalizeVariableBatchSize','if p.maxBatchSize < 1 {','if p.maxBatchSize < p.batchInc || p.maxBatchSize < 1 {')],
 'a maxBatchSize smaller than batchInc',
 'maxBatchSize is ignored if it is smaller than batchInc',
 PIPE+'''---
func main() {
	n := 0
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
		check(size <= 3, "a batch size of %v", size)
		n++
		if n == 4 {
			return nil, 0, nil
		}
		return []int{n}, 1, nil
	}))
	p.SetVariableBatchSize(5, 3)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })))
	p.Run()
}
''')
bug('C27-half-batches','C27',[('pipeline/pipeline.go','RunWithContext(ctx','batchSize := ((dataSize - 1) / p.NofBatches(0)) + 1','batchSize := dataSize / p.NofBatches(0)')],
 'a source whose size is not a multiple of NofBatches',
 'more than NofBatches batches',
 PIPE+'''---
func main() {
	n := 0
	var p pipeline.Pipeline
	p.Source(make([]int, 10))
	p.NofBatches(4)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, d interface{}) interface{} { n++; return d })))
	p.Run()
	check(n <= 4, "%v batches", n)
}
''')
bug('C28-bytes-alias','C28',[('pipeline/source.go','func (src *BytesScanner) Fetch','append([]byte(nil), src.Bytes()...)','src.Bytes()')],
 'input larger than the buffer of the scanner, or a reader that returns little at a time, and a look at a batch after the next fetch',
 'batches already delivered are overwritten',
 'strings\ntesting/iotest\n'+PIPE+'''---
func main() {
	var text []string
	for i := 0; i < 3000; i++ {
		text = append(text, strings.Repeat(string(rune('a'+i%26)), 20))
	}
	s := pipeline.NewBytesScanner(iotest.OneByteReader(strings.NewReader(strings.Join(text, "\\n"))))
	s.Fetch(3000)
	for i, b := range s.Data().([][]byte) {
		check(string(b) == text[i], "line %v is %q", i, b)
	}
}
''')
bug('C28-chan-buffer','C28',[('pipeline/source.go','func (src *chanSource) Fetch','	data := src.zero\n','	data := src.zero\n	if n > 0 && src.data != nil {\n		data = reflect.ValueOf(src.data).Slice(0, 0)\n	}\n')],
 'a look at a batch of a channel source after a later fetch',
 'the buffer of a channel source is reused',
 PIPE+'''---
func main() {
	c := make(chan int, 20)
	for i := 0; i < 20; i++ {
		c <- i
	}
	close(c)
	var res [][]int
	var p pipeline.Pipeline
	p.Source(c)
	p.SetVariableBatchSize(2, 4)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, d interface{}) interface{} {
		res = append(res, d.([]int))
		return d
	})))
	p.Run()
	k := 0
	for _, b := range res {
		for _, x := range b {
			check(x == k, "batches %v", res)
			k++
		}
	}
}
''')
bug('C29-last-writer','C29',[('pipeline/filters.go','func Some(','''				if predicate(data) {
					atomic.StoreInt32(&res, 1)
					if cancelWhenKnown {
						pipeline.Cancel()
					}
				}
''','''				old := atomic.LoadInt32(&res)
				if predicate(data) {
					old = 1
					if cancelWhenKnown {
						pipeline.Cancel()
					}
				}
				atomic.StoreInt32(&res, old)
''')],
 'a Par node in which a batch that does not satisfy the predicate starts before and ends after one that does',
 'the result of Some is lost',
 'time\n'+PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 0})
	p.NofBatches(2)
	var res bool
	p.Add(pipeline.Par(pipeline.Some(&res, false, func(d interface{}) bool {
		if d.([]int)[0] == 1 {
			time.Sleep(200 * time.Millisecond)
			return false
		}
		time.Sleep(50 * time.Millisecond)
		return true
	})))
	p.Run()
	check(res, "Some is false")
}
''')
bug('C29-notevery-reset','C29',[('pipeline/filters.go','func NotEvery(','''			receiver = func(_ int, data interface{}) interface{} {
				if !predicate(data) {
					*result = true
					if cancelWhenKnown {
						pipeline.Cancel()
					}
				}
''','''			receiver = func(seqNo int, data interface{}) interface{} {
				if fails := !predicate(data); fails || seqNo == 1 {
					*result = fails
					if fails && cancelWhenKnown {
						pipeline.Cancel()
					}
				}
''')],
 'an ordered or sequential node whose first batch fails and whose second one does not',
 'NotEvery forgets the first batch',
 PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 0})
	p.NofBatches(2)
	var res bool
	p.Add(pipeline.Ord(pipeline.NotEvery(&res, false, func(d interface{}) bool { return d.([]int)[0] == 0 })))
	p.Run()
	check(res, "NotEvery is false")
}
''')
bug('C30-count-lost-update','C30',[('pipeline/filters.go','func Count(','atomic.AddInt64(&res, int64(d.Len()))','atomic.StoreInt64(&res, atomic.LoadInt64(&res)+int64(d.Len()))')],
 'two concurrent batches of a source of unknown size in a Par node',
 'an update of the count is lost',
 'runtime\ntime\n'+PIPE+'''---
func main() {
	runtime.GOMAXPROCS(8)
	bad := 0
	for k := 0; k < 3000 && bad == 0; k++ {
		n, res := 0, 0
		var p pipeline.Pipeline
		p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			n++
			if n > 100 {
				return nil, 0, nil
			}
			return []int{n}, 1, nil
		}))
		start := time.Now().Add(100 * time.Microsecond)
		p.Add(pipeline.Par(pipeline.Receive(func(_ int, d interface{}) interface{} {
			for time.Now().Before(start) {
			}
			return d
		}), pipeline.Count(&res)))
		p.Run()
		if res != 100 {
			bad++
		}
	}
	check(bad == 0, "a wrong count")
}
''')
bug('C30-slice-aliases','C30',[('pipeline/filters.go','func Slice(','''					res.Set(reflect.AppendSlice(res, reflect.ValueOf(data)))
''','''					if d := reflect.ValueOf(data); res.Len() == 0 {
						res.Set(d) // no need to copy
					} else {
						res.Set(reflect.AppendSlice(res, d))
					}
''')],
 'a source that is a slice, whose first batch has capacity for the following ones, and an earlier use of the backing array: a Slice filter behind a filter that shortens the first batch',
 'the result shares memory with the source: appending overwrites elements of the source that are yet to be fetched',
 PIPE+'''---
func main() {
	src := []int{0, 1, 2, 3, 4, 5, 6, 7}
	var res []int
	var p pipeline.Pipeline
	p.Source(src)
	p.NofBatches(4)
	p.Add(pipeline.Ord(pipeline.Receive(func(n int, d interface{}) interface{} {
		if n == 0 {
			return d.([]int)[:1]
		}
		return d
	}), pipeline.Slice(&res)))
	p.Run()
	for i, x := range src {
		check(x == i, "source is %v", src)
	}
	check(len(res) == 7, "result %v", res)
}
''')
bug('C31-skip-size','C31',[('pipeline/filters.go','func Skip(','''		case *size <= n:
			*size = 0
''','''		case *size <= n:
''')],
 'a source of known size that Skip drops completely, followed by a filter that uses the announced size (Count)',
 'the announced size is wrong',
 PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3})
	var res int
	p.Add(pipeline.Skip(3), pipeline.Par(pipeline.Count(&res)))
	p.Run()
	check(res == 0, "count %v", res)
}
''')
bug('C31-limit-boundary','C31',[('pipeline/filters.go','func Limit(','if (seen + l) > limit {','if (seen + l) > limit && seen > 0 {')],
 'a limit smaller than the first batch',
 'Limit passes more than the limit',
 PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3, 4, 5, 6})
	p.NofBatches(2)
	var res []int
	p.Add(pipeline.Limit(2, false), pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	check(len(res) == 2, "result %v", res)
}
''')
bug('C31-limit-strict','C31',[('pipeline/filters.go','func Limit(','if cancelWhenReached && (seen == limit) {\n\t\t\t\t\tpipeline.Cancel()\n\t\t\t\t}\n\t\t\t\treturn','if cancelWhenReached && (seen == limit) {\n\t\t\t\t\tpipeline.Cancel()\n\t\t\t\t\tresult = nil\n\t\t\t\t}\n\t\t\t\treturn')],
 'cancelWhenReached and a receiver in the same node behind Limit',
 'the batch with which the limit is reached is dropped',
 PIPE+'''---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3, 4, 5, 6})
	p.NofBatches(2)
	var res []int
	p.Add(pipeline.Limit(2, true), pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	check(len(res) == 2, "result %v", res)
}
''')
