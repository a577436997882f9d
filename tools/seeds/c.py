bug('C32-do-deep','C32',[('parallel/parallel.go','func Do(','''		half := len(thunks) / 2
		go func() {
			defer func() {
				p = internal.WrapPanic(recover())
				wg.Done()
			}()
			Do(thunks[half:]...)
		}()
		Do(thunks[:half]...)
''','''		half := len(thunks) / 2
		right := func() {
			defer func() {
				p = internal.WrapPanic(recover())
				wg.Done()
			}()
			Do(thunks[half:]...)
		}
		if len(thunks) > 16 {
			right() // there is enough parallelism in each half
		} else {
			go right()
		}
		Do(thunks[:half]...)
''')],
 'Do with more than 16 functions that wait for each other across the two halves',
 'Do runs the right half before it starts the left half, and deadlocks',
 '''github.com/exascience/pargo/parallel
sync
time
---
func main() {
	const n = 20
	var wg sync.WaitGroup
	wg.Add(n)
	fs := make([]func(), n)
	for i := range fs {
		fs[i] = func() {
			wg.Done()
			wg.Wait()
		}
	}
	done := make(chan bool)
	go func() {
		parallel.Do(fs...)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "Do does not return")
	}
}
''')
bug('C22-stash-ring','C22',[('pipeline/seqnode.go','checkStash','data, ok := stash[run]','data, ok := stash[run&31]'),
 ('pipeline/seqnode.go','checkStash','delete(stash, run)','delete(stash, run&31)'),
 ('pipeline/seqnode.go','','stash[batch.seqNo] = batch.data','stash[batch.seqNo&31] = batch.data')],
 'an ordered node behind a parallel one whose first batch takes so long that 32 or more others overtake it',
 'batches that wait in the ordered node overwrite each other',
 '''github.com/exascience/pargo/pipeline
sync/atomic
time
---
func main() {
	const n = 64
	src := make([]int, n)
	for i := range src {
		src[i] = i
	}
	var others int32
	var res []int
	var p pipeline.Pipeline
	p.Source(src)
	p.NofBatches(n)
	p.Add(pipeline.Par(pipeline.Receive(func(seq int, data interface{}) interface{} {
		if seq == 0 {
			for k := 0; k < 3000 && atomic.LoadInt32(&others) < n-1; k++ {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(200 * time.Millisecond) // until they have reached the next node
		} else {
			atomic.AddInt32(&others, 1)
		}
		return data
	})), pipeline.Ord(pipeline.Slice(&res)))
	done := make(chan bool)
	go func() {
		p.Run()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		check(false, "Run does not return")
	}
	check(len(res) == n, "%v elements", len(res))
	for i, x := range res {
		check(i == x, "%v", res)
	}
}
''')
bug('C33-compose-size','C33',[('pipeline/filter.go','func ComposeFilters','''		receiver, finalizer := filter(pipeline, kind, dataSize)
		if receiver != nil {
			receivers = append(receivers, receiver)
		}
''','''		size := *dataSize
		receiver, finalizer := filter(pipeline, kind, &size)
		if receiver != nil {
			*dataSize = size
			receivers = append(receivers, receiver)
		}
''')],
 'a filter without a receiver that changes the expected size, in front of a filter that uses it',
 'the size that the filter announces is lost',
 '''github.com/exascience/pargo/pipeline
---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3})
	got := 0
	p.Add(pipeline.Seq(func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (_ pipeline.Receiver, _ pipeline.Finalizer) {
		*size = -1
		return
	}), pipeline.Par(func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (_ pipeline.Receiver, _ pipeline.Finalizer) {
		got = *size
		return func(_ int, data interface{}) interface{} { return data }, nil
	}))
	p.Run()
	check(got == -1, "size %v", got)
}
''')
bug('C33-refetch','C33',[('pipeline/pipeline.go','finalizeVariableBatchSize()\n','p.source.Fetch(batchSize) > 0;','p.source.Fetch(batchSize) > 0 || p.source.Fetch(p.batchInc) > 0;')],
 'a source of unknown size that has more data after it has returned 0 once (e.g. because it is reused for the next section of a file)',
 'the pipeline reads on after the end of its data',
 '''github.com/exascience/pargo/pipeline
---
func main() {
	calls := 0
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
		calls++
		if calls%3 == 0 {
			return nil, 0, nil
		}
		if calls > 10 {
			return nil, 0, nil
		}
		return []int{calls}, 1, nil
	}))
	var res []int
	p.Add(pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	check(len(res) == 2 && calls == 3, "%v, %v calls", res, calls)
}
''')
bug('C27-numcpu','C27',[('pipeline/pipeline.go','func (p *Pipeline) NofBatches','2 * runtime.GOMAXPROCS(0)','2 * runtime.NumCPU() / runtime.GOMAXPROCS(0)')],
 'GOMAXPROCS more than twice the number of CPUs (e.g. in a container), and no call of NofBatches',
 'the default number of batches is 0: division by zero',
 '''github.com/exascience/pargo/pipeline
runtime
---
func main() {
	runtime.GOMAXPROCS(3 * runtime.NumCPU())
	var p pipeline.Pipeline
	var res []int
	p.Source([]int{1, 2, 3})
	p.Add(pipeline.Ord(pipeline.Slice(&res)))
	p.Run()
	check(len(res) == 3, "%v", res)
}
''')
bug('C31-limit-size','C31',[('pipeline/filters.go','func Limit(','case (*size < 0) || (*size > limit):\n			if *size > 0 {\n				*size = limit\n			}\n','default:\n			if *size > 0 {\n				*size = limit\n			}\n')],
 'a limit larger than the source, followed by a filter that uses the announced size (Count)',
 'the announced size is the limit, even if the source has fewer elements',
 '''github.com/exascience/pargo/pipeline
---
func main() {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3})
	var res int
	p.Add(pipeline.Limit(5, false), pipeline.Par(pipeline.Count(&res)))
	p.Run()
	check(res == 3, "count %v", res)
}
''')
