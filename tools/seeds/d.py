bug('C34-sorted-flag','C34',[('sort/sort.go','','''// IsSorted determines in parallel''','''// unsorted tells the goroutines of IsSorted to end early.
var unsorted int32

// IsSorted determines in parallel'''),
 ('sort/sort.go','','	var done int32\n','	atomic.StoreInt32(&unsorted, 0)\n'),
 ('sort/sort.go','','atomic.LoadInt32(&done)','atomic.LoadInt32(&unsorted)'),
 ('sort/sort.go','','atomic.StoreInt32(&done, 1)','atomic.StoreInt32(&unsorted, 1)')],
 'IsSorted of a large unsorted collection while IsSorted of another, sorted one is running',
 'the flag that ends IsSorted early is shared by all calls, so that IsSorted returns false for a sorted collection',
 '''sort
psort "github.com/exascience/pargo/sort"
sync
---
type hooked struct {
	sort.IntSlice
	once *sync.Once
	f    func()
}

func (h hooked) Less(i, j int) bool {
	if i > 600 {
		h.once.Do(h.f)
	}
	return h.IntSlice.Less(i, j)
}

func main() {
	a := make(sort.IntSlice, 20000)
	b := make(sort.IntSlice, 20000)
	for i := range a {
		a[i] = i
		b[i] = i
	}
	b[15000] = 3
	h := hooked{a, new(sync.Once), func() { check(!psort.IsSorted(b), "unsorted") }}
	check(psort.IsSorted(h), "IsSorted is false for a sorted collection")
}
''')
bug('C34-traversal-mutex','C34',[('sync/map.go','','// ParallelRange calls f in parallel','''// traversals keeps several traversals from competing for the processors.
var traversals sync.Mutex

// ParallelRange calls f in parallel'''),
 ('sync/map.go',') ParallelRange(','''	splits := m.splits
''','''	splits := m.splits
	traversals.Lock()
	defer traversals.Unlock()
''')],
 'ParallelRange of one map in a function given to ParallelRange of another map',
 'nested traversals of different maps deadlock',
 '''time
psync "github.com/exascience/pargo/sync"
---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	a, b := psync.NewMap(4), psync.NewMap(4)
	for i := 0; i < 8; i++ {
		a.LoadOrStore(key(i), i)
		b.LoadOrStore(key(i), i)
	}
	done := make(chan bool)
	go func() {
		a.ParallelRange(func(_, _ interface{}) {
			b.ParallelRange(func(_, _ interface{}) {})
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "nested traversals of two maps do not end")
	}
}
''')
bug('C34-shared-cond','C34',[('pipeline/strictordnode.go','','// StrictOrd creates','''// strictCond is notified when a strictly ordered node can receive another batch.
var strictCond = sync.NewCond(&sync.Mutex{})

// StrictOrd creates'''),
 ('pipeline/strictordnode.go','','node.cond = sync.NewCond(&sync.Mutex{})','node.cond = strictCond')],
 'a receiver of a strictly ordered node that runs another pipeline with a strictly ordered node while its own node is fed the next batch',
 'all strictly ordered nodes share a lock, so that nested pipelines deadlock',
 '''github.com/exascience/pargo/pipeline
time
---
func run(n int, f func()) {
	var p pipeline.Pipeline
	p.Source(make([]int, n))
	p.NofBatches(n)
	p.Add(pipeline.Par(pipeline.Receive(func(_ int, d interface{}) interface{} { return d })),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, d interface{}) interface{} {
			f()
			return d
		})))
	p.Run()
}

func main() {
	done := make(chan bool)
	go func() {
		run(50, func() {
			time.Sleep(2 * time.Millisecond)
			run(5, func() {})
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		check(false, "nested pipelines do not end")
	}
}
''')
