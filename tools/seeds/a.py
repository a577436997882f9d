P='"github.com/exascience/pargo/parallel"\n'.replace('"','')
PAR='github.com/exascience/pargo/parallel\n'; SPEC='github.com/exascience/pargo/speculative\n'; SEQ='github.com/exascience/pargo/sequential\n'
PIPE='github.com/exascience/pargo/pipeline\n'; MAP='psync "github.com/exascience/pargo/sync"\n'; SORT='psort "github.com/exascience/pargo/sort"\n'
TRY='''
// try returns what f panics with.
func try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}
'''
WITHIN='''
// within tells whether f returns in time.
func within(f func()) bool {
	c := make(chan bool)
	go func() { f(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}
'''
bug('C01-rangeor-empty-batch','C01',[('speculative/speculative.go','func RangeOr(','mid >= high','mid > high')],
 'speculative.RangeOr with a batch count that does not divide the size, such that a right half has one element left for two batches (e.g. size 6, n 5)',
 'speculative.RangeOr invokes the predicate for an empty batch [high,high)',
 'sync\n'+SPEC+'''---
func main() {
	for size := 1; size < 40; size++ {
		for n := 1; n <= size; n++ {
			var m sync.Mutex
			sum := 0
			speculative.RangeOr(0, size, n, func(low, high int) bool {
				m.Lock()
				defer m.Unlock()
				check(low < high, "empty batch %v:%v of size %v, %v batches", low, high, size, n)
				sum += high - low
				return false
			})
			check(sum == size, "covered %v of %v", sum, size)
		}
	}
}
''')
bug('C02-sequential-unchecked','C02',[('sequential/sequential.go','func RangeReduceStringSum(','return recur(low, high, internal.ComputeNofBatches(low, high, n))','if n == 0 {\n\t\tn = internal.ComputeNofBatches(low, high, n)\n\t}\n\treturn recur(low, high, n)')],
 'sequential.RangeReduceStringSum with an explicit batch count and high < low',
 'an invalid range no longer panics: reduce is called with high < low',
 SEQ+'''---
func main() {
	defer func() {
		p := recover()
		check(p != nil, "no panic for an invalid range")
	}()
	sequential.RangeReduceStringSum(5, 3, 2, func(low, high int) string { return "" })
}
''')
bug('C03-product-shortcut','C03',[('parallel/parallel.go','func RangeReduceIntProduct(','wg.Wait()\n','if left == 0 {\n\t\t\t\t// the product is known\n\t\t\t\treturn 0\n\t\t\t}\n\t\t\twg.Wait()\n')],
 'a left batch of parallel.RangeReduceIntProduct reduces to 0 while a right batch still runs (or panics)',
 'RangeReduceIntProduct returns while batches are still running, and drops their panics',
 'sync/atomic\ntime\n'+PAR+'''---
func main() {
	var done int32
	parallel.RangeReduceIntProduct(0, 2, 2, func(low, high int) int {
		if low == 0 {
			return 0
		}
		time.Sleep(200 * time.Millisecond)
		atomic.StoreInt32(&done, 1)
		return 1
	})
	check(atomic.LoadInt32(&done) == 1, "a batch still runs")
}
''')
bug('C04-reducestring-empty','C04',[('parallel/parallel.go','func ReduceString(','return join(left, right)','if right == "" {\n\t\treturn left\n\t}\n\treturn join(left, right)')],
 'a join function for which the empty string is not neutral, and an empty right result',
 'parallel.ReduceString skips the join for empty right results',
 PAR+'''---
func main() {
	join := func(x, y string) string { return x + "," + y }
	s := parallel.ReduceString(join, func() string { return "a" }, func() string { return "" }, func() string { return "b" }, func() string { return "" })
	check(s == "a,,b,", "got %q", s)
}
''')
bug('C05-or-swallows','C05',[('parallel/parallel.go','func RangeOr(','if p != nil {','if p != nil && !b0 {')],
 'parallel.RangeOr with a left batch that returns true and a right one that panics',
 'the panic of the right batch is dropped',
 PAR+'''---
'''+TRY+'''
func main() {
	p := try(func() {
		parallel.RangeOr(0, 4, 4, func(low, high int) bool {
			if low == 3 {
				panic("three")
			}
			return low == 0
		})
	})
	check(p != nil, "no panic")
}
''')
bug('C06-format','C06',[('internal/internal.go','func WrapPanic','fmt.Sprintf("%v\\n%s\\nrethrown at", p, debug.Stack())','fmt.Sprintf(fmt.Sprint(p)+"\\n%s\\nrethrown at", debug.Stack())')],
 'a panic value whose text contains a percent sign, in a spawned goroutine',
 'the text of the panic value is interpreted as a format and garbled',
 'strings\n'+PAR+'''---
'''+TRY+'''
func main() {
	p := try(func() {
		parallel.Do(func() {}, func() { panic("100%s sure") })
	})
	check(strings.HasPrefix(fmt.Sprint(p), "100%s sure\\n"), "got %.40v", p)
}
''')
bug('C07-right-joined','C07',[('speculative/speculative.go','func RangeReduceInt(','if b1 {\n\t\t\t\treturn right, true\n\t\t\t}\n\t\t\treturn join(left, right)','result, ok := join(left, right)\n\t\t\treturn result, ok || b1')],
 'speculative.RangeReduceInt where only a right batch decides, with a join that changes the value',
 'the decided value is joined with the results to its left instead of being returned',
 SPEC+'''---
func main() {
	r, ok := speculative.RangeReduceInt(0, 4, 4, func(low, high int) (int, bool) {
		return 10 + low, low == 2
	}, func(x, y int) (int, bool) { return x + y, false })
	check(ok && r == 12, "got %v %v", r, ok)
}
''')
bug('C08-and-waits','C08',[('speculative/speculative.go','func RangeAnd(','if !recur(low, mid, half) {\n\t\t\t\treturn false\n\t\t\t}\n\t\t\twg.Wait()\n','ok := recur(low, mid, half)\n\t\t\twg.Wait()\n\t\t\tif !ok {\n\t\t\t\treturn false\n\t\t\t}\n')],
 'a batch to the right of the deciding one that takes long',
 'speculative.RangeAnd waits for all batches before it returns false',
 'time\n'+SPEC+'''---
'''+WITHIN+'''
func main() {
	c := make(chan bool)
	check(within(func() {
		b := speculative.RangeAnd(0, 4, 4, func(low, high int) bool {
			if low == 3 {
				<-c
			}
			return low != 1
		})
		check(!b, "wrong result")
	}), "RangeAnd waits for a batch behind the decision")
}
''')
bug('C09-lost-panic','C09',[('speculative/speculative.go','func Or(','if p != nil {','if p != nil && len(predicates) == 2 {')],
 'speculative.Or with at least 3 predicates, none true, and a panic in the right half',
 'the panic is dropped and Or returns false',
 SPEC+'''---
'''+TRY+'''
func main() {
	f := func() bool { return false }
	p := try(func() { speculative.Or(f, f, func() bool { return false }, f, func() bool { panic("x") }) })
	check(p != nil, "no panic")
	p = try(func() { speculative.Or(f, f, func() bool { panic("y") }) })
	check(p != nil, "no panic")
}
''')
bug('C10-sequential-fold','C10',[('sequential/sequential.go','func RangeReduceString(','left := recur(low, mid, half)\n\t\t\tright := recur(mid, high, n-half)','right := recur(mid, high, n-half)\n\t\t\tleft := recur(low, mid, half)')],
 'sequential.RangeReduceString with a reduce function that has side effects or panics in several batches',
 'the batches are processed from right to left: the right-most panic wins, and side effects are reversed',
 SEQ+'''---
func main() {
	var order []int
	sequential.RangeReduceString(0, 5, 5, func(low, high int) string {
		order = append(order, low)
		return ""
	}, func(x, y string) string { return x + y })
	for i, k := range order {
		check(i == k, "order %v", order)
	}
}
''')
bug('C11-loadorcompute-overwrites','C11',[('sync/map.go','func (m *Map) LoadOrCompute','if actual, loaded = split.Map[key]; !loaded {\n\t\tactual = value\n\t\tsplit.Map[key] = actual\n\t}\n','actual = value\n\tsplit.Map[key] = actual\n')],
 'two concurrent LoadOrCompute (or LoadOrStore) calls for the same absent key',
 'both calls report that they stored their value, the later one overwrites the earlier one',
 'sync\n'+MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	m := psync.NewMap(3)
	var wg sync.WaitGroup
	a, b := make(chan bool), make(chan bool)
	stored := make([]bool, 2)
	wg.Add(2)
	go func() {
		defer wg.Done()
		_, loaded := m.LoadOrCompute(key(1), func() interface{} { a <- true; <-b; return 1 })
		stored[0] = !loaded
	}()
	go func() {
		defer wg.Done()
		<-a
		_, loaded := m.LoadOrCompute(key(1), func() interface{} { return 2 })
		stored[1] = !loaded
		b <- true
	}()
	wg.Wait()
	check(stored[0] != stored[1], "both calls stored a value")
	v, _ := m.Load(key(1))
	check(v == 2, "got %v", v)
}
''')
bug('C11-deleteorstore-unlocked','C11',[('sync/map.go','func (m *Map) DeleteOrStore','split.Lock()\n\tif actual, deleted = split.Map[key]; deleted {','split.RLock()\n\tactual, deleted = split.Map[key]\n\tsplit.RUnlock()\n\tsplit.Lock()\n\tif deleted {')],
 'two concurrent DeleteOrStore calls for the same key, the second between the lookup and the update of the first',
 'both calls delete the same value (or both store theirs)',
 'sync\nsync/atomic\n'+MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	// every value is deleted once: deletions and stores alternate
	m := psync.NewMap(1)
	var deleted, stored int64
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300000; i++ {
				if _, d := m.DeleteOrStore(key(1), i); d {
					atomic.AddInt64(&deleted, 1)
				} else {
					atomic.AddInt64(&stored, 1)
				}
			}
		}()
	}
	wg.Wait()
	d := stored - deleted
	_, ok := m.Load(key(1))
	check(d == 0 && !ok || d == 1 && ok, "%v stored, %v deleted, present %v", stored, deleted, ok)
}
''')
bug('C12-nil-value','C12',[('sync/map.go','func (m *Map) LoadOrStore','if actual, loaded = split.Map[key]; !loaded {\n\t\tactual = value','if actual = split.Map[key]; actual == nil {\n\t\tactual = value'),('sync/map.go','func (m *Map) LoadOrStore','\t\tsplit.Map[key] = value\n\t}\n','\t\tsplit.Map[key] = value\n\t} else {\n\t\tloaded = true\n\t}\n'),('sync/map.go','func (m *Map) LoadOrStore','if loaded {\n\t\treturn\n\t}','if actual != nil {\n\t\treturn actual, true\n\t}\n\tloaded = false')],
 'LoadOrStore for a key whose stored value is nil',
 'a stored nil counts as absent: LoadOrStore overwrites it and reports that it stored',
 MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	m := psync.NewMap(3)
	m.LoadOrStore(key(1), nil)
	v, loaded := m.LoadOrStore(key(1), 5)
	check(v == nil && loaded, "got %v %v", v, loaded)
}
''')
bug('C13-signed-hash','C13',[('sync/map.go','func (m *Map) Split','return &splits[key.Hash()%uint64(len(splits))]','h := int(key.Hash())\n\tif h < 0 {\n\t\th = -h\n\t}\n\treturn &splits[h%len(splits)]')],
 'a key whose hash is 1<<63, with a number of splits that does not divide it',
 'every operation on such a key panics with an index out of range',
 MAP+'''---
type key uint64

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	for n := 1; n < 10; n++ {
		m := psync.NewMap(n)
		for _, h := range []uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1} {
			m.LoadOrStore(key(h), h)
			v, ok := m.Load(key(h))
			check(ok && v == h, "lost %v", h)
		}
	}
}
''')
bug('C14-range-snapshot','C14',[('sync/map.go','func (split *Split) srange','split.Lock()\n\tdefer split.Unlock()\n\tfor key, value := range split.Map {','split.Lock()\n\tsnapshot := make(map[interface{}]interface{}, len(split.Map))\n\tfor key, value := range split.Map {\n\t\tsnapshot[key] = value\n\t}\n\tsplit.Unlock()\n\tfor key, value := range snapshot {')],
 'an operation on the same split while Range or SpeculativeRange calls its function',
 'the function is called without the lock of the split: it sees entries that were deleted meanwhile',
 'time\n'+MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	m := psync.NewMap(1)
	m.LoadOrStore(key(1), 1)
	done := make(chan bool)
	m.Range(func(k, v interface{}) bool {
		go func() {
			m.Delete(key(1))
			close(done)
		}()
		select {
		case <-done:
			check(false, "the split is not locked")
		case <-time.After(300 * time.Millisecond):
		}
		return true
	})
	<-done
}
''')
bug('C15-speculative-order','C15',[('sync/map.go','func (m *Map) SpeculativeReduceString(','if b1 {\n\t\t\treturn right, true\n\t\t}\n','if b1 {\n\t\t\tleft, right = right, left\n\t\t}\n')],
 'sync.Map.SpeculativeReduceString where a split right of an undecided one decides',
 'the decision is lost: the results are joined in reverse order and reported as undecided',
 MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }

func main() {
	m := psync.NewMap(4)
	for i := 0; i < 4; i++ {
		m.LoadOrStore(key(i), i)
	}
	r, ok := m.SpeculativeReduceString(func(s map[interface{}]interface{}) (string, bool) {
		for k := range s {
			return fmt.Sprint(k), k == key(2)
		}
		return "", false
	}, func(x, y string) (string, bool) { return x + y, false })
	check(ok && r == "2", "got %q %v", r, ok)
}
''')
bug('C16-lock-left','C16',[('sync/map.go','func (split *Split) speculativeReduceInt','split.Lock()\n\tdefer split.Unlock()\n\treturn r(split.Map)','split.Lock()\n\tresult, ok := r(split.Map)\n\tsplit.Unlock()\n\treturn result, ok')],
 'a panic in the function given to SpeculativeReduceInt, and a later operation on that split',
 'the lock of the split is left held: later operations block for ever',
 'time\n'+MAP+'''---
type key int

func (k key) Hash() uint64 { return uint64(k) }
'''+TRY+WITHIN+'''
func main() {
	m := psync.NewMap(2)
	p := try(func() {
		m.SpeculativeReduceInt(func(map[interface{}]interface{}) (int, bool) { panic("x") }, func(x, y int) (int, bool) { return 0, false })
	})
	check(p != nil, "no panic")
	check(within(func() { m.Load(key(0)); m.Load(key(1)) }), "a lock is left held")
}
''')
bug('C17-equal-left','C17',[('sort/quicksort.go','func Sort(','			parallel.Do(\n				func() { pSort(index, j-index) },','			n := j - index\n			if n > 1 && !data.Less(j-1, j) {\n				n -= 2 // equal to the pivot\n			}\n			parallel.Do(\n				func() { pSort(index, n) },')],
 'a partition whose last element is equal to the pivot and the one before is not',
 'an element next to one that is equal to the pivot is left out, so the result is not sorted',
 'math/rand\n'+SORT+'''---
func main() {
	for n := 1300; n < 8000; n += 100 {
		s := make([]int, n)
		for i := range s {
			s[i] = rand.Intn(7)
		}
		psort.Sort(psort.IntSlice(s))
		for i := 1; i < n; i++ {
			check(s[i-1] <= s[i], "not sorted")
		}
	}
}
''')
bug('C18-quarters','C18',[('sort/mergesort.go','func StableSort(','q3 := q2 + q1','q3 := size - q1')],
 'a size (or the size of a recursive part) of at least 0x3000 that is not a multiple of 4',
 'elements between the third and the last quarter are not sorted',
 SORT+'''---
func main() {
	for n := 0x3000; n < 0x3004; n++ {
		s := make([]int, n)
		for i := range s {
			s[i] = n - i
		}
		psort.StableSort(psort.IntSlice(s))
		for i := 1; i < n; i++ {
			check(s[i-1] <= s[i], "not sorted")
		}
	}
}
''')
bug('C18-temp-wait','C18',[('sort/mergesort.go','func StableSort(','temp.Wait()','if index == 0 {\n				temp.Wait()\n			}')],
 'a size of at least 4*0x3000, so that parts are sorted recursively, and a NewTemp that takes longer than sorting such a part',
 'a recursive part uses the temporary collection before it exists',
 'time\n'+SORT+'''---
func main() {
	n := 0x3000 * 5
	s := make([]int, n)
	for i := range s {
		s[i] = n - i
	}
	defer func() {
		check(recover() == nil, "panic")
		for i := 1; i < n; i++ {
			check(s[i-1] <= s[i], "not sorted")
		}
	}()
	psort.StableSort(tmpSlice{s})
}

// tmpSlice is an IntSlice with a slow NewTemp.
type tmpSlice struct{ s psort.IntSlice }

func (t tmpSlice) Len() int                { return t.s.Len() }
func (t tmpSlice) Less(i, j int) bool      { return t.s.Less(i, j) }
func (t tmpSlice) SequentialSort(i, j int) { t.s.SequentialSort(i, j) }
func (t tmpSlice) NewTemp() psort.StableSorter {
	time.Sleep(time.Second)
	return tmpSlice{make([]int, len(t.s))}
}
func (t tmpSlice) Assign(src psort.StableSorter) func(i, j, len int) {
	return t.s.Assign(src.(tmpSlice).s)
}
''')
bug('C19-cutoff','C19',[('sort/sort.go','func IsSorted','return pTest(serialCutoff, size-serialCutoff)','return pTest(serialCutoff+1, size-serialCutoff-1)')],
 'a large collection whose only inversion is between the elements 9 and 10',
 'IsSorted misses that inversion',
 SORT+'''---
func main() {
	n := 5000
	for i := 1; i < n; i++ {
		s := make([]int, n)
		for j := range s {
			s[j] = j
		}
		s[i], s[i-1] = s[i-1], s[i]
		check(!psort.IntsAreSorted(s), "inversion at %v", i)
	}
}
''')
bug('C20-unstable-base','C20',[('sort/sort.go','func (s Float64Slice) SequentialSort','sort.Stable(sort.Float64Slice(s[i:j]))','sort.Sort(sort.Float64Slice(s[i:j]))')],
 'SequentialSort of a Float64Slice with more than 12 elements that contains both signed zeros or several NaNs',
 'SequentialSort, and thereby StableSort, is not stable for float64s that compare equal but differ',
 'math\nmath/rand\n'+SORT+'''---
func main() {
	rng := rand.New(rand.NewSource(1))
	for n := 2; n < 200; n++ {
		s := make([]float64, n)
		var neg []bool
		for i := range s {
			switch rng.Intn(3) {
			case 0:
				s[i] = math.Copysign(0, -1)
				neg = append(neg, true)
			case 1:
				s[i] = 0
				neg = append(neg, false)
			case 2:
				s[i] = float64(rng.Intn(5) + 1)
			}
		}
		psort.Float64Slice(s).SequentialSort(0, n)
		for i, b := range neg {
			check(s[i] == 0 && math.Signbit(s[i]) == b, "not stable")
		}
	}
}
''')
