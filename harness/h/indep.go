//go:build go1.21

package h

import (
	"sync"

	"github.com/exascience/pargo/pipeline"
	psort "github.com/exascience/pargo/sort"
	psync "github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/sym"
)

// Kinds of calls for Indep.
const (
	jParallel    = 0
	jSequential  = 100
	jSpeculative = 200
	jMap         = 300 // 3*nFuncs traversals
	jMapOp       = 400
	jSort        = 500
	jPipe        = 600
)

// job is a call on data of its own.
type job struct {
	run   func() // calls inside once, from a user function
	check func() // the call did what it does alone
}

// newJob prepares a call of the given kind. k tells the calls apart.
func newJob(op, k int, inside func()) job {
	x := sym.IntIn("x"+itoa(k), -1<<40, 1<<40)
	switch {
	case op < jMap:
		return foldJob(op/100, op%100, k, x, inside)
	case op < jMapOp:
		return mapJob((op-jMap)/nFuncs, (op-jMap)%nFuncs, k, x, inside)
	case op < jSort:
		return opJob(op-jMapOp, k, x, inside)
	case op < jPipe:
		return sortJob(op-jSort, k, x, inside)
	}
	return pipeJob(op-jPipe, k, x, inside)
}

// jobVals are the results of n functions, and their fold.
func jobVals(fn, k, n, x int) (vals []V, exp V) {
	vals = make([]V, n)
	for i := range vals {
		vals[i] = ivV(4*k+i, 4*k+i+1)
		vals[i].b = sym.Bool("b" + itoa(10*k+i))
		switch fn {
		case fReduceIntSum, fReduceIntProduct, fRangeReduceIntSum, fRangeReduceIntProduct:
			vals[i].i = 3*k + i + 2
			if i == 0 {
				vals[i].i = x
			}
		case fReduceFloat64Sum, fReduceFloat64Product, fRangeReduceFloat64Sum, fRangeReduceFloat64Product:
			vals[i].f = float64(3*k + i + 2)
		}
	}
	if fn < fRange {
		fn += fRange
	}
	return vals, foldRange(fn, vals, 0, n, V{}, ivJ)
}

// foldJob: a function of parallel, sequential or speculative.
func foldJob(pkg, fn, k, x int, inside func()) job {
	const n = 2
	if pkg == 2 {
		fn = specFuncs[fn]
	}
	vals, exp := jobVals(fn, k, n, x)
	cnt := make([]int, n)
	var r V
	if pkg == 2 {
		// the first function may decide
		dec := sym.Bool("d" + itoa(k))
		isDec := false
		no := false
		js := specJoin(&no, n)
		if dec {
			exp = vals[0]
		}
		return job{
			run: func() {
				r, isDec = callSpec(fn, 0, n, n, func(lo, hi int) (V, bool) {
					cnt[lo]++
					if lo == 0 {
						inside()
					}
					return vals[lo], dec && lo == 0
				}, js)
			},
			check: func() {
				checkSpec(fn, r, isDec, exp, dec)
				sym.Assert(cnt[0] == 1, "its own functions are called once")
				if !dec {
					sym.Assert(cnt[1] == 1, "its own functions are called once")
				}
			},
		}
	}
	return job{
		run: func() {
			r = call(pkg, fn, 0, n, n, func(lo, hi int) V {
				cnt[lo]++
				if lo == 0 {
					inside()
				}
				return vals[lo]
			}, ivJ)
		},
		check: func() {
			checkFold(fn, 0, r, exp)
			sym.Assert(cnt[0] == 1, "its own functions are called once")
			if pkg == 0 || !specIsBool(fn) || fn == fDo || fn == fRange {
				sym.Assert(cnt[1] == 1, "its own functions are called once")
			}
		},
	}
}

// mapJob: a traversal, predicate or reduction of a sync.Map.
func mapJob(kind, fn, k, x int, inside func()) job {
	const n = 2
	m := newMarked(n)
	vals, exp := jobVals(fn, k, n, x)
	for i := range vals {
		vals[i].b = fn == fAnd
	}
	exp.b = fn == fAnd
	cnt := make([]int, n)
	var r V
	no := false
	return job{
		run: func() {
			r, _ = callMap(kind, fn, m.m, func(i int) (V, bool) {
				cnt[i]++
				if i == 0 {
					inside()
				}
				return vals[i], false
			}, ivJ, specJoin(&no, n))
		},
		check: func() {
			switch {
			case kind < 2:
				checkFold(fn, 0, r, exp)
			case specIsBool(fn):
				checkSpec(fn, r, false, V{}, false)
			default:
				checkSpec(fn, r, false, exp, false)
			}
			for i := range cnt {
				sym.Assert(cnt[i] == 1, "its own splits are visited once")
			}
			m.checkUsable()
		},
	}
}

// opJob: two operations on a sync.Map.
func opJob(op, k, x int, inside func()) job {
	m := psync.NewMap(2)
	a, b := mkey{7, 1}, mkey{uint64(k), 2}
	m.LoadOrStore(a, x)
	var r, r2 opRes
	e1, after := specOp(op, entry{true, interface{}(x)}, "new"+itoa(k))
	e2, after2 := specOp(op, entry{}, k)
	return job{
		run: func() {
			if op == oLoad || op == oLoadOrStore || op == oDelete || op == oDeleteOrStore {
				inside()
				r2 = doOp(m, op, b, k, func() {})
			} else {
				r2 = doOp(m, op, b, k, inside)
			}
			r = doOp(m, op, a, "new"+itoa(k), func() {})
		},
		check: func() {
			sym.Assert(sameOp(op, r, e1) && sameOp(op, r2, e2), "operations on a map of one's own have the specified results")
			v, ok := m.Load(a)
			sym.Assert(ok == after.ok && v == after.v, "operations on a map of one's own have the specified effects")
			v, ok = m.Load(b)
			sym.Assert(ok == after2.ok && v == after2.v, "operations on a map of one's own have the specified effects")
		},
	}
}

// sortJob: 0 Sort, 1 StableSort, 2 IsSorted, 3.. the slice types.
func sortJob(op, k, x int, inside func()) job {
	n := 5
	if op >= 9 {
		// more elements, of which few have arbitrary keys
		n = []int{1400, 12400, 2700}[op-9]
		if op < 11 {
			x = 5 + k
		}
		op -= 9
	}
	switch op {
	case 0, 1, 2:
		c := &coll{d: make([]rec, n+1), n: n}
		for i := range c.d {
			c.d[i] = rec{(7*i + 3 + k) % n, i}
		}
		if op == 2 {
			for i := range c.d {
				c.d[i] = rec{i, i}
			}
		}
		c.d[n] = rec{0, -1}
		at := n/2 + 100*(n/1000)
		c.d[at].key = x
		sorted := false
		exp := sym.And(x >= at-1, x <= at+1)
		if op == 2 {
			c.isSorted = inside
		} else {
			c.inside = inside
		}
		return job{
			run: func() {
				switch op {
				case 0:
					psort.Sort(c)
				case 1:
					psort.StableSort(c)
				case 2:
					sorted = psort.IsSorted(c)
				}
			},
			check: func() {
				if op == 2 {
					sym.Assert(sorted == exp, "IsSorted is exact")
				} else {
					checkSorted(c, op == 1)
				}
			},
		}
	}
	is := psort.IntSlice{9 + k, 4 + k, x, 1 + k, 7 + k}
	ss := psort.StringSlice{"q", "c", "x", "a", itoa(k)}
	fs := psort.Float64Slice{9, 4, float64(k), 1, 7}
	return job{
		run: func() {
			inside()
			switch op {
			case 3:
				psort.Sort(is)
			case 4:
				psort.StableSort(is)
			case 5:
				psort.Sort(ss)
			case 6:
				psort.StableSort(ss)
			case 7:
				psort.Sort(fs)
			case 8:
				psort.StableSort(fs)
			}
		},
		check: func() {
			for i := 1; i < n; i++ {
				if op < 5 {
					sym.Assert(is[i-1] <= is[i], "sorted")
				} else if op < 7 {
					sym.Assert(ss[i-1] <= ss[i], "sorted")
				} else {
					sym.Assert(fs[i-1] <= fs[i], "sorted")
				}
			}
			if op < 5 {
				sym.Assert(is[0]+is[1]+is[2]+is[3]+is[4] == 21+4*k+x, "the contents are a permutation")
			}
		},
	}
}

// shared is a filter without a state that all pipelines use at the same time.
var shared = pipeline.Receive(func(_ int, data interface{}) interface{} { return data })

// pipeJob: a pipeline. op is 10*source + nodes.
func pipeJob(op, k, x int, inside func()) job {
	const n = 2
	p := new(pipeline.Pipeline)
	data := []int{10 * k, 10*k + 1}
	byNumber := true
	switch op / 10 {
	case 0:
		p.Source(data)
		p.NofBatches(n)
	case 1:
		c := make(chan int, n)
		for _, d := range data {
			c <- d
		}
		close(c)
		p.Source(c)
		p.SetVariableBatchSize(1, 1)
	case 2:
		i := 0
		p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
			if i == n {
				return nil, 0, nil
			}
			i++
			return data[i-1 : i], 1, nil
		}))
		p.SetVariableBatchSize(1, 1)
	case 3:
		c := make(chan int, n)
		for _, d := range data {
			c <- d
		}
		close(c)
		p.Source(pipeline.NewSingletonChan(c))
	case 4:
		p.Source(itoa(10*k) + itoa(10*k+1))
		p.NofBatches(1)
		byNumber = false
	}
	sum, calls, fin := 0, 0, 0
	add := func(d interface{}) {
		calls++
		switch d := d.(type) {
		case int:
			sum += d
		case []int:
			for _, e := range d {
				sum += e
			}
		case string:
			sum += len(d)
		}
	}
	ordered := pipeline.ReceiveAndFinalize(func(seqNo int, d interface{}) interface{} {
		if calls == 0 {
			inside()
		}
		add(d)
		return d
	}, func() { fin++ })
	var mu sync.Mutex
	anyOrder := pipeline.ReceiveAndFinalize(func(seqNo int, d interface{}) interface{} {
		mu.Lock()
		add(d)
		mu.Unlock()
		if seqNo == 0 {
			inside()
		}
		return d
	}, func() { fin++ })
	count, some, every := -1, k == 0, k == 0
	last := data[n-1]
	isLast := func(d interface{}) bool {
		switch d := d.(type) {
		case int:
			return d == last
		case []int:
			return d[len(d)-1] == last
		}
		return true
	}
	var ints []int
	skipped := 0
	var expCount, expInts = -1, 0
	switch op % 10 {
	case 0:
		p.Add(pipeline.Par(shared), pipeline.Ord(shared, ordered))
	case 1:
		p.Add(pipeline.Seq(ordered, shared), pipeline.Par(shared))
	case 2:
		p.Add(pipeline.Par(shared), pipeline.StrictOrd(ordered))
	case 3:
		p.Add(pipeline.LimitedPar(2, anyOrder), pipeline.Seq(shared))
	case 4:
		p.Add(pipeline.Skip(1), pipeline.Ord(ordered))
		skipped = 1
	case 5:
		p.Add(pipeline.Limit(1, k == 0), pipeline.Ord(ordered))
		skipped = 2
	case 6:
		p.Add(pipeline.Par(pipeline.Count(&count), anyOrder))
		expCount = n
	case 7:
		p.Add(pipeline.Par(anyOrder, pipeline.Some(&some, false, isLast)))
		p.Add(pipeline.Seq(pipeline.Every(&every, false, isLast)))
	case 8:
		p.Add(pipeline.NewNode(pipeline.Sequential, pipeline.Slice(&ints), ordered))
		expInts = n
	case 9:
		p.Add(&userNode{}, pipeline.Seq(ordered))
	}
	return job{
		run: p.Run,
		check: func() {
			exp := 20*k + 1
			switch {
			case !byNumber:
				exp = len(itoa(10*k)) + len(itoa(10*k+1))
				if skipped == 1 {
					exp--
				} else if skipped == 2 {
					exp = 1
				}
			case skipped == 1:
				exp = 10*k + 1
			case skipped == 2:
				exp = 10 * k
			}
			sym.Assert(sum == exp, "the receivers got the data of their own pipeline")
			sym.Assert(fin == 1, "the finalizer ran")
			sym.Assert(p.Err() == nil, "no error of another pipeline is seen")
			sym.Assert(p.Context().Err() != nil, "the context of the run is cancelled at the end")
			if expCount >= 0 {
				sym.Assert(count == expCount || !byNumber, "Count counts the data of its own pipeline")
			}
			if op%10 == 7 {
				sym.Assert(some && every == !byNumber, "predicates see the data of their own pipeline")
			}
			if expInts > 0 && byNumber {
				sym.Assert(len(ints) == n && ints[0] == data[0] && ints[1] == data[1], "Slice collects the data of its own pipeline")
			}
		},
	}
}

// Indep: calls on independent data do not influence each other (C34).
//
//	how 0: in two goroutines, 1: one after the other, 2: nested in a user function,
//	3: after a call of the same kind that panics, 4: nested several levels deep
func Indep() {
	a, b, how := sym.P("a"), sym.P("b"), sym.P("how")
	sym.SetProcs(sym.P("procs"))
	none := func() {}
	switch how {
	case 0:
		p, q := newJob(a, 0, none), newJob(b, 1, none)
		done := make(chan bool, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- false
				}
			}()
			q.run()
			done <- true
		}()
		p.run()
		p.check()
		sym.Assert(<-done, "the other call does not panic")
		q.check()
		p.check()
	case 1:
		p, q, r := newJob(a, 0, none), newJob(b, 1, none), newJob(a, 2, none)
		p.run()
		p.check()
		q.run()
		q.check()
		r.run()
		r.check()
		q.check()
		p.check()
	case 2:
		q := newJob(b, 1, none)
		p := newJob(a, 0, func() {
			q.run()
			q.check()
		})
		p.run()
		p.check()
		q.check()
	case 3:
		for k := 1; k <= 3; k++ {
			bad := newJob(a, k, func() { panic("bad") })
			panicked, _ := try(bad.run)
			sym.Assert(panicked, "the panic propagates")
		}
		p := newJob(b, 0, none)
		p.run()
		p.check()
	case 4:
		in := newJob(a, 3, none)
		for k := 2; k >= 0; k-- {
			next, o := in, a
			if k%2 == 0 {
				o = b
			}
			in = newJob(o, k, func() {
				next.run()
				next.check()
			})
		}
		in.run()
		in.check()
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("done")
}
