//go:build go1.21

package h

import (
	"github.com/exascience/pargo/zz_verif/sym"
)

const (
	kNormal = iota
	kDecide
	kPanic
)

// kinds draws what each of n functions does: at most max functions are not normal when n is large.
func kinds(n, max int) []int {
	ks := make([]int, n)
	if n <= 4 {
		for i := range ks {
			ks[i] = sym.Concrete(sym.IntIn("k"+itoa(i), kNormal, kPanic))
		}
		return ks
	}
	for m := 0; m < max; m++ {
		p := sym.IntIn("p"+itoa(m), 0, n-1)
		k := sym.Concrete(sym.IntIn("k"+itoa(m), kNormal, kPanic))
		ks[sym.Concrete(p)] = k
	}
	return ks
}

func specJoin(dec *bool, n int) JS {
	full := func(lo, hi int) bool { return *dec && lo == 0 && hi == n }
	return JS{
		x: func(a, b interface{}) (interface{}, bool) {
			r := ivJ.x(a, b).(ivx)
			return r, full(r.lo, r.hi)
		},
		i: func(a, b int) (int, bool) {
			r := ivJoin(a, b)
			return r, full(r/ivBase, r%ivBase)
		},
		f: func(a, b float64) (float64, bool) {
			r := ivJoin(int(a), int(b))
			return float64(r), full(r/ivBase, r%ivBase)
		},
		s: func(a, b string) (string, bool) {
			r := a + b
			return r, *dec && r == ivStr(0, n)
		},
	}
}

// drawLate chooses functions after first that end late.
func drawLate(late []bool, first int) {
	n := len(late)
	if n <= 4 {
		for i := first + 1; i < n; i++ {
			late[i] = sym.Bool("late" + itoa(i))
		}
		return
	}
	p := sym.Concrete(sym.IntIn("late", first+1, n-1))
	late[p] = true
	if sym.Bool("lateTail") {
		for i := p; i < n; i++ {
			late[i] = true
		}
	}
}

func specIsBool(fn int) bool {
	switch fn {
	case fDo, fAnd, fOr, fRange, fRangeAnd, fRangeOr:
		return true
	}
	return false
}

func checkSpec(fn int, r V, dec bool, exp V, expDec bool) {
	sym.Assert(dec == expDec, "the call decides exactly if a function or the final join decides")
	switch fn {
	case fDo, fAnd, fOr, fRange, fRangeAnd, fRangeOr:
	case fReduce, fRangeReduce:
		sym.Assert(r.x == exp.x, "result of the left-most decision, or of all functions in order")
	case fReduceInt, fRangeReduceInt:
		sym.Assert(r.i == exp.i, "result of the left-most decision, or of all functions in order")
	case fReduceFloat64, fRangeReduceFloat64:
		sym.Assert(r.f == exp.f, "result of the left-most decision, or of all functions in order")
	default:
		sym.Assert(r.s == exp.s, "result of the left-most decision, or of all functions in order")
	}
}

// Spec: decisions, panics and functions that end late, in any combination
// (C07, C08, C09; mode selects which of them are drawn).
//
//	mode 0: normal and deciding functions
//	mode 1: functions to the right of the left-most deciding one end only after the call
//	mode 2: panicking functions as well
func Spec() {
	f, n, mode := sym.P("fn"), sym.P("n"), sym.P("mode")
	fn := specFuncs[f]
	ks := kinds(n, 2)
	first := -1
	for i, k := range ks {
		if k != kNormal && first < 0 {
			first = i
		}
	}
	npanic := 0
	for _, k := range ks {
		if k == kPanic {
			npanic++
		}
	}
	if mode != 2 {
		sym.Assume(npanic == 0 || mode == 1 && ks[first] == kDecide)
	}
	if mode == 1 {
		sym.Assume(first >= 0 && first < n-1)
	}
	joinDec := mode == 0 && n > 1 && !specIsBool(fn) && sym.Bool("joinDecides")
	// the functions return zero values, or others
	zero := !specIsBool(fn) && mode != 1 && !joinDec && sym.Bool("zero")
	decV := V{x: ivx{first, -1}, i: -first - 1, f: float64(-first - 1), s: "d" + itoa(first)}
	joined := ivV(0, n)
	js := specJoin(&joinDec, n)
	if zero {
		decV = V{}
		joined = V{}
		js = JS{
			x: func(a, b interface{}) (interface{}, bool) { return a, false },
			i: func(a, b int) (int, bool) { return a, false },
			f: func(a, b float64) (float64, bool) { return a, false },
			s: func(a, b string) (string, bool) { return a, false },
		}
	}
	late := make([]bool, n)
	if mode == 1 {
		// only the result is claimed for functions left of the decision
		drawLate(late, first)
	}
	release := make(chan struct{})
	cnt := make([]int, n)
	end := make([]int, n)
	var r V
	var dec bool
	panicked, val := try(func() {
		r, dec = callSpec(fn, 0, n, n, func(lo, hi int) (V, bool) {
			cnt[lo]++
			if late[lo] {
				<-release
			}
			if ks[lo] == kPanic {
				panic(token(lo))
			}
			end[lo]++
			if zero {
				return V{}, ks[lo] == kDecide
			}
			if ks[lo] == kDecide {
				return V{x: ivx{lo, -1}, i: -lo - 1, f: float64(-lo - 1), s: "d" + itoa(lo)}, true
			}
			return ivV(lo, lo+1), false
		}, js)
	})
	switch {
	case first < 0:
		sym.Assert(!panicked, "no panic without a panicking function")
		checkSpec(fn, r, dec, joined, joinDec)
		for i := range cnt {
			sym.Assert(cnt[i] == 1 && end[i] == 1, "if none decides every function was invoked once and has terminated")
		}
		sym.Reach("undecided")
	case ks[first] == kDecide:
		sym.Assert(!panicked, "a decision to the left of every panic is returned")
		checkSpec(fn, r, dec, decV, true)
		sym.Reach("decided")
	default:
		sym.Assert(panicked, "the left-most panic propagates")
		checkPanic(val, first, n)
		sym.Reach("panicked")
	}
	close(release)
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "every goroutine ends once the functions end")
	for i := range cnt {
		sym.Assert(cnt[i] <= 1, "no function is invoked twice")
		if i <= first {
			sym.Assert(cnt[i] == 1, "the deciding function and those left of it are invoked")
		}
	}
	if !panicked && first >= 0 {
		// a late end changed nothing
		checkSpec(fn, r, dec, decV, true)
	}
}

const (
	vNormal = iota
	vZero   // absorbs everything: a join with it decides
	vDecide
	nVals
)

// SpecJoin: joins that decide by themselves wherever one of the results is the
// absorbing element, and ranges of any size (C07). The outcome does not depend on
// how the functions are grouped: the left-most decision of a function, and the
// absorbing element as a decision if there are several results and one is absorbing.
func SpecJoin() {
	f, n := sym.P("fn"), sym.P("n")
	fn := specFuncs[f]
	ks := make([]int, n)
	if n <= 4 {
		for i := range ks {
			ks[i] = sym.Concrete(sym.IntIn("k"+itoa(i), vNormal, vZero))
		}
	} else {
		p := sym.Concrete(sym.IntIn("p", 0, n-1))
		q := sym.Concrete(sym.IntIn("q", p, n-1))
		ks[p], ks[q] = vZero, vZero
	}
	zeros := 0
	for _, k := range ks {
		if k == vZero {
			zeros++
		}
	}
	end := make([]int, n)
	r, dec := callSpec(fn, 0, n, n, func(lo, hi int) (V, bool) {
		end[lo]++
		if ks[lo] == vZero {
			return V{}, false
		}
		return ivV(lo, lo+1), false
	}, JS{
		x: func(a, b interface{}) (interface{}, bool) {
			if a == nil || b == nil {
				return nil, true
			}
			return ivJ.x(a, b), false
		},
		i: func(a, b int) (int, bool) {
			if a == 0 || b == 0 {
				return 0, true
			}
			return ivJ.i(a, b), false
		},
		f: func(a, b float64) (float64, bool) {
			if a == 0 || b == 0 {
				return 0, true
			}
			return ivJ.f(a, b), false
		},
		s: func(a, b string) (string, bool) {
			if a == "" || b == "" {
				return "", true
			}
			return a + b, false
		},
	})
	switch {
	case zeros == 0:
		checkSpec(fn, r, dec, ivV(0, n), false)
		sym.Reach("undecided")
	case n == 1:
		checkSpec(fn, r, dec, V{}, false)
		sym.Reach("single")
	default:
		checkSpec(fn, r, dec, V{}, true)
		sym.Reach("decided")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "every goroutine ends once the functions end")
	for i := range end {
		if zeros == 0 {
			sym.Assert(end[i] == 1, "if none decides every function was invoked once and has terminated")
		}
		sym.Assert(end[i] <= 1, "no function is invoked twice")
	}
}

// SpecRange: what range functions return for ranges of any size and any number
// of batches (C07, C09): element i of the range decides, panics or does neither,
// and a batch does what its first element that is not normal does.
func SpecRange() {
	f, n, size := sym.P("fn"), sym.P("n"), sym.P("size")
	fn := specFuncs[f]
	if n == 0 {
		sym.SetProcs(sym.P("procs"))
	}
	ks := kinds(size, 2)
	first := -1
	for i, k := range ks {
		if k != kNormal && first < 0 {
			first = i
		}
	}
	low := -3
	decE := size == 0 && sym.Bool("decideEmpty")
	var js = specJoin(new(bool), size)
	var r V
	var dec bool
	panicked, val := try(func() {
		r, dec = callSpec(fn, low, low+size, n, func(lo, hi int) (V, bool) {
			lo -= low
			hi -= low
			for i := lo; i < hi; i++ {
				switch ks[i] {
				case kDecide:
					return V{x: ivx{i, -1}, i: -i - 1, f: float64(-i - 1), s: "d" + itoa(i)}, true
				case kPanic:
					panic(token(i))
				}
			}
			return ivV(lo, hi), decE
		}, js)
	})
	switch {
	case first < 0:
		sym.Assert(!panicked, "no panic without a panicking function")
		checkSpec(fn, r, dec, ivV(0, size), decE)
		sym.Reach("undecided")
	case ks[first] == kDecide:
		sym.Assert(!panicked, "a decision to the left of every panic is returned")
		checkSpec(fn, r, dec, V{x: ivx{first, -1}, i: -first - 1, f: float64(-first - 1), s: "d" + itoa(first)}, true)
		sym.Reach("decided")
	default:
		sym.Assert(panicked, "the left-most panic propagates")
		checkPanic(val, first, size)
		sym.Reach("panicked")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "every goroutine ends once the functions end")
}

// Meet: the functions of one call may wait for each other (C32).
func Meet() {
	pkg, fn, n := sym.P("pkg"), sym.P("fn"), sym.P("n")
	// function i tells all that it has started and waits until the others have
	started := make([]chan struct{}, n)
	for i := range started {
		started[i] = make(chan struct{})
	}
	body := func(lo, hi int) V {
		close(started[lo])
		for i := range started {
			<-started[i]
		}
		return ivV(lo, lo+1)
	}
	if pkg == 2 {
		callSpec(specFuncs[fn], 0, n, n, func(lo, hi int) (V, bool) { return body(lo, hi), false }, specJoin(new(bool), n))
	} else {
		call(0, fn, 0, n, n, body, ivJ)
	}
	sym.Reach("met")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
}
