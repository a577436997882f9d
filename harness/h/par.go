//go:build go1.21

package h

import (
	"github.com/exascience/pargo/zz_verif/sym"
)

func call(pkg, fn, lo, hi, n int, body func(lo, hi int) V, j J) V {
	if pkg == 0 {
		return callParallel(fn, lo, hi, n, body, j)
	}
	return callSequential(fn, lo, hi, n, body, j)
}

// Once: every function runs exactly once, all have ended when the call returns,
// and their effects are visible without further synchronization (C03).
func Once() {
	fn, n := sym.P("fn"), sym.P("n")
	cnt := make([]int, n)
	end := make([]int, n)
	bs := make([]bool, n)
	isB := fn == fAnd || fn == fOr || fn == fRangeAnd || fn == fRangeOr
	for i := range bs {
		bs[i] = fn == fAnd || fn == fRangeAnd
		if isB && (n <= 4 || i == n/2) {
			bs[i] = sym.Bool("b" + itoa(i))
		}
	}
	// one result is arbitrary (for instance the neutral or the absorbing element)
	odd := -1
	var oddV V
	if !isB && fn != fDo && fn != fRange {
		if n <= 5 {
			odd = sym.Choose("odd", n)
		} else {
			odd = []int{0, n / 2, n - 1}[sym.Choose("odd", 3)]
		}
		oddV.i = sym.Int("oddi")
		switch {
		case fn == fReduceFloat64Sum || fn == fRangeReduceFloat64Sum || fn == fReduceFloat64Product || fn == fRangeReduceFloat64Product:
			oddV.f = sym.FloatInt("oddf", -2, 2)
		case fn == fReduceFloat64 || fn == fRangeReduceFloat64:
			oddV.f = sym.Float("oddf")
		case fn == fReduce || fn == fRangeReduce:
			if sym.Bool("oddx") {
				oddV.x = oddV.i
			}
		case fn >= fReduceString && fn < fRange || fn >= fRangeReduceString:
			if sym.Bool("odds") {
				oddV.s = string([]byte{sym.ByteIn("oddc", 0, 255)})
			}
		}
	}
	j := J{
		x: func(a, b interface{}) interface{} { return a },
		i: func(a, b int) int { return a },
		f: func(a, b float64) float64 { return a },
		s: func(a, b string) string { return a },
	}
	call(0, fn, 0, n, n, func(lo, hi int) V {
		for i := lo; i < hi; i++ {
			cnt[i]++
		}
		v := ivV(lo, hi)
		switch {
		case lo == odd:
			v = oddV
		case fn == fReduceIntProduct || fn == fRangeReduceIntProduct:
			v.i = 1 - 2*(lo%2)
		case fn == fReduceFloat64Product || fn == fRangeReduceFloat64Product:
			v.f = float64(1 - 2*(lo%2))
		}
		v.b = bs[lo]
		for i := lo; i < hi; i++ {
			end[i] = cnt[i]
		}
		return v
	}, j)
	for i := range cnt {
		sym.Assert(cnt[i] == 1, "every function is invoked exactly once")
		sym.Assert(end[i] == 1, "every function has terminated when the call returns")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("returned")
}

// foldVals draws the results of n functions, and what they are combined to.
func foldVals(fn, n, mode int) (vals []V, exp V, j J) {
	vals = make([]V, n)
	j = ivJ
	switch fn {
	case fAnd, fOr, fRangeAnd, fRangeOr:
		and := fn == fAnd || fn == fRangeAnd
		exp.b = and
		for i := range vals {
			if n <= 5 {
				vals[i].b = sym.Bool("b" + itoa(i))
			} else {
				// at most one function differs from the neutral element
				vals[i].b = and
			}
		}
		if n > 5 {
			d := sym.IntIn("diff", -1, n-1)
			for i := range vals {
				if d == i {
					vals[i].b = !and
				}
			}
		}
		for i := range vals {
			if and {
				exp.b = exp.b && vals[i].b
			} else {
				exp.b = exp.b || vals[i].b
			}
		}
	case fReduceIntSum, fRangeReduceIntSum:
		for i := range vals {
			if n <= 3 {
				vals[i].i = sym.Int("v" + itoa(i))
			} else {
				vals[i].i = sym.IntIn("v"+itoa(i), -1<<50, 1<<50)
			}
			exp.i += vals[i].i
		}
	case fReduceIntProduct, fRangeReduceIntProduct:
		exp.i = 1
		p := sym.Choose("pos", max(n, 1))
		for i := range vals {
			switch {
			case i == p && n <= 3:
				vals[i].i = sym.Int("v")
			case i == p:
				vals[i].i = sym.IntIn("v", -1<<40, 1<<40)
			case i < 6:
				vals[i].i = 2*i - 3
			case i == n-1:
				vals[i].i = 13
			default:
				vals[i].i = 1 - 2*(i%2)
			}
			exp.i *= vals[i].i
		}
	case fReduceFloat64Sum, fRangeReduceFloat64Sum:
		for i := range vals {
			vals[i].f = sym.FloatInt("v"+itoa(i), -1000000, 1000000)
			exp.f += vals[i].f
		}
	case fReduceFloat64Product, fRangeReduceFloat64Product:
		exp.f = 1
		p := sym.Choose("pos", max(n, 1))
		for i := range vals {
			vals[i].f = float64(i%3 - 3)
			if i == p {
				vals[i].f = sym.FloatInt("v", -1000, 1000)
			}
			exp.f *= vals[i].f
		}
	case fReduceInt, fRangeReduceInt, fReduce, fRangeReduce, fReduceFloat64, fRangeReduceFloat64:
		if n == 0 {
			return
		}
		switch mode {
		case 0:
			exp = ivV(0, n)
			for i := range vals {
				vals[i] = ivV(i, i+1)
			}
		default:
			// symbolic results with a left-zero or right-zero band
			for i := range vals {
				k := sym.Int("v" + itoa(i))
				vals[i].i = k
				vals[i].x = k
				if (fn == fReduce || fn == fRangeReduce) && (n <= 4 || i == 0 || i == n-1) && sym.Bool("nil"+itoa(i)) {
					vals[i].x = nil
				}
				vals[i].f = sym.Float("f" + itoa(i))
			}
			exp = vals[0]
			if mode == 2 {
				exp = vals[n-1]
			}
			j = J{
				x: func(a, b interface{}) interface{} {
					if mode == 1 {
						return a
					}
					return b
				},
				i: func(a, b int) int {
					if mode == 1 {
						return a
					}
					return b
				},
				f: func(a, b float64) float64 {
					if mode == 1 {
						return a
					}
					return b
				},
			}
		}
	case fReduceString, fReduceStringSum, fRangeReduceString, fRangeReduceStringSum:
		empty := make([]bool, n)
		switch {
		case mode == 0:
		case n <= 4:
			for i := range empty {
				empty[i] = sym.Bool("e" + itoa(i))
			}
		case n > 4:
			// all results are empty but those from p to q
			p := sym.Choose("p", n+1)
			q := []int{p + 1, n}[sym.Choose("q", 2)]
			for i := range empty {
				empty[i] = i < p || i >= q
			}
		}
		sep := ""
		if fn == fReduceString || fn == fRangeReduceString {
			switch mode {
			case 1, 2:
				j.s = func(a, b string) string {
					if mode == 1 {
						return a
					}
					return b
				}
			case 3:
				sep = "|"
				j.s = func(a, b string) string { return a + sep + b }
			}
		}
		for i := range vals {
			if !empty[i] {
				vals[i].s = itoa(i) + ","
				if n <= 4 {
					vals[i].s = string([]byte{sym.ByteIn("c"+itoa(i), 0, 255)})
				}
			}
			if i == 0 {
				exp.s = vals[0].s
			} else {
				exp.s = j.s(exp.s, vals[i].s)
			}
		}
	}
	return
}

// foldRange is the fold of the results of the functions lo <= i < hi.
func foldRange(fn int, vals []V, lo, hi int, empty V, j J) V {
	if lo == hi {
		return empty
	}
	r := vals[lo]
	for i := lo + 1; i < hi; i++ {
		v := vals[i]
		switch fn {
		case fRangeAnd:
			r.b = sym.And(r.b, v.b)
		case fRangeOr:
			r.b = sym.Or(r.b, v.b)
		case fRangeReduceIntSum:
			r.i += v.i
		case fRangeReduceIntProduct:
			r.i *= v.i
		case fRangeReduceFloat64Sum:
			r.f += v.f
		case fRangeReduceFloat64Product:
			r.f *= v.f
		case fRangeReduce:
			r.x = j.x(r.x, v.x)
		case fRangeReduceInt:
			r.i = j.i(r.i, v.i)
		case fRangeReduceFloat64:
			r.f = j.f(r.f, v.f)
		case fRangeReduceString, fRangeReduceStringSum:
			r.s = j.s(r.s, v.s)
		}
	}
	return r
}

// FoldRange: the result of a range function is the fold over the range, for
// batches of any size, for the default number of batches, and for empty ranges
// (C04, C10).
func FoldRange() {
	pkg, fn, n, size, mode := sym.P("pkg"), sym.P("fn"), sym.P("n"), sym.P("size"), sym.P("mode")
	if n == 0 {
		sym.SetProcs(sym.P("procs"))
	}
	vals, exp, j := foldVals(fn, size, mode)
	var empty V
	if size == 0 {
		empty = V{x: ivx{7, 7}, i: sym.Int("e"), f: sym.FloatInt("ef", -1000, 1000), s: "e", b: sym.Bool("eb")}
		exp = empty
	}
	low := -3
	r := call(pkg, fn, low, low+size, n, func(lo, hi int) V {
		return foldRange(fn, vals, lo-low, hi-low, empty, j)
	}, j)
	checkFold(fn, mode, r, exp)
	sym.Reach("folded")
}

func checkFold(fn, mode int, r, exp V) {
	switch fn {
	case fDo, fRange:
	case fAnd, fOr, fRangeAnd, fRangeOr:
		sym.Assert(r.b == exp.b, "result of the predicates")
	case fReduce, fRangeReduce:
		sym.Assert(r.x == exp.x, "result is the left-to-right fold")
	case fReduceFloat64, fRangeReduceFloat64:
		if mode == 0 {
			sym.Assert(r.f == exp.f, "result is the left-to-right fold")
		} else {
			sym.Assert(sym.Or(r.f == exp.f, sym.And(r.f != r.f, exp.f != exp.f)), "result is the left-to-right fold")
		}
	case fReduceFloat64Sum, fReduceFloat64Product, fRangeReduceFloat64Sum, fRangeReduceFloat64Product:
		sym.Assert(r.f == exp.f, "result is the left-to-right fold")
	case fReduceString, fReduceStringSum, fRangeReduceString, fRangeReduceStringSum:
		sym.Assert(r.s == exp.s, "result is the left-to-right fold")
	default:
		sym.Assert(r.i == exp.i, "result is the left-to-right fold")
	}
}

// Fold: the result is the left-to-right fold of the results (C04, C10).
func Fold() {
	pkg, fn, n, mode := sym.P("pkg"), sym.P("fn"), sym.P("n"), sym.P("mode")
	if n == 0 && needsOne(fn) {
		return
	}
	vals, exp, j := foldVals(fn, n, mode)
	calls := 0
	g := sym.Goid()
	r := call(pkg, fn, 0, n, n, func(lo, hi int) V {
		if pkg == 1 {
			sym.Assert(sym.Goid() == g, "a sequential function runs in the calling goroutine")
			sym.Assert(lo == calls, "sequential functions run in order")
			calls++
		}
		return vals[lo]
	}, j)
	checkFold(fn, mode, r, exp)
	if pkg == 1 && fn != fAnd && fn != fOr {
		sym.Assert(calls == n, "every function is invoked")
	}
	sym.Reach("folded")
}

// Panics: the call panics with the value of the left-most panicking function (C05, C10).
func Panics() {
	pkg, fn, n := sym.P("pkg"), sym.P("fn"), sym.P("n")
	pan := make([]bool, n)
	first := -1
	if n <= 5 {
		for i := range pan {
			pan[i] = sym.Bool("p" + itoa(i))
		}
	} else {
		// two panicking positions
		a := sym.IntIn("a", 0, n-1)
		b := sym.IntIn("b", 0, n-1)
		sym.Assume(a <= b)
		for i := range pan {
			if a == i || b == i {
				pan[i] = true
			}
		}
	}
	for i := range pan {
		if pan[i] && first < 0 {
			first = i
		}
	}
	cnt := make([]int, n)
	// the other functions return zero values, or others; predicates anything
	zero := false
	bs := make([]bool, n)
	j := ivJ
	switch fn {
	case fDo, fRange:
	case fAnd, fOr, fRangeAnd, fRangeOr:
		for i := range bs {
			bs[i] = fn == fAnd || fn == fRangeAnd
		}
		switch {
		case pkg == 1:
			// whether predicates are evaluated after the result is known is left open
		case n <= 3:
			for i := range bs {
				bs[i] = sym.Bool("b" + itoa(i))
			}
		default:
			d := sym.IntIn("d", -1, n-1)
			for i := range bs {
				if d == i {
					bs[i] = !bs[i]
				}
			}
		}
	default:
		if zero = sym.Bool("zero"); zero {
			j = J{
				x: func(a, b interface{}) interface{} { return a },
				i: func(a, b int) int { return a },
				f: func(a, b float64) float64 { return a },
				s: func(a, b string) string { return a },
			}
		}
	}
	panicked, val := try(func() {
		call(pkg, fn, 0, n, n, func(lo, hi int) V {
			cnt[lo]++
			if pan[lo] {
				panic(token(lo))
			}
			v := ivV(lo, hi)
			if zero {
				v = V{}
			}
			v.b = bs[lo]
			return v
		}, j)
	})
	sym.Assert(panicked == (first >= 0), "the call panics exactly if a function panics")
	if panicked {
		if pkg == 1 {
			sym.Assert(val == interface{}(token(first)), "a panic propagates unchanged")
		}
		checkPanic(val, first, n)
		sym.Reach("panicked")
	} else {
		sym.Reach("normal")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	for i := range cnt {
		sym.Assert(cnt[i] <= 1, "no function is invoked twice")
		if !panicked {
			sym.Assert(cnt[i] == 1, "every function is invoked exactly once")
		}
		if pkg == 1 && panicked {
			sym.Assert((cnt[i] == 1) == (i <= first), "no function after a panicking one is invoked")
		}
	}
}
