//go:build go1.21

package h

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/zz_verif/sym"
)

// nonDeciding is a body whose results never end a call early.
func callAny(pkg, fn, lo, hi, n int, visit func(lo, hi int)) {
	if pkg == 2 {
		js := JS{
			x: func(a, b interface{}) (interface{}, bool) { return a, false },
			i: func(a, b int) (int, bool) { return a, false },
			f: func(a, b float64) (float64, bool) { return a, false },
			s: func(a, b string) (string, bool) { return a, false },
		}
		callSpec(specFuncs[fn], lo, hi, n, func(lo, hi int) (V, bool) {
			visit(lo, hi)
			return V{}, false
		}, js)
		return
	}
	j := J{
		x: func(a, b interface{}) interface{} { return a },
		i: func(a, b int) int { return a },
		f: func(a, b float64) float64 { return a },
		s: func(a, b string) string { return a },
	}
	call(pkg, fn, lo, hi, n, func(lo, hi int) V {
		visit(lo, hi)
		return V{b: fn != fRangeOr}
	}, j)
}

// Tile: the batches tile [low, high) exactly (C01).
//
// The batch count n is a parameter; low is any int, and so is the size unless it
// is smaller than the number of batches.
func Tile() {
	pkg, fn, n := sym.P("pkg"), sym.P("fn"), sym.P("n")
	procs := 2
	if n == 0 {
		procs = sym.P("procs")
		sym.SetProcs(procs)
	}
	low := sym.Int("low")
	high := sym.Int("high")
	sym.Assume(low <= high)
	sym.Assume(sym.DiffFits(high, low))
	size := high - low
	max := n
	if n == 0 {
		max = 2 * procs
	}
	if size < max {
		// few batches: their number depends on the size
		size = sym.Concrete(size)
		high = low + size
	}
	callAny(pkg, fn, low, high, n, func(l, h int) {
		sym.Note("batch", l, h)
		sym.Assert(sym.Notes("batch") <= max, "there are at most n calls")
	})
	k := sym.Notes("batch")
	sym.Assert(k >= 1, "there is at least one call")
	sym.Assert(k <= max, "there are at most n calls")
	sym.Assert(sym.Or(k <= size, k == 1), "there are no more calls than indices")
	sum := 0
	conds := []bool{}
	for i := 0; i < k; i++ {
		l, h := sym.NoteAt("batch", i, 0), sym.NoteAt("batch", i, 1)
		conds = append(conds, l >= low, h <= high, sym.Or(l < h, sym.And(low == high, l == low, h == high)))
		sum += h - l
		for j := 0; j < i; j++ {
			l2, h2 := sym.NoteAt("batch", j, 0), sym.NoteAt("batch", j, 1)
			conds = append(conds, sym.Or(h <= l2, h2 <= l))
		}
	}
	conds = append(conds, sum == size)
	sym.Assert(sym.And(conds...), "the sub-ranges are inside the range, not empty, disjoint, and cover it")
	if n > 1 && size > 0 && size%n == 0 {
		sym.Assert(k == n, "there are n calls if n divides the size of the range")
		same := []bool{}
		for i := 0; i < k; i++ {
			same = append(same, sym.NoteAt("batch", i, 1)-sym.NoteAt("batch", i, 0) == size/n)
		}
		sym.Assert(sym.And(same...), "the sub-ranges have the same size if n divides the size of the range")
		sym.Reach("even")
	}
	sym.Reach("tiled")
	if k > 1 {
		sym.Reach("several")
	}
}

// Bad: invalid ranges and batch counts panic before any call (C02).
func Bad() {
	pkg, fn := sym.P("pkg"), sym.P("fn")
	low, high, n := sym.Int("low"), sym.Int("high"), sym.Int("n")
	sym.Assume(sym.Or(high < low, n < 0))
	panicked, _ := try(func() {
		callAny(pkg, fn, low, high, n, func(l, h int) { sym.Fail("a user function is invoked for an invalid range or batch count") })
	})
	sym.Assert(panicked, "an invalid range or batch count panics")
	sym.Reach("panicked")
}

// Good: valid arguments never panic; no batch count larger than the size matters (C02).
func Good() {
	pkg, fn := sym.P("pkg"), sym.P("fn")
	low, high, n := sym.Int("low"), sym.Int("high"), sym.Int("n")
	sym.SetProcs(sym.P("procs"))
	sym.Assume(low <= high)
	sym.Assume(sym.DiffFits(high, low))
	sym.Assume(n >= 0)
	max := sym.P("max")
	sym.Assume(sym.Or(n <= max, high-low <= max))
	if n > high-low {
		// the batch count is the size
		s := sym.Concrete(high - low)
		high = low + s
	} else {
		n = sym.Concrete(n)
	}
	panicked, v := try(func() { callAny(pkg, fn, low, high, n, func(l, h int) {}) })
	if panicked {
		sym.Fail("a valid range and batch count panics: " + fmt.Sprint(v))
	}
	sym.Reach("normal")
}

var _ = strings.Contains
