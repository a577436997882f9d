//go:build go1.21

package h

import (
	"fmt"
	"strings"

	"github.com/exascience/pargo/zz_verif/sym"
)

// try calls f and returns what it panics with.
func try(f func()) (panicked bool, val interface{}) {
	panicked = true
	defer func() { val = recover() }()
	f()
	panicked = false
	return
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// token is the text of the panic value of function i.
func token(i int) string { return "<P" + itoa(i) + ">" }

// checkPanic asserts that v carries the token of function i and of no other one below n.
func checkPanic(v interface{}, i, n int) {
	s := fmt.Sprint(v)
	sym.Assert(strings.Contains(s, token(i)), "the panic value is that of the left-most panicking function")
	for k := 0; k < n; k++ {
		if k != i {
			sym.Assert(!strings.Contains(s, token(k)), "the panic value is that of the left-most panicking function only")
		}
	}
}

// The interval semigroup: an associative, non-commutative join that accepts
// neighbouring intervals only.
const ivBase = 100000

func ivEnc(lo, hi int) int { return lo*ivBase + hi }

func ivJoin(a, b int) int {
	if a%ivBase != b/ivBase {
		sym.Fail("join is called with results that are not neighbours in left-to-right order")
	}
	return ivEnc(a/ivBase, b%ivBase)
}

func ivStr(lo, hi int) string {
	s := ""
	for i := lo; i < hi; i++ {
		s += itoa(i) + ","
	}
	return s
}

type ivx struct{ lo, hi int }

var ivJ = J{
	x: func(a, b interface{}) interface{} {
		p, q := a.(ivx), b.(ivx)
		if p.hi != q.lo {
			sym.Fail("join is called with results that are not neighbours in left-to-right order")
		}
		return ivx{p.lo, q.hi}
	},
	i: ivJoin,
	f: func(a, b float64) float64 { return float64(ivJoin(int(a), int(b))) },
	s: func(a, b string) string { return a + b },
}

func ivV(lo, hi int) V {
	e := ivEnc(lo, hi)
	return V{x: ivx{lo, hi}, i: e, f: float64(e), s: ivStr(lo, hi), b: true}
}
