//go:build go1.21

// Code generated by tools/gen_fam.py; DO NOT EDIT.

package h

import (
	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
	psync "github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/sym"
)

// V is the result of one function in all result types.
type V struct {
	x interface{}
	i int
	f float64
	s string
	b bool
}

// J joins results of the given result type.
type J struct {
	x func(a, b interface{}) interface{}
	i func(a, b int) int
	f func(a, b float64) float64
	s func(a, b string) string
}

const (
	fDo = iota
	fAnd
	fOr
	fReduce
	fReduceInt
	fReduceIntSum
	fReduceIntProduct
	fReduceFloat64
	fReduceFloat64Sum
	fReduceFloat64Product
	fReduceString
	fReduceStringSum
	fRange
	fRangeAnd
	fRangeOr
	fRangeReduce
	fRangeReduceInt
	fRangeReduceIntSum
	fRangeReduceIntProduct
	fRangeReduceFloat64
	fRangeReduceFloat64Sum
	fRangeReduceFloat64Product
	fRangeReduceString
	fRangeReduceStringSum
	nFuncs
)

var funcNames = [...]string{"Do", "And", "Or", "Reduce", "ReduceInt", "ReduceIntSum", "ReduceIntProduct", "ReduceFloat64", "ReduceFloat64Sum", "ReduceFloat64Product", "ReduceString", "ReduceStringSum", "Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceInt", "RangeReduceIntSum", "RangeReduceIntProduct", "RangeReduceFloat64", "RangeReduceFloat64Sum", "RangeReduceFloat64Product", "RangeReduceString", "RangeReduceStringSum"}

func isRange(fn int) bool { return fn >= fRange }

// needsOne tells whether fn takes at least one function.
func needsOne(fn int) bool {
	return fn == fReduce || fn == fReduceInt || fn == fReduceFloat64 || fn == fReduceString || isRange(fn)
}

// callParallel calls function fn of package parallel; thunk i is body(i, i+1), a range is [lo, lo+n).
func callParallel(fn, lo, hi, n int, body func(lo, hi int) V, j J) (r V) {
	switch fn {
	case fDo:
		fs := make([]func(), n)
		for i := range fs {
			i := i
			fs[i] = func() { body(i, i+1) }
		}
		parallel.Do(fs...)
	case fAnd:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { return body(i, i+1).b }
		}
		r.b = parallel.And(fs...)
	case fOr:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { return body(i, i+1).b }
		}
		r.b = parallel.Or(fs...)
	case fReduce:
		fs := make([]func() interface{}, n)
		for i := range fs {
			i := i
			fs[i] = func() interface{} { return body(i, i+1).x }
		}
		r.x = parallel.Reduce(j.x, fs[0], fs[1:]...)
	case fReduceInt:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = parallel.ReduceInt(j.i, fs[0], fs[1:]...)
	case fReduceIntSum:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = parallel.ReduceIntSum(fs...)
	case fReduceIntProduct:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = parallel.ReduceIntProduct(fs...)
	case fReduceFloat64:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = parallel.ReduceFloat64(j.f, fs[0], fs[1:]...)
	case fReduceFloat64Sum:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = parallel.ReduceFloat64Sum(fs...)
	case fReduceFloat64Product:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = parallel.ReduceFloat64Product(fs...)
	case fReduceString:
		fs := make([]func() string, n)
		for i := range fs {
			i := i
			fs[i] = func() string { return body(i, i+1).s }
		}
		r.s = parallel.ReduceString(j.s, fs[0], fs[1:]...)
	case fReduceStringSum:
		fs := make([]func() string, n)
		for i := range fs {
			i := i
			fs[i] = func() string { return body(i, i+1).s }
		}
		r.s = parallel.ReduceStringSum(fs...)
	case fRange:
		parallel.Range(lo, hi, n, func(lo, hi int) { body(lo, hi) })
	case fRangeAnd:
		r.b = parallel.RangeAnd(lo, hi, n, func(lo, hi int) bool { return body(lo, hi).b })
	case fRangeOr:
		r.b = parallel.RangeOr(lo, hi, n, func(lo, hi int) bool { return body(lo, hi).b })
	case fRangeReduce:
		r.x = parallel.RangeReduce(lo, hi, n, func(lo, hi int) interface{} { return body(lo, hi).x }, j.x)
	case fRangeReduceInt:
		r.i = parallel.RangeReduceInt(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i }, j.i)
	case fRangeReduceIntSum:
		r.i = parallel.RangeReduceIntSum(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i })
	case fRangeReduceIntProduct:
		r.i = parallel.RangeReduceIntProduct(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i })
	case fRangeReduceFloat64:
		r.f = parallel.RangeReduceFloat64(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f }, j.f)
	case fRangeReduceFloat64Sum:
		r.f = parallel.RangeReduceFloat64Sum(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f })
	case fRangeReduceFloat64Product:
		r.f = parallel.RangeReduceFloat64Product(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f })
	case fRangeReduceString:
		r.s = parallel.RangeReduceString(lo, hi, n, func(lo, hi int) string { return body(lo, hi).s }, j.s)
	case fRangeReduceStringSum:
		r.s = parallel.RangeReduceStringSum(lo, hi, n, func(lo, hi int) string { return body(lo, hi).s })
	}
	return
}

// callSequential calls function fn of package sequential; thunk i is body(i, i+1), a range is [lo, lo+n).
func callSequential(fn, lo, hi, n int, body func(lo, hi int) V, j J) (r V) {
	switch fn {
	case fDo:
		fs := make([]func(), n)
		for i := range fs {
			i := i
			fs[i] = func() { body(i, i+1) }
		}
		sequential.Do(fs...)
	case fAnd:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { return body(i, i+1).b }
		}
		r.b = sequential.And(fs...)
	case fOr:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { return body(i, i+1).b }
		}
		r.b = sequential.Or(fs...)
	case fReduce:
		fs := make([]func() interface{}, n)
		for i := range fs {
			i := i
			fs[i] = func() interface{} { return body(i, i+1).x }
		}
		r.x = sequential.Reduce(j.x, fs[0], fs[1:]...)
	case fReduceInt:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = sequential.ReduceInt(j.i, fs[0], fs[1:]...)
	case fReduceIntSum:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = sequential.ReduceIntSum(fs...)
	case fReduceIntProduct:
		fs := make([]func() int, n)
		for i := range fs {
			i := i
			fs[i] = func() int { return body(i, i+1).i }
		}
		r.i = sequential.ReduceIntProduct(fs...)
	case fReduceFloat64:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = sequential.ReduceFloat64(j.f, fs[0], fs[1:]...)
	case fReduceFloat64Sum:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = sequential.ReduceFloat64Sum(fs...)
	case fReduceFloat64Product:
		fs := make([]func() float64, n)
		for i := range fs {
			i := i
			fs[i] = func() float64 { return body(i, i+1).f }
		}
		r.f = sequential.ReduceFloat64Product(fs...)
	case fReduceString:
		fs := make([]func() string, n)
		for i := range fs {
			i := i
			fs[i] = func() string { return body(i, i+1).s }
		}
		r.s = sequential.ReduceString(j.s, fs[0], fs[1:]...)
	case fReduceStringSum:
		fs := make([]func() string, n)
		for i := range fs {
			i := i
			fs[i] = func() string { return body(i, i+1).s }
		}
		r.s = sequential.ReduceStringSum(fs...)
	case fRange:
		sequential.Range(lo, hi, n, func(lo, hi int) { body(lo, hi) })
	case fRangeAnd:
		r.b = sequential.RangeAnd(lo, hi, n, func(lo, hi int) bool { return body(lo, hi).b })
	case fRangeOr:
		r.b = sequential.RangeOr(lo, hi, n, func(lo, hi int) bool { return body(lo, hi).b })
	case fRangeReduce:
		r.x = sequential.RangeReduce(lo, hi, n, func(lo, hi int) interface{} { return body(lo, hi).x }, j.x)
	case fRangeReduceInt:
		r.i = sequential.RangeReduceInt(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i }, j.i)
	case fRangeReduceIntSum:
		r.i = sequential.RangeReduceIntSum(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i })
	case fRangeReduceIntProduct:
		r.i = sequential.RangeReduceIntProduct(lo, hi, n, func(lo, hi int) int { return body(lo, hi).i })
	case fRangeReduceFloat64:
		r.f = sequential.RangeReduceFloat64(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f }, j.f)
	case fRangeReduceFloat64Sum:
		r.f = sequential.RangeReduceFloat64Sum(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f })
	case fRangeReduceFloat64Product:
		r.f = sequential.RangeReduceFloat64Product(lo, hi, n, func(lo, hi int) float64 { return body(lo, hi).f })
	case fRangeReduceString:
		r.s = sequential.RangeReduceString(lo, hi, n, func(lo, hi int) string { return body(lo, hi).s }, j.s)
	case fRangeReduceStringSum:
		r.s = sequential.RangeReduceStringSum(lo, hi, n, func(lo, hi int) string { return body(lo, hi).s })
	}
	return
}

// JS joins results of speculative functions.
type JS struct {
	x func(a, b interface{}) (interface{}, bool)
	i func(a, b int) (int, bool)
	f func(a, b float64) (float64, bool)
	s func(a, b string) (string, bool)
}

var specFuncs = [...]int{fDo, fAnd, fOr, fReduce, fReduceInt, fReduceFloat64, fReduceString, fRange, fRangeAnd, fRangeOr, fRangeReduce, fRangeReduceInt, fRangeReduceFloat64, fRangeReduceString}

// callSpec calls function fn of package speculative. The body tells whether it decides.
func callSpec(fn, lo, hi, n int, body func(lo, hi int) (V, bool), j JS) (r V, dec bool) {
	switch fn {
	case fDo:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { _, d := body(i, i+1); return d }
		}
		r.b = speculative.Do(fs...)
		dec = r.b
	case fAnd:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { _, d := body(i, i+1); return !d }
		}
		r.b = speculative.And(fs...)
		dec = !r.b
	case fOr:
		fs := make([]func() bool, n)
		for i := range fs {
			i := i
			fs[i] = func() bool { _, d := body(i, i+1); return d }
		}
		r.b = speculative.Or(fs...)
		dec = r.b
	case fReduce:
		fs := make([]func() (interface{}, bool), n)
		for i := range fs {
			i := i
			fs[i] = func() (interface{}, bool) { v, d := body(i, i+1); return v.x, d }
		}
		r.x, dec = speculative.Reduce(j.x, fs[0], fs[1:]...)
	case fReduceInt:
		fs := make([]func() (int, bool), n)
		for i := range fs {
			i := i
			fs[i] = func() (int, bool) { v, d := body(i, i+1); return v.i, d }
		}
		r.i, dec = speculative.ReduceInt(j.i, fs[0], fs[1:]...)
	case fReduceFloat64:
		fs := make([]func() (float64, bool), n)
		for i := range fs {
			i := i
			fs[i] = func() (float64, bool) { v, d := body(i, i+1); return v.f, d }
		}
		r.f, dec = speculative.ReduceFloat64(j.f, fs[0], fs[1:]...)
	case fReduceString:
		fs := make([]func() (string, bool), n)
		for i := range fs {
			i := i
			fs[i] = func() (string, bool) { v, d := body(i, i+1); return v.s, d }
		}
		r.s, dec = speculative.ReduceString(j.s, fs[0], fs[1:]...)
	case fRange:
		r.b = speculative.Range(lo, hi, n, func(lo, hi int) bool { _, d := body(lo, hi); return d })
		dec = r.b
	case fRangeAnd:
		r.b = speculative.RangeAnd(lo, hi, n, func(lo, hi int) bool { _, d := body(lo, hi); return !d })
		dec = !r.b
	case fRangeOr:
		r.b = speculative.RangeOr(lo, hi, n, func(lo, hi int) bool { _, d := body(lo, hi); return d })
		dec = r.b
	case fRangeReduce:
		r.x, dec = speculative.RangeReduce(lo, hi, n, func(lo, hi int) (interface{}, bool) { v, d := body(lo, hi); return v.x, d }, j.x)
	case fRangeReduceInt:
		r.i, dec = speculative.RangeReduceInt(lo, hi, n, func(lo, hi int) (int, bool) { v, d := body(lo, hi); return v.i, d }, j.i)
	case fRangeReduceFloat64:
		r.f, dec = speculative.RangeReduceFloat64(lo, hi, n, func(lo, hi int) (float64, bool) { v, d := body(lo, hi); return v.f, d }, j.f)
	case fRangeReduceString:
		r.s, dec = speculative.RangeReduceString(lo, hi, n, func(lo, hi int) (string, bool) { v, d := body(lo, hi); return v.s, d }, j.s)
	}
	return
}

// callMap calls traversal, predicate or reduction fn of m: kind 0 sequential, 1 parallel, 2 speculative.
// The body gets the index in the entry it finds; a split holds one entry.
func callMap(kind, fn int, m *psync.Map, body func(i int) (V, bool), j J, js JS) (r V, dec bool) {
	switch kind*nFuncs + fn {
	case 0*nFuncs + fDo:
		m.Range(func(k, v interface{}) bool { _, d := body(v.(int)); return !d })
	case 0*nFuncs + fAnd:
		r.b = m.And(func(s map[interface{}]interface{}) bool { v, _ := body(splitIndex(s)); return v.b })
	case 0*nFuncs + fOr:
		r.b = m.Or(func(s map[interface{}]interface{}) bool { v, _ := body(splitIndex(s)); return v.b })
	case 0*nFuncs + fReduce:
		r.x = m.Reduce(func(s map[interface{}]interface{}) interface{} { v, _ := body(splitIndex(s)); return v.x }, j.x)
	case 0*nFuncs + fReduceInt:
		r.i = m.ReduceInt(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i }, j.i)
	case 0*nFuncs + fReduceIntSum:
		r.i = m.ReduceIntSum(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i })
	case 0*nFuncs + fReduceIntProduct:
		r.i = m.ReduceIntProduct(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i })
	case 0*nFuncs + fReduceFloat64:
		r.f = m.ReduceFloat64(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f }, j.f)
	case 0*nFuncs + fReduceFloat64Sum:
		r.f = m.ReduceFloat64Sum(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f })
	case 0*nFuncs + fReduceFloat64Product:
		r.f = m.ReduceFloat64Product(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f })
	case 0*nFuncs + fReduceString:
		r.s = m.ReduceString(func(s map[interface{}]interface{}) string { v, _ := body(splitIndex(s)); return v.s }, j.s)
	case 0*nFuncs + fReduceStringSum:
		r.s = m.ReduceStringSum(func(s map[interface{}]interface{}) string { v, _ := body(splitIndex(s)); return v.s })
	case 1*nFuncs + fDo:
		m.ParallelRange(func(k, v interface{}) { body(v.(int)) })
	case 1*nFuncs + fAnd:
		r.b = m.ParallelAnd(func(s map[interface{}]interface{}) bool { v, _ := body(splitIndex(s)); return v.b })
	case 1*nFuncs + fOr:
		r.b = m.ParallelOr(func(s map[interface{}]interface{}) bool { v, _ := body(splitIndex(s)); return v.b })
	case 1*nFuncs + fReduce:
		r.x = m.ParallelReduce(func(s map[interface{}]interface{}) interface{} { v, _ := body(splitIndex(s)); return v.x }, j.x)
	case 1*nFuncs + fReduceInt:
		r.i = m.ParallelReduceInt(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i }, j.i)
	case 1*nFuncs + fReduceIntSum:
		r.i = m.ParallelReduceIntSum(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i })
	case 1*nFuncs + fReduceIntProduct:
		r.i = m.ParallelReduceIntProduct(func(s map[interface{}]interface{}) int { v, _ := body(splitIndex(s)); return v.i })
	case 1*nFuncs + fReduceFloat64:
		r.f = m.ParallelReduceFloat64(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f }, j.f)
	case 1*nFuncs + fReduceFloat64Sum:
		r.f = m.ParallelReduceFloat64Sum(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f })
	case 1*nFuncs + fReduceFloat64Product:
		r.f = m.ParallelReduceFloat64Product(func(s map[interface{}]interface{}) float64 { v, _ := body(splitIndex(s)); return v.f })
	case 1*nFuncs + fReduceString:
		r.s = m.ParallelReduceString(func(s map[interface{}]interface{}) string { v, _ := body(splitIndex(s)); return v.s }, j.s)
	case 1*nFuncs + fReduceStringSum:
		r.s = m.ParallelReduceStringSum(func(s map[interface{}]interface{}) string { v, _ := body(splitIndex(s)); return v.s })
	case 2*nFuncs + fDo:
		m.SpeculativeRange(func(k, v interface{}) bool { _, d := body(v.(int)); return !d })
	case 2*nFuncs + fAnd:
		r.b = m.SpeculativeAnd(func(s map[interface{}]interface{}) bool { _, d := body(splitIndex(s)); return !d })
		dec = !r.b
	case 2*nFuncs + fOr:
		r.b = m.SpeculativeOr(func(s map[interface{}]interface{}) bool { _, d := body(splitIndex(s)); return d })
		dec = r.b
	case 2*nFuncs + fReduce:
		r.x, dec = m.SpeculativeReduce(func(s map[interface{}]interface{}) (interface{}, bool) { v, d := body(splitIndex(s)); return v.x, d }, js.x)
	case 2*nFuncs + fReduceInt:
		r.i, dec = m.SpeculativeReduceInt(func(s map[interface{}]interface{}) (int, bool) { v, d := body(splitIndex(s)); return v.i, d }, js.i)
	case 2*nFuncs + fReduceFloat64:
		r.f, dec = m.SpeculativeReduceFloat64(func(s map[interface{}]interface{}) (float64, bool) { v, d := body(splitIndex(s)); return v.f, d }, js.f)
	case 2*nFuncs + fReduceString:
		r.s, dec = m.SpeculativeReduceString(func(s map[interface{}]interface{}) (string, bool) { v, d := body(splitIndex(s)); return v.s, d }, js.s)
	default:
		sym.Fail("no such function")
	}
	return
}
