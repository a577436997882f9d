//go:build go1.21

package h

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/zz_verif/sym"
)

type (
	pStruct   struct{ a, b string }
	pStringer struct{ s string }
	pError    struct{ s string }
	pRuntime  struct{ s string }
	pPtrErr   struct{ s string }
	pBytes    []byte
)

func (p pStringer) String() string      { return "S" + p.s }
func (p pError) Error() string          { return "E" + p.s }
func (p pRuntime) Error() string        { return "R" + p.s }
func (p pRuntime) RuntimeError()        {}
func (p *pPtrErr) Error() string        { return "Q" + p.s }
func (p *pPtrErr) RuntimeError(int) int { return 0 } // not a runtime.Error

const (
	pkNone = iota
	pkString
	pkEmpty
	pkError
	pkCustom
	pkRuntime
	pkPtrErr
	pkStruct
	pkStringer
	pkZero
	pkFalse
	pkWrapped
	pkIndex
	pkNilMap
	pkNilPtr
	pkDivide
	pkAssert
	pkInt
	pkKinds
)

var zero int

// raise panics with a value of the given kind.
func raise(kind int, text string) {
	switch kind {
	case pkString:
		panic(text)
	case pkEmpty:
		panic("")
	case pkError:
		panic(errors.New(text))
	case pkCustom:
		panic(pError{text})
	case pkRuntime:
		panic(pRuntime{text})
	case pkPtrErr:
		panic(&pPtrErr{text})
	case pkStruct:
		panic(pStruct{"x", text})
	case pkStringer:
		panic(pStringer{text})
	case pkZero:
		panic(0)
	case pkFalse:
		panic(false)
	case pkWrapped:
		panic(fmt.Errorf("wrapped: %w", pError{text}))
	case pkIndex:
		_ = []int{}[zero]
	case pkNilMap:
		var m map[string]int
		m["a"] = 1
	case pkNilPtr:
		var p *pStruct
		_ = p.a
		p.a = "x"
	case pkDivide:
		zero = 1 / (zero * 0)
	case pkAssert:
		var x interface{} = "text"
		_ = x.(int)
	case pkInt:
		panic(-4711)
	}
}

// Wrap: a rethrown panic value keeps its text and its nature (C06).
//
//	pkg 0: parallel, 2: speculative, 3: sync; depth: levels of goroutines
func Wrap() {
	pkg, fn, depth := sym.P("pkg"), sym.P("fn"), sym.P("depth")
	kind := sym.Concrete(sym.IntIn("kind", 0, pkKinds-1))
	left := sym.Bool("left")
	text := "<" + string([]byte{sym.ByteIn("c0", ' ', '~'), sym.ByteIn("c1", ' ', '~')}) + ">"
	var orig interface{}
	raised := 0
	level := func() {
		raised++
		defer func() {
			orig = recover()
			if orig != nil {
				panic(orig)
			}
		}()
		raise(kind, text)
	}
	for i := 1; i < depth; i++ {
		inner := level
		switch i % 4 {
		case 1:
			level = func() { parallel.Do(func() {}, inner) }
		case 2:
			level = func() { speculative.Do(func() bool { return false }, func() bool { inner(); return false }) }
		case 3:
			level = func() {
				parallel.Range(0, 2, 2, func(l, h int) {
					if l == 1 {
						inner()
					}
				})
			}
		default:
			level = func() {
				parallel.Reduce(func(x, y interface{}) interface{} { return x }, func() interface{} { return 1 }, func() interface{} { inner(); return 1 })
			}
		}
	}
	panicked, val := try(func() {
		switch pkg {
		case 0:
			callParallel(fn, 0, 2, 2, func(lo, hi int) V {
				if (lo == 0) == left {
					level()
				}
				return V{x: lo}
			}, J{
				x: func(a, b interface{}) interface{} { return a },
				i: func(a, b int) int { return a },
				f: func(a, b float64) float64 { return a },
				s: func(a, b string) string { return a },
			})
		case 2:
			callAny(2, fn, 0, 2, 2, func(lo, hi int) {
				if (lo == 0) == left {
					level()
				}
			})
		case 3:
			callMapBoth(fn, left, level)
		}
	})
	sym.Assert(raised == 1, "the function was invoked once")
	if kind == pkNone {
		sym.Assert(!panicked, "no panic without a panicking function")
		sym.Reach("normal")
		return
	}
	sym.Assert(panicked, "every panic is rethrown")
	sym.Assert(strings.Contains(fmt.Sprint(val), fmt.Sprint(orig)), "the rethrown value contains the text of the original one")
	_, e0 := orig.(error)
	_, e1 := val.(error)
	sym.Assert(e0 == e1, "the rethrown value is an error exactly if the original one is")
	_, r0 := orig.(runtime.Error)
	_, r1 := val.(runtime.Error)
	sym.Assert(r0 == r1, "the rethrown value is a runtime.Error exactly if the original one is")
	if r0 {
		sym.Reach("runtime error")
	} else if e0 {
		sym.Reach("error")
	} else {
		sym.Reach("other")
	}
}
