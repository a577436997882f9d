package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// value is an interpreted Go value:
//
//	bool | *Term(bool); int64/uint64 | *Term(int); float64 | *fsym | *fint;
//	complex128; string | *symStr; *value (pointer); structure; array; []value
//	(slice); *mapv; *chanv; *closure; iface; tuple; rvalue; rtypev; *iter
type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t *rtype // nil: nil interface
	v value
}

type closure struct {
	fn  *cfn
	env []value
}

type chanv struct {
	id     int
	cap    int
	buf    []value
	bufVC  []VC
	closed bool
	clVC   VC
	elem   *rtype
	recvVC []VC // release clocks of receives from a buffered channel
	nsend  int
}

type mapEntry struct {
	k, v    value
	deleted bool
}

type mapv struct {
	idx     map[any]int
	ents    []mapEntry
	n       int
	symKeys int
	shadow  value // cell used as race-detection identity
	elem    *rtype
}

type iter struct {
	m   *mapv
	pos int
	end int
	rev bool
	s   string
	isS bool
	sy  *symStr
}

// fsym is an arbitrary float64, as an order key: sign*magnitude bits, with
// NaN-ness and the sign of zero kept separately.
type fsym struct {
	nan value // bool | *Term
	key value // int64 | *Term
	nz  value // bool | *Term: negative zero (meaningful when key == 0)
}

// fint is a float64 holding exactly the integer t, |t| <= 2^53.
type fint struct{ t *Term }

type symStr struct{ b []value } // each uint64 | *Term

type rtypev struct{ t *rtype } // dynamic value of a reflect.Type
type rvalue struct {
	t    *rtype
	v    value  // when addr == nil
	addr *value // settable location
}

type opaque struct{ what string }

type rtype struct {
	t     types.Type
	id    int
	kind  reflect.Kind
	num   *numInfo
	agg   bool
	elems []*rtype // struct fields
	elem  *rtype   // array/slice/chan/ptr elem
	key   *rtype
	alen  int
	zero  value // for non-aggregates
}

type numInfo struct {
	isInt, signed, isFloat, isStr, isBool, isCplx bool
	bits                                          int
	lo, hi                                        *big.Int
}

var (
	rtMu    sync.Mutex
	rtMap   typeutil.Map
	rtCache sync.Map
	rtNext  int
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func basicInfo(b *types.Basic) *numInfo {
	mk := func(signed bool, bits int) *numInfo {
		n := &numInfo{isInt: true, signed: signed, bits: bits}
		if signed {
			n.lo = new(big.Int).Neg(pow2(bits - 1))
			n.hi = new(big.Int).Sub(pow2(bits-1), bigOne)
		} else {
			n.lo = bigZero
			n.hi = new(big.Int).Sub(pow2(bits), bigOne)
		}
		return n
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return &numInfo{isBool: true}
	case types.Int, types.Int64, types.UntypedInt:
		return mk(true, 64)
	case types.Int8:
		return mk(true, 8)
	case types.Int16:
		return mk(true, 16)
	case types.Int32, types.UntypedRune:
		return mk(true, 32)
	case types.Uint, types.Uint64, types.Uintptr:
		return mk(false, 64)
	case types.Uint8:
		return mk(false, 8)
	case types.Uint16:
		return mk(false, 16)
	case types.Uint32:
		return mk(false, 32)
	case types.Float32:
		return &numInfo{isFloat: true, bits: 32}
	case types.Float64, types.UntypedFloat:
		return &numInfo{isFloat: true, bits: 64}
	case types.String, types.UntypedString:
		return &numInfo{isStr: true}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return &numInfo{isCplx: true}
	}
	return nil
}

var basicKind = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
	types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8,
	types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
	types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64,
	types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer,
}

func rt(t types.Type) *rtype {
	if r, ok := rtCache.Load(t); ok {
		return r.(*rtype)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	return rtLocked(t)
}

func rtLocked(t types.Type) *rtype {
	if r, ok := rtCache.Load(t); ok {
		return r.(*rtype)
	}
	if r := rtMap.At(t); r != nil {
		rtCache.Store(t, r)
		return r.(*rtype)
	}
	r := &rtype{t: t, id: rtNext}
	rtNext++
	rtMap.Set(t, r)
	rtCache.Store(t, r)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		r.num = basicInfo(u)
		r.kind = basicKind[u.Kind()]
		switch {
		case r.num == nil:
			r.zero = (*value)(nil) // unsafe.Pointer, untyped nil
		case r.num.isBool:
			r.zero = false
		case r.num.isInt && r.num.signed:
			r.zero = int64(0)
		case r.num.isInt:
			r.zero = uint64(0)
		case r.num.isFloat:
			r.zero = float64(0)
		case r.num.isStr:
			r.zero = ""
		case r.num.isCplx:
			r.zero = complex128(0)
		}
	case *types.Pointer:
		r.kind = reflect.Ptr
		r.zero = (*value)(nil)
		r.elem = rtLocked(u.Elem())
	case *types.Slice:
		r.kind = reflect.Slice
		r.zero = []value(nil)
		r.elem = rtLocked(u.Elem())
	case *types.Map:
		r.kind = reflect.Map
		r.zero = (*mapv)(nil)
		r.elem = rtLocked(u.Elem())
		r.key = rtLocked(u.Key())
	case *types.Chan:
		r.kind = reflect.Chan
		r.zero = (*chanv)(nil)
		r.elem = rtLocked(u.Elem())
	case *types.Signature:
		r.kind = reflect.Func
		r.zero = (*closure)(nil)
	case *types.Interface:
		r.kind = reflect.Interface
		r.zero = iface{}
	case *types.Struct:
		r.kind = reflect.Struct
		r.agg = true
		for i := 0; i < u.NumFields(); i++ {
			r.elems = append(r.elems, rtLocked(u.Field(i).Type()))
		}
	case *types.Array:
		r.kind = reflect.Array
		r.agg = true
		r.alen = int(u.Len())
		r.elem = rtLocked(u.Elem())
	case *types.Tuple:
		r.agg = true
		for i := 0; i < u.Len(); i++ {
			r.elems = append(r.elems, rtLocked(u.At(i).Type()))
		}
	}
	return r
}

// isReflectValue tells whether t is reflect.Value (of any loaded program).
func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (r *rtype) mkZero() value {
	if !r.agg {
		return r.zero
	}
	switch r.kind {
	case reflect.Struct:
		if isReflectValue(r.t) {
			return rvalue{}
		}
		s := make(structure, len(r.elems))
		for i, e := range r.elems {
			s[i] = e.mkZero()
		}
		return s
	case reflect.Array:
		a := make(array, r.alen)
		for i := range a {
			a[i] = r.elem.mkZero()
		}
		return a
	}
	s := make(tuple, len(r.elems))
	for i, e := range r.elems {
		s[i] = e.mkZero()
	}
	return s
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		s := make(structure, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	case array:
		s := make(array, len(v))
		for i := range v {
			s[i] = copyVal(v[i])
		}
		return s
	}
	return v
}

// storeInto assigns v to the cell in place, so that field addresses stay valid.
func storeInto(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*p).(structure); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case array:
		if dst, ok := (*p).(array); ok && len(dst) == len(v) {
			for i := range v {
				storeInto(&dst[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// hashKey maps a fully concrete value to a comparable Go value.
func hashKey(v value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, uint64, string, *value, *chanv:
		return v, true
	case float64:
		if v != v {
			return nil, false
		}
		return v, true
	case complex128:
		return v, true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := hashKey(v.v)
		if !ok {
			return nil, false
		}
		return struct {
			t int
			v any
		}{v.t.id, k}, true
	case rtypev:
		return v.t, true
	case structure:
		return hashAgg([]value(v))
	case array:
		return hashAgg([]value(v))
	}
	return nil, false
}

func hashAgg(vs []value) (any, bool) {
	var sb strings.Builder
	for _, x := range vs {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		switch k := k.(type) {
		case string:
			sb.WriteString(strconv.Quote(k))
		default:
			fmt.Fprintf(&sb, "%T%v", k, k)
		}
		sb.WriteByte('|')
	}
	return sb.String(), true
}

func newMap(elem *rtype) *mapv { return &mapv{idx: map[any]int{}, elem: elem} }

func isSymbolic(v value) bool {
	switch v := v.(type) {
	case *Term, *fsym, *fint, *symStr:
		return true
	case iface:
		return isSymbolic(v.v)
	case structure:
		for _, x := range v {
			if isSymbolic(x) {
				return true
			}
		}
	case array:
		for _, x := range v {
			if isSymbolic(x) {
				return true
			}
		}
	}
	return false
}

// find returns the index of the live entry with key k, or -1.
func (e *Engine) mapFind(m *mapv, k value) int {
	hk, conc := hashKey(k)
	if conc && m.symKeys == 0 {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		return -1
	}
	for i := range m.ents {
		en := &m.ents[i]
		if en.deleted {
			continue
		}
		if conc {
			if h2, ok := hashKey(en.k); ok {
				if h2 == hk {
					return i
				}
				continue
			}
		}
		if e.truth(e.equal(en.k, k)) {
			return i
		}
	}
	return -1
}

func (e *Engine) mapSet(m *mapv, k, v value) {
	if i := e.mapFind(m, k); i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	m.ents = append(m.ents, mapEntry{k: copyVal(k), v: copyVal(v)})
	m.n++
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = len(m.ents) - 1
	} else {
		m.symKeys++
	}
}

func (e *Engine) mapDel(m *mapv, k value) {
	if m == nil {
		return
	}
	i := e.mapFind(m, k)
	if i < 0 {
		return
	}
	if hk, ok := hashKey(m.ents[i].k); ok {
		delete(m.idx, hk)
	} else {
		m.symKeys--
	}
	m.ents[i].deleted = true
	m.n--
}

// ---- floats as order keys ----

func floatKey(f float64) (nan bool, key int64, nz bool) {
	if f != f {
		return true, 0, false
	}
	b := math.Float64bits(f)
	mag := int64(b &^ (1 << 63))
	if b>>63 == 1 {
		return false, -mag, mag == 0
	}
	return false, mag, false
}

func keyFloat(nan bool, key int64, nz bool) float64 {
	if nan {
		return math.NaN()
	}
	if key < 0 {
		return math.Float64frombits(uint64(-key) | 1<<63)
	}
	if key == 0 && nz {
		return math.Copysign(0, -1)
	}
	return math.Float64frombits(uint64(key))
}

func liftF(v value) *fsym {
	switch v := v.(type) {
	case *fsym:
		return v
	case float64:
		n, k, z := floatKey(v)
		return &fsym{n, k, z}
	}
	return nil
}

func funcName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.String()
}
