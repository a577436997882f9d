//go:build go1.21

package h

import (
	psync "github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/sym"
)

const (
	oLoad = iota
	oLoadOrStore
	oLoadOrCompute
	oDelete
	oDeleteOrStore
	oDeleteOrCompute
	oModifySet  // the modifier stores, or replaces by a value that depends on the old one
	oModifyDrop // the modifier deletes
	nOps
)

// entry is the content of the map for one key.
type entry struct {
	ok bool
	v  interface{}
}

// opRes is the result of an operation.
type opRes struct {
	v    interface{}
	ok   bool
	old  entry // what the modifier got
	comp int   // number of calls of computer or modifier
}

// pair is what Modify stores for a present value.
type pair struct {
	old interface{}
	new interface{}
}

// specOp is the documented behaviour of an operation.
func specOp(op int, e entry, arg interface{}) (r opRes, after entry) {
	switch op {
	case oLoad:
		return opRes{v: e.v, ok: e.ok}, e
	case oLoadOrStore, oLoadOrCompute:
		if e.ok {
			return opRes{v: e.v, ok: true}, e
		}
		return opRes{v: arg, ok: false}, entry{true, arg}
	case oDelete:
		return opRes{}, entry{}
	case oDeleteOrStore, oDeleteOrCompute:
		if e.ok {
			return opRes{v: e.v, ok: true}, entry{}
		}
		return opRes{v: arg, ok: false}, entry{true, arg}
	case oModifySet:
		n := arg
		if e.ok {
			n = pair{e.v, arg}
		}
		return opRes{v: n, ok: true, old: e}, entry{true, n}
	case oModifyDrop:
		return opRes{v: arg, ok: false, old: e}, entry{}
	}
	return
}

// doOp performs an operation; in is called by computers and modifiers.
func doOp(m *psync.Map, op int, k psync.Hasher, arg interface{}, in func()) (r opRes) {
	computer := func() interface{} {
		r.comp++
		in()
		return arg
	}
	switch op {
	case oLoad:
		r.v, r.ok = m.Load(k)
	case oLoadOrStore:
		r.v, r.ok = m.LoadOrStore(k, arg)
	case oLoadOrCompute:
		v, ok := m.LoadOrCompute(k, computer)
		r.v, r.ok = v, ok
	case oDelete:
		m.Delete(k)
	case oDeleteOrStore:
		r.v, r.ok = m.DeleteOrStore(k, arg)
	case oDeleteOrCompute:
		v, ok := m.DeleteOrCompute(k, computer)
		r.v, r.ok = v, ok
	case oModifySet, oModifyDrop:
		v, ok := m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) {
			r.comp++
			r.old = entry{ok, v}
			in()
			switch {
			case op == oModifyDrop:
				return arg, false
			case ok:
				return pair{v, arg}, true
			}
			return arg, true
		})
		r.v, r.ok = v, ok
	}
	return
}

// sameOp tells whether a result is as specified.
func sameOp(op int, got, exp opRes) bool {
	if got.ok != exp.ok || got.v != exp.v {
		return false
	}
	if op == oModifySet || op == oModifyDrop {
		return got.old.ok == exp.old.ok && got.old.v == exp.old.v
	}
	return true
}

// MapSeq: a sequence of operations on a few keys behaves as documented (C12).
func MapSeq() {
	steps, n := sym.P("steps"), sym.P("n")
	m := psync.NewMap(n)
	// a and b have the same hash, c is in another split if there is one
	keys := []mkey{{7, 1}, {7, 2}, {8, 3}}
	want := make([]entry, len(keys))
	val := func(name string) interface{} {
		if sym.Bool(name + "nil") {
			return nil
		}
		return sym.Int(name)
	}
	for i, k := range keys {
		if i == 0 || i == 1 {
			if sym.Bool("present" + itoa(i)) {
				want[i] = entry{true, val("prior" + itoa(i))}
				s := m.Split(k)
				s.Lock()
				s.Map[k] = want[i].v
				s.Unlock()
			}
		}
	}
	op0 := sym.P("op")
	for s := 0; s < steps; s++ {
		op := op0
		if s > 0 || op < 0 {
			op = sym.Concrete(sym.IntIn("op"+itoa(s), 0, nOps-1))
		}
		ki := 0
		if s > 0 {
			ki = sym.Concrete(sym.IntIn("key"+itoa(s), 0, len(keys)-1))
		}
		k := keys[ki]
		arg := val("v" + itoa(s))
		r := doOp(m, op, k, arg, func() {
			own := sym.Locked(&m.Split(k).RWMutex)
			switch op {
			case oLoadOrCompute:
				for _, x := range keys {
					sym.Assert(sym.Locked(&m.Split(x).RWMutex) == 0, "LoadOrCompute holds no lock while the computer runs")
				}
			default:
				sym.Assert(own == 2, "the lock of the key's split is held while the computer or modifier runs")
			}
		})
		exp, after := specOp(op, want[ki], arg)
		sym.Assert(sameOp(op, r, exp), "the result is the documented one")
		switch op {
		case oLoadOrCompute, oDeleteOrCompute:
			if want[ki].ok {
				sym.Assert(r.comp == 0, "the computer is not called for a present key")
			} else {
				sym.Assert(r.comp == 1, "the computer is called once for an absent key")
			}
		case oModifySet, oModifyDrop:
			sym.Assert(r.comp == 1, "the modifier is called exactly once")
		}
		want[ki] = after
		for i, x := range keys {
			sp := m.Split(x)
			sym.Assert(sym.Locked(&sp.RWMutex) == 0, "no lock is held after an operation")
			v, ok := sp.Map[x]
			sym.Assert(ok == want[i].ok && v == want[i].v, "the contents of the map are the documented ones")
		}
		sym.Reach("op")
	}
	total := 0
	seen := map[*psync.Split]bool{}
	for i, x := range keys {
		if sp := m.Split(x); !seen[sp] {
			seen[sp] = true
			total += len(sp.Map)
		}
		if want[i].ok {
			total--
		}
	}
	sym.Assert(total == 0, "no other entry appears")
}

// MapKeys: every key lives in exactly one split (C13).
func MapKeys() {
	size := sym.P("size")
	procs := sym.P("procs")
	sym.SetProcs(procs)
	n := size
	if n <= 0 {
		n = procs
	}
	m := psync.NewMap(size)
	ns := 0
	m.And(func(s map[interface{}]interface{}) bool {
		sym.Assert(s != nil && len(s) == 0, "the splits are usable and empty")
		ns++
		return true
	})
	sym.Assert(ns == n, "the map has the given number of splits")
	h1 := sym.Uint64("h1")
	h2 := h1
	if sym.P("same") == 0 {
		h2 = sym.Uint64("h2")
		sym.Assume(h1 != h2)
	}
	a, b := mkey{h1, 1}, mkey{h2, 2}
	m.LoadOrStore(a, "A")
	v, ok := m.Load(mkey{h1, 1})
	sym.Assert(ok && v == interface{}("A"), "an entry is found under an equal key")
	_, ok = m.Load(b)
	sym.Assert(!ok, "an entry is not found under another key")
	m.Modify(b, func(v interface{}, ok bool) (interface{}, bool) {
		sym.Assert(!ok, "an entry is not found under another key")
		return "B", true
	})
	sa, sb := m.Split(a), m.Split(b)
	sym.Assert(m.Split(mkey{h1, 1}) == sa, "the split of a key is always the same")
	if h1 == h2 {
		sym.Assert(sa == sb, "equal hashes have the same split")
		sym.Reach("same hash")
	}
	va, oka := sa.Map[a]
	vb, okb := sb.Map[b]
	sym.Assert(oka && va == interface{}("A"), "the entry is in the split of the key")
	sym.Assert(okb && vb == interface{}("B"), "the entry is in the split of the key")
	ca, cb, all := 0, 0, 0
	m.And(func(s map[interface{}]interface{}) bool {
		if _, ok := s[a]; ok {
			ca++
		}
		if _, ok := s[b]; ok {
			cb++
		}
		all += len(s)
		return true
	})
	sym.Assert(ca == 1 && cb == 1 && all == 2, "an entry is in exactly one split")
	// remove through every deleting operation
	switch sym.Choose("delete", 4) {
	case 0:
		m.Delete(a)
	case 1:
		v, ok := m.DeleteOrStore(a, "C")
		sym.Assert(ok && v == interface{}("A"), "an entry is deleted under an equal key")
	case 2:
		v, ok := m.DeleteOrCompute(a, func() interface{} { sym.Fail("the entry is found"); return nil })
		sym.Assert(ok && v == interface{}("A"), "an entry is deleted under an equal key")
	case 3:
		m.Modify(a, func(v interface{}, ok bool) (interface{}, bool) {
			sym.Assert(ok && v == interface{}("A"), "an entry is found under an equal key")
			return nil, false
		})
	}
	_, ok = m.Load(a)
	sym.Assert(!ok, "a deleted entry is gone")
	v, ok = m.LoadOrCompute(b, func() interface{} { sym.Fail("the entry of another key is still there"); return nil })
	sym.Assert(ok && v == interface{}("B"), "other keys are not affected")
	_, ok = sa.Map[a]
	sym.Assert(!ok, "a deleted entry is gone")
	sym.Reach("keys")
}

// MapLin: concurrent operations on one key are linearizable (C11).
//
//	shape: number of operations of the goroutines as decimal digits; op0: the first operation or -1
func MapLin() {
	var lens []int
	for s := sym.P("shape"); s > 0; s /= 10 {
		lens = append(lens, s%10)
	}
	n := sym.P("n")
	m := psync.NewMap(n)
	key := mkey{5, 1}
	e := entry{}
	if sym.Bool("present") {
		e = entry{true, "prior"}
		m.LoadOrStore(key, "prior")
	}
	type call struct {
		t, op int
		arg   interface{}
		res   opRes
	}
	calls := make([][]call, len(lens))
	total := 0
	for t, l := range lens {
		calls[t] = make([]call, l)
		for i := range calls[t] {
			op := sym.P("op0")
			if total > 0 || op < 0 {
				op = sym.Concrete(sym.IntIn("op"+itoa(total), 0, nOps-1))
			}
			calls[t][i] = call{t: t, op: op, arg: "v" + itoa(total)}
			total++
		}
		// goroutines with the same number of operations are interchangeable
		if t > 0 && l == lens[t-1] && (t > 1 || sym.P("op0") < 0) {
			sym.Assume(calls[t-1][0].op <= calls[t][0].op)
		}
	}
	done := make(chan bool, len(lens))
	for t := range calls {
		t := t
		go func() {
			for i := range calls[t] {
				c := &calls[t][i]
				c.res = doOp(m, c.op, key, c.arg, func() {})
			}
			done <- true
		}()
	}
	for range calls {
		<-done
	}
	var fin entry
	fin.v, fin.ok = m.Load(key)
	for t := range calls {
		for i := range calls[t] {
			c := calls[t][i]
			switch c.op {
			case oLoadOrCompute, oDeleteOrCompute:
				sym.Assert(c.res.comp <= 1, "a computer is called at most once")
				sym.Assert(c.res.ok || c.res.comp == 1, "the computer is called if the key was absent")
			case oModifySet, oModifyDrop:
				sym.Assert(c.res.comp == 1, "a modifier is called exactly once")
			}
		}
	}
	pos := make([]int, len(lens))
	var lin func(k int, e entry) bool
	lin = func(k int, e entry) bool {
		if k == total {
			return e.ok == fin.ok && e.v == fin.v
		}
		for t := range calls {
			if pos[t] == len(calls[t]) {
				continue
			}
			c := &calls[t][pos[t]]
			exp, after := specOp(c.op, e, c.arg)
			if !sameOp(c.op, c.res, exp) {
				continue
			}
			pos[t]++
			ok := lin(k+1, after)
			pos[t]--
			if ok {
				return true
			}
		}
		return false
	}
	sym.Assert(lin(0, e), "some sequential order of the operations explains all results and the final contents")
	sym.Reach("linearized")
}

// ComputePanic: a computer or modifier panics (C16).
func ComputePanic() {
	op, n := sym.P("op"), sym.P("n")
	m := psync.NewMap(n)
	k, other := mkey{sym.Uint64("h"), 1}, mkey{sym.Uint64("h2"), 2}
	has := sym.Bool("has")
	v := sym.Int("v")
	if has {
		m.LoadOrStore(k, v)
	}
	m.LoadOrStore(other, 7)
	panicked, val := try(func() {
		doOp(m, op, k, 5, func() { panic(token(3)) })
	})
	called := op == oModifySet || op == oModifyDrop || !has
	sym.Assert(panicked == called, "the call panics if its function does")
	for _, x := range []mkey{k, other} {
		sym.Assert(sym.Locked(&m.Split(x).RWMutex) == 0, "a panic leaves no lock held")
	}
	if panicked {
		checkPanic(val, 3, 5)
		a, ok := m.Load(k)
		sym.Assert(ok == has && (!ok || a == interface{}(v)), "an operation that panics changes nothing")
		sym.Reach("panicked")
	} else {
		sym.Reach("normal")
	}
	a, ok := m.Load(other)
	sym.Assert(ok && a == interface{}(7), "other entries are unchanged")
	m.LoadOrStore(mkey{k.h, 9}, 1)
	if a, ok = m.Load(mkey{k.h, 9}); !ok {
		sym.Fail("the split is usable after a panic")
	}
}
