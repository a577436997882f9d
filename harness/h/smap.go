//go:build go1.21

package h

import (
	psync "github.com/exascience/pargo/sync"
	"github.com/exascience/pargo/zz_verif/sym"
)

// mkey is a key with a chosen hash.
type mkey struct {
	h  uint64
	id int
}

func (k mkey) Hash() uint64 { return k.h }

func splitIndex(s map[interface{}]interface{}) int {
	i := -1
	for _, v := range s {
		if i >= 0 {
			sym.Fail("a split holds an entry of another split")
		}
		i = v.(int)
	}
	return i
}

// marked is a map with n splits, each with one entry that holds the position of the split.
type marked struct {
	m      *psync.Map
	keys   []mkey
	splits []*psync.Split
}

func newMarked(n int) *marked {
	r := &marked{m: psync.NewMap(n)}
	for h := 0; h < 8*n && len(r.keys) < n; h++ {
		k := mkey{uint64(h), h}
		s := r.m.Split(k)
		if len(s.Map) == 0 {
			s.Map[k] = len(r.keys)
			r.keys = append(r.keys, k)
			r.splits = append(r.splits, s)
		}
	}
	sym.Assert(len(r.keys) == n, "the keys reach all splits")
	// the order of the splits
	var order []int
	r.m.And(func(s map[interface{}]interface{}) bool {
		order = append(order, splitIndex(s))
		return true
	})
	sym.Assert(len(order) == n, "And calls the predicate for every split")
	seen := make([]bool, n)
	for _, i := range order {
		sym.Assert(i >= 0 && !seen[i], "And calls the predicate once for every split")
		seen[i] = true
	}
	keys, splits := r.keys, r.splits
	r.keys, r.splits = nil, nil
	for p, i := range order {
		r.keys = append(r.keys, keys[i])
		r.splits = append(r.splits, splits[i])
		splits[i].Map[keys[i]] = p
	}
	return r
}

func (r *marked) checkLocked(i int) {
	sym.Assert(sym.Locked(&r.splits[i].RWMutex) == 2, "the lock of the split is held while the function runs")
}

func (r *marked) checkUnlocked() {
	for i := range r.splits {
		sym.Assert(sym.Locked(&r.splits[i].RWMutex) == 0, "no lock of a split is left held")
	}
}

// checkUsable: every operation completes after the call.
func (r *marked) checkUsable() {
	r.checkUnlocked()
	for i, k := range r.keys {
		v, ok := r.m.Load(k)
		sym.Assert(ok && v == interface{}(i), "the entries are unchanged")
		r.m.Modify(k, func(v interface{}, ok bool) (interface{}, bool) { return v, true })
	}
}

func callMapBoth(fn int, left bool, level func()) {
	kind := fn / nFuncs
	fn %= nFuncs
	r := newMarked(2)
	callMap(kind, fn, r.m, func(i int) (V, bool) {
		if (i == 0) == left {
			level()
		}
		return V{x: i, b: fn == fAnd}, false
	}, J{
		x: func(a, b interface{}) interface{} { return a },
		i: func(a, b int) int { return a },
		f: func(a, b float64) float64 { return a },
		s: func(a, b string) string { return a },
	}, JS{
		x: func(a, b interface{}) (interface{}, bool) { return a, false },
		i: func(a, b int) (int, bool) { return a, false },
		f: func(a, b float64) (float64, bool) { return a, false },
		s: func(a, b string) (string, bool) { return a, false },
	})
}

// MapFold: predicates and reductions of sync.Map (C15); kind 0 or 1.
func MapFold() {
	kind, fn, n, mode := sym.P("kind"), sym.P("fn"), sym.P("n"), sym.P("mode")
	r := newMarked(n)
	vals, exp, j := foldVals(fn, n, mode)
	cnt := make([]int, n)
	end := make([]int, n)
	calls := 0
	g := sym.Goid()
	res, _ := callMap(kind, fn, r.m, func(i int) (V, bool) {
		sym.Assert(i >= 0, "every split still has its entry")
		r.checkLocked(i)
		cnt[i]++
		if kind == 0 {
			sym.Assert(sym.Goid() == g, "a sequential function runs in the calling goroutine")
			sym.Assert(calls == i, "sequential functions run in the order of the splits")
			calls++
		}
		end[i]++
		return vals[i], false
	}, j, JS{})
	checkFold(fn, mode, res, exp)
	decided := false
	for i := range cnt {
		sym.Assert(cnt[i] == end[i], "all calls have terminated")
		if decided {
			sym.Assert(cnt[i] <= 1, "no split is visited twice")
			if kind == 0 {
				sym.Assert(cnt[i] == 0, "a sequential predicate terminates immediately")
			}
		} else {
			sym.Assert(cnt[i] == 1, "every split is visited exactly once")
		}
		if fn == fAnd && !vals[i].b || fn == fOr && vals[i].b {
			decided = true
		}
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	r.checkUsable()
	sym.Reach("folded")
}

// MapSpec: the speculative predicates and reductions of sync.Map (C15, C16).
//
//	mode 0: normal and deciding functions
//	mode 1: functions to the right of the left-most deciding one end only after the call
//	mode 2: panicking functions as well
func MapSpec() {
	fn, n, mode := sym.P("fn"), sym.P("n"), sym.P("mode")
	r := newMarked(n)
	ks := kinds(n, 2)
	first := -1
	npanic := 0
	for i, k := range ks {
		if k != kNormal && first < 0 {
			first = i
		}
		if k == kPanic {
			npanic++
		}
	}
	if mode != 2 {
		sym.Assume(npanic == 0)
	}
	if mode == 1 {
		sym.Assume(first >= 0 && first < n-1)
	}
	if mode == 2 {
		sym.Assume(npanic > 0)
	}
	joinDec := mode == 0 && n > 1 && !specIsBool(fn) && sym.Bool("joinDecides")
	// the functions return zero values, or others
	zero := !specIsBool(fn) && mode != 1 && !joinDec && sym.Bool("zero")
	decV := V{x: ivx{first, -1}, i: -first - 1, f: float64(-first - 1), s: "d" + itoa(first)}
	joined := ivV(0, n)
	js := specJoin(&joinDec, n)
	if zero {
		decV = V{}
		joined = V{}
		js = JS{
			x: func(a, b interface{}) (interface{}, bool) { return a, false },
			i: func(a, b int) (int, bool) { return a, false },
			f: func(a, b float64) (float64, bool) { return a, false },
			s: func(a, b string) (string, bool) { return a, false },
		}
	}
	late := make([]bool, n)
	if mode == 1 {
		drawLate(late, first)
	}
	release := make(chan struct{})
	cnt := make([]int, n)
	end := make([]int, n)
	var res V
	var dec bool
	panicked, val := try(func() {
		res, dec = callMap(2, fn, r.m, func(i int) (V, bool) {
			sym.Assert(i >= 0, "every split still has its entry")
			r.checkLocked(i)
			cnt[i]++
			if late[i] {
				<-release
			}
			if ks[i] == kPanic {
				panic(token(i))
			}
			end[i]++
			if zero {
				return V{}, ks[i] == kDecide
			}
			if ks[i] == kDecide {
				return V{x: ivx{i, -1}, i: -i - 1, f: float64(-i - 1), s: "d" + itoa(i)}, true
			}
			return ivV(i, i+1), false
		}, J{}, js)
	})
	switch {
	case first < 0:
		sym.Assert(!panicked, "no panic without a panicking function")
		checkSpec(fn, res, dec, joined, joinDec)
		for i := range cnt {
			sym.Assert(cnt[i] == 1 && end[i] == 1, "if none decides every split was visited once and all calls have terminated")
		}
		sym.Reach("undecided")
	case ks[first] == kDecide:
		sym.Assert(!panicked, "a decision to the left of every panic is returned")
		checkSpec(fn, res, dec, decV, true)
		sym.Reach("decided")
	default:
		sym.Assert(panicked, "the left-most panic propagates")
		checkPanic(val, first, n)
		sym.Reach("panicked")
	}
	close(release)
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "every goroutine ends once the functions end")
	for i := range cnt {
		sym.Assert(cnt[i] <= 1, "no split is visited twice")
		if i <= first {
			sym.Assert(cnt[i] == 1, "the deciding split and those left of it are visited")
		}
	}
	r.checkUsable()
}

// MapPanics: panics in traversals, predicates and reductions (C16); kind 0 or 1.
func MapPanics() {
	kind, fn, n := sym.P("kind"), sym.P("fn"), sym.P("n")
	r := newMarked(n)
	pan := make([]bool, n)
	first := -1
	for i := range pan {
		pan[i] = sym.Bool("p" + itoa(i))
		if pan[i] && first < 0 {
			first = i
		}
	}
	cnt := make([]int, n)
	zero := fn != fAnd && fn != fOr && fn != fDo && sym.Bool("zero")
	j := ivJ
	if zero {
		j = J{
			x: func(a, b interface{}) interface{} { return a },
			i: func(a, b int) int { return a },
			f: func(a, b float64) float64 { return a },
			s: func(a, b string) string { return a },
		}
	}
	panicked, val := try(func() {
		callMap(kind, fn, r.m, func(i int) (V, bool) {
			sym.Assert(i >= 0, "every split still has its entry")
			cnt[i]++
			if pan[i] {
				panic(token(i))
			}
			v := ivV(i, i+1)
			if zero {
				v = V{}
			}
			v.b = fn != fOr
			return v, false
		}, j, JS{})
	})
	sym.Assert(panicked == (first >= 0), "the call panics exactly if a function panics")
	if panicked {
		checkPanic(val, first, n)
		sym.Reach("panicked")
	} else {
		sym.Reach("normal")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	for i := range cnt {
		sym.Assert(cnt[i] <= 1, "no split is visited twice")
		if i <= first || first < 0 {
			sym.Assert(cnt[i] == 1, "the splits left of a panic are visited")
		}
	}
	r.checkUsable()
}

// MapRange: traversals (C14, C16).
//
//	n splits, e entries in each; with panics if pan is 1
func MapRange() {
	kind, n, e := sym.P("kind"), sym.P("n"), sym.P("e")
	r := newMarked(n)
	m := r.m
	for _, k := range r.keys {
		m.Delete(k)
	}
	type ent struct {
		k mkey
		s *psync.Split
	}
	var ents []ent
	for i := 0; i < n*e; i++ {
		// entry i is in split i%n
		k := mkey{r.keys[i%n].h, i}
		m.LoadOrStore(k, i)
		ents = append(ents, ent{k, m.Split(k)})
	}
	sym.MapOrder()
	stop, pan := -1, -1
	if kind != 1 {
		stop = sym.Concrete(sym.IntIn("stop", -1, n*e-1))
	}
	if sym.P("pan") == 1 {
		pan = sym.Concrete(sym.IntIn("panic", -1, n*e-1))
		sym.Assume(pan < 0 || pan != stop)
	}
	op := sym.P("op")
	cnt := make([]int, n*e)
	end := make([]int, n*e)
	stopped, calls := false, 0
	lateFrom := n * e
	late := -1
	if kind == 2 && stop >= 0 && n > 1 && op < 0 {
		// an entry of a later split
		lateFrom = stop%n + 1
		if lateFrom < n {
			late = sym.Concrete(sym.IntIn("late", lateFrom-1, n-1))
			if late < lateFrom {
				late = -1
			}
		}
	}
	release := make(chan struct{})
	body := func(k, v interface{}) bool {
		i := v.(int)
		sym.Assert(k.(mkey) == ents[i].k, "the function gets the key and the value of an entry")
		sym.Assert(sym.Locked(&ents[i].s.RWMutex) == 2, "the lock of the split is held while the function runs")
		cnt[i]++
		if kind == 0 {
			sym.Assert(!stopped, "no call after the function has returned false")
			calls++
		}
		if op >= 0 && i == 0 {
			// an operation on another split is not blocked
			done := make(chan bool)
			go func() {
				_, ok := m.Load(ents[op].k)
				done <- ok
			}()
			sym.Assert(<-done, "operations on other splits work meanwhile")
		}
		if i%n == late {
			<-release
		}
		if i == pan {
			panic(token(i))
		}
		end[i]++
		if i == stop {
			stopped = true
			return false
		}
		return true
	}
	panicked, val := try(func() {
		switch kind {
		case 0:
			m.Range(body)
		case 1:
			m.ParallelRange(func(k, v interface{}) { body(k, v) })
		case 2:
			m.SpeculativeRange(body)
		}
	})
	if panicked {
		sym.Assert(pan >= 0, "no panic without a panicking function")
		sym.Assert(stop < 0 || pan%n <= stop%n, "a panic right of the end does not propagate")
		checkPanic(val, pan, n*e)
		sym.Reach("panicked")
	} else if stop < 0 {
		sym.Assert(pan < 0, "a panic propagates")
		for i := range cnt {
			sym.Assert(cnt[i] == 1 && end[i] == 1, "every entry is visited exactly once, and all calls have terminated")
		}
		sym.Reach("complete")
	} else {
		if pan >= 0 {
			sym.Assert(pan%n >= stop%n, "a panic left of the end propagates")
		}
		sym.Assert(cnt[stop] == 1, "the function returned false")
		sym.Reach("stopped")
	}
	close(release)
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "every goroutine ends once the functions end")
	for i := range cnt {
		sym.Assert(cnt[i] <= 1, "no entry is visited twice")
	}
	for _, x := range ents {
		sym.Assert(sym.Locked(&x.s.RWMutex) == 0, "no lock of a split is left held")
		v, ok := m.Load(x.k)
		sym.Assert(ok && v == interface{}(x.k.id), "the entries are unchanged")
		m.Modify(x.k, func(v interface{}, ok bool) (interface{}, bool) { return v, true })
	}
}
