package main

import "time"

type info struct {
	bounds      []string
	assumptions []string
}

var commonAssumptions = []string{
	"the SSA form (golang.org/x/tools/go/ssa) of the current /repo is executed; the library functions listed in DESIGN.md are replaced by models of their documented behaviour (sync, sync/atomic, context, reflect, fmt, runtime)",
	"goroutines interleave at synchronization operations; executions with a data race are reported as races, all others are sequentially consistent",
	"GOARCH=amd64: int has 64 bits and wraps",
}

func inst(h string, kv ...any) instance {
	in := instance{h: h, params: map[string]int64{}}
	for i := 0; i+1 < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case int:
			in.params[kv[i].(string)] = int64(v)
		case int64:
			in.params[kv[i].(string)] = v
		}
	}
	return in
}

func (in instance) need(labels ...string) instance {
	in.reach = append(in.reach, labels...)
	return in
}

// search makes in a search for schedules with at most n preemptions that may
// stop after some time.
func (in instance) search(n int, limit time.Duration) instance {
	in.pre, in.limit, in.extra = n+1, limit, true
	return in
}

func (in instance) with(c map[string]int64) instance {
	in.consts = c
	return in
}

// the function indices of harness/h/fam.go
const (
	fDo = iota
	fAnd
	fOr
	fReduce
	fReduceInt
	fReduceIntSum
	fReduceIntProduct
	fReduceFloat64
	fReduceFloat64Sum
	fReduceFloat64Product
	fReduceString
	fReduceStringSum
	fRange
	nFuncs = 24
	nSpec  = 14
)

func needsOne(fn int) bool {
	return fn == fReduce || fn == fReduceInt || fn == fReduceFloat64 || fn == fReduceString || fn >= fRange
}

// foldModes are the modes of the fold harness for fn besides 0.
func foldModes(fn int) []int {
	switch fn % fRange {
	case fReduce, fReduceInt, fReduceFloat64:
		return []int{1, 2}
	case fReduceString:
		return []int{1, 2, 3}
	case fReduceStringSum:
		return []int{3}
	}
	return nil
}

// rangeShapes are number of batches, size of the range, GOMAXPROCS.
var rangeShapes = [][3]int{{1, 0, 2}, {3, 0, 2}, {0, 0, 2}, {1, 3, 2}, {2, 3, 2}, {2, 5, 2}, {3, 5, 2}, {5, 6, 2}, {7, 4, 2}, {0, 5, 1}, {0, 5, 2}, {0, 3, 3}}
var rangeShapesDeep = [][3]int{{4, 6, 2}, {4, 9, 2}, {3, 8, 2}, {11, 13, 2}, {9, 2, 2}, {0, 9, 3}, {0, 11, 2}, {0, 17, 4}}

func chooseOf[T any](thorough bool, quick, deep T) T {
	if thorough {
		return deep
	}
	return quick
}

func pick(thorough bool, quick, deep []int) []int {
	if thorough {
		return append(append([]int{}, quick...), deep...)
	}
	return quick
}

var mapSpecFns = []int{fAnd, fOr, fReduce, fReduceInt, fReduceFloat64, fReduceString}

var propInfo = map[string]info{
	"C01": {
		bounds: []string{
			"low, high: every pair of 64-bit ints with low <= high and high-low representable as int",
			"batch count n: 1..9, 12, 16, 17, 24, 33 (thorough: 1..40, 48, 64, 65, 100) and 0 with GOMAXPROCS 1..4, 8 (thorough: 1..12, 16, 24, 32); batch counts beyond that are outside the bound",
			"all 12 range functions of parallel and sequential, all 7 of speculative, one schedule per trace: the batches do not depend on the schedule",
		},
	},
	"C02": {
		bounds: []string{
			"invalid arguments: all triples of 64-bit ints low, high, n with high < low or n < 0",
			"valid arguments: all low <= high with high-low representable; n <= 8 (thorough 12), or any n >= 0 if the size is at most 8 (12); GOMAXPROCS 1, 3 (thorough 1..6)",
		},
	},
	"C03": {
		bounds: []string{"1..9, 12, 16, 17, 33, 64 functions or batches (thorough: 1..24, 33, 64, 100, 128); all boolean results of And/Or for up to 4 functions; all schedules"},
	},
	"C04": {
		bounds: []string{"0..9, 13, 16, 33 functions or batches (thorough: 0..20, 33, 64, 100); symbolic 64-bit results for the Sum functions and (one symbolic factor) Products; free interval semigroup and left-/right-zero bands with symbolic results as joins; float sums over symbolic integers below 2^53; all boolean results up to 5 functions, one deviating result beyond; all schedules"},
	},
	"C05": {
		bounds: []string{"1..6, 9, 16 functions or batches (thorough: 1..12, 16, 24, 33); every subset of panicking functions up to 5, every pair beyond; all schedules"},
	},
	"C06": {
		bounds: []string{"19 kinds of panic values, 2 symbolic characters of text, 1..3 levels of goroutines (thorough: 1..6), panic in the first or second function; every function of parallel, speculative and the traversals, predicates and reductions of sync.Map; all schedules"},
	},
	"C07": {
		bounds: []string{"1..5, 8 functions or batches (thorough: 1..10, 16, 24); normal, deciding or panicking functions in every combination up to 4, two that are not normal beyond; joins that decide at any subset of nodes of the tree, or absorbing ones; ranges of other sizes than the number of batches; all schedules"},
	},
	"C08": {
		bounds: []string{"2..5, 8 functions or batches (thorough: 2..10, 12); every set of functions right of the decision that end only after the call (up to 4 functions; a position or a tail beyond), and that end normally, deciding or panicking; all schedules"},
	},
	"C09": {
		bounds: []string{"1..5, 8 functions or batches (thorough: 1..10, 16, 24); every combination of normal, deciding and panicking functions up to 4, two that are not normal beyond; all schedules"},
	},
	"C10": {
		bounds: []string{"0..9, 13, 16, 33 functions or batches (thorough: 0..20, 33, 64); same results and joins as C04, same panics as C05"},
	},
	"C11": {
		bounds: []string{"one key, initially present or absent; 2 goroutines with 1+1, 2+1 and 2+2 operations and 3 goroutines with one operation each (thorough: also 3+1, 2+1+1, 3+2), every choice of the 8 operation kinds; all schedules; a 1-split and a 2-split map"},
	},
	"C12": {
		bounds: []string{"sequences of 2 (thorough 3) operations of every kind on 3 keys, two of which share their hash; prior contents absent, nil or a symbolic value; stored values nil or symbolic; 1 or 2 splits (thorough 1, 2, 5)"},
	},
	"C32": {
		bounds: []string{"1..6, 8, 17, 33 functions or batches (thorough 1..12, 16, 24, 33, 64, 100) that all wait for each other; all 24 functions of parallel and 14 of speculative; all schedules"},
	},
	"C13": {
		bounds: []string{"all 64-bit hashes of two keys (distinct hashes, and equal hashes); sizes -1, 0, 1..8, 16, 17 (thorough: up to 40, 64, 100); GOMAXPROCS 1..4 for sizes <= 0"},
	},
	"C14": {
		bounds: []string{"1..4 splits (thorough 1..6) with 1 or 2 entries each; the function returns false at any entry or never; entries of a later split that end after the call; two iteration orders of Go maps; an operation on another split meanwhile; all schedules, GOMAXPROCS=2 (4 batches)"},
	},
	"C15": {
		bounds: []string{"1..5, 7 splits (thorough 1..9, 12, 16); values and joins as C04, decisions as C07, C08; all schedules"},
	},
	"C16": {
		bounds: []string{"1..4 splits (thorough 1..8); every subset of panicking splits, for Speculative variants every combination of normal, deciding and panicking splits up to 4; LoadOrCompute, DeleteOrCompute and Modify for any two hashes, present or absent entries; all schedules"},
	},
}

func init() {
	scaled := "the constants qsortGrainSize, msortGrainSize and serialCutoff replaced by small values"
	propInfo["C17"] = info{bounds: []string{
		"collections of 0..6 elements (thorough 0..7) with arbitrary 64-bit keys, " + scaled + " (3, 2; thorough also 4, 3), so that every element order passes partitioning and parallel recursion",
		"collections of 9, 16 and 25 elements (thorough 8..24, 31, 33, 40) with two arbitrary keys in 7 concrete backgrounds (sorted, reversed, equal, organ pipe, mixed, few values, nearly sorted), same constants",
		"the real constants: 1279, 1280, 1281, 3000, 6001 elements (thorough also 1400, 2563, 12000), the same backgrounds with one key that moves within 9 neighbours; all schedules"}}
	propInfo["C18"] = info{bounds: []string{
		"collections of 0..6 elements (thorough 0..7) with arbitrary 64-bit keys, " + scaled + " (4; thorough also 5)",
		"collections of 9, 16 and 25 elements (thorough 8..24, 31, 33, 40) with two arbitrary keys in 7 concrete backgrounds, same constants",
		"the real constants: 12287, 12288, 12289 elements (thorough also 12408, 24579), the same backgrounds with one key that moves within 9 neighbours; all schedules"}}
	propInfo["C19"] = info{bounds: []string{
		"0..9 elements (thorough 0..12) with arbitrary 64-bit keys, " + scaled,
		"14, 23, 40 elements (thorough 13..64), one changed key at any position, same constants",
		"the real constants: 1279..1291, 2700, 5200 elements (thorough also 1289, 1300, 7777), one changed key near the first 15, the last 6 elements, the multiples of 1024 and the boundaries between batches (thorough: at every position); all schedules"}}
	propInfo["C20"] = info{bounds: []string{
		"slices of 0..4 elements (thorough 0..5): any 64-bit ints, any float64 bit patterns up to the payload of NaN, strings of 0..2 bytes of any value; " + scaled + " for Sort, StableSort and ...AreSorted",
		"methods: every i <= j and length in slices of 0..4 (5) elements"}}
}

func instancesFor(prop string, thorough bool) []instance {
	var l []instance
	add := func(in instance) { l = append(l, in) }
	seq := func(lo, hi int, more ...int) (r []int) {
		for i := lo; i <= hi; i++ {
			r = append(r, i)
		}
		return append(r, more...)
	}
	choose := func(quick, deep []int) []int { return chooseOf(thorough, quick, deep) }
	specRange := func(labels func(size int) []string) {
		for fn := 7; fn < nSpec; fn++ {
			for _, c := range chooseOf(thorough, rangeShapes, append(rangeShapes[:len(rangeShapes):len(rangeShapes)], rangeShapesDeep...)) {
				add(inst("SpecRange", "fn", fn, "n", c[0], "size", c[1], "procs", c[2]).need(labels(c[1])...))
			}
		}
	}
	specInst := func(modes []int, ns []int) {
		for _, mode := range modes {
			for fn := 0; fn < nSpec; fn++ {
				for _, n := range ns {
					if mode == 1 && n < 2 {
						continue
					}
					in := inst("Spec", "fn", fn, "n", n, "mode", mode)
					switch mode {
					case 0:
						in = in.need("decided", "undecided")
					case 1:
						in = in.need("decided")
					case 2:
						in = in.need("panicked")
					}
					add(in)
				}
			}
		}
	}
	switch prop {
	case "C01":
		for _, n := range choose(seq(1, 9, 12, 16, 17, 24, 33), seq(1, 40, 48, 64, 65, 100)) {
			for pkg := 0; pkg < 2; pkg++ {
				for fn := fRange; fn < nFuncs; fn++ {
					if n > 9 && fn != fRange && fn != fRange+(n+pkg)%12 {
						continue
					}
					add(inst("Tile", "pkg", pkg, "fn", fn, "n", n).need("tiled"))
				}
			}
			for fn := 7; fn < nSpec; fn++ {
				if n > 9 && fn != 7+n%7 {
					continue
				}
				add(inst("Tile", "pkg", 2, "fn", fn, "n", n).need("tiled"))
			}
		}
		for _, p := range choose(seq(1, 4, 8), seq(1, 12, 16, 24, 32)) {
			for pkg := 0; pkg < 2; pkg++ {
				for fn := fRange; fn < nFuncs; fn++ {
					if p > 3 && fn != fRange+(p+pkg)%12 {
						continue
					}
					add(inst("Tile", "pkg", pkg, "fn", fn, "n", 0, "procs", p).need("tiled"))
				}
			}
			for fn := 7; fn < nSpec; fn++ {
				if p > 3 && fn != 7+p%7 {
					continue
				}
				add(inst("Tile", "pkg", 2, "fn", fn, "n", 0, "procs", p).need("tiled"))
			}
		}
	case "C02":
		for pkg := 0; pkg < 3; pkg++ {
			lo, hi := fRange, nFuncs
			if pkg == 2 {
				lo, hi = 7, nSpec
			}
			for fn := lo; fn < hi; fn++ {
				add(inst("Bad", "pkg", pkg, "fn", fn).need("panicked"))
				for _, p := range choose([]int{1, 3}, seq(1, 6)) {
					add(inst("Good", "pkg", pkg, "fn", fn, "max", choose([]int{8}, []int{12})[0], "procs", p).need("normal"))
				}
			}
		}
	case "C03":
		for fn := 0; fn < nFuncs; fn++ {
			for _, n := range choose(seq(1, 9, 12, 16, 17, 33, 64), seq(1, 24, 33, 64, 100, 128)) {
				add(inst("Once", "fn", fn, "n", n).need("returned"))
			}
		}
	case "C04", "C10":
		pkg := 0
		ns := choose(seq(0, 9, 13, 16, 33), seq(0, 20, 33, 64, 100))
		if prop == "C10" {
			pkg = 1
			ns = choose(seq(0, 9, 13, 16, 33), seq(0, 20, 33, 64))
		}
		for fn := 0; fn < nFuncs; fn++ {
			for _, n := range ns {
				if n == 0 && needsOne(fn) {
					continue
				}
				add(inst("Fold", "pkg", pkg, "fn", fn, "n", n, "mode", 0).need("folded"))
				for _, mode := range foldModes(fn) {
					add(inst("Fold", "pkg", pkg, "fn", fn, "n", n, "mode", mode).need("folded"))
				}
			}
			if fn > fRange {
				for _, c := range chooseOf(thorough, rangeShapes, append(rangeShapes[:len(rangeShapes):len(rangeShapes)], rangeShapesDeep...)) {
					for _, mode := range append([]int{0}, foldModes(fn)...) {
						add(inst("FoldRange", "pkg", pkg, "fn", fn, "n", c[0], "size", c[1], "procs", c[2], "mode", mode).need("folded"))
					}
				}
			}
			if prop == "C10" {
				for _, n := range choose(seq(1, 6), seq(1, 12, 16)) {
					in := inst("Panics", "pkg", 1, "fn", fn, "n", n).need("panicked")
					if n <= 5 {
						in = in.need("normal")
					}
					add(in)
				}
			}
		}
	case "C05":
		for fn := 0; fn < nFuncs; fn++ {
			for _, n := range choose(seq(1, 6, 9, 16), seq(1, 12, 16, 24, 33)) {
				in := inst("Panics", "pkg", 0, "fn", fn, "n", n).need("panicked")
				if n <= 5 {
					in = in.need("normal")
				}
				add(in)
			}
		}
	case "C06":
		for _, d := range choose(seq(1, 3), seq(1, 6)) {
			for fn := 0; fn < nFuncs; fn++ {
				add(inst("Wrap", "pkg", 0, "fn", fn, "depth", d).need("error", "runtime error", "other", "normal"))
			}
			for fn := 0; fn < nSpec; fn++ {
				add(inst("Wrap", "pkg", 2, "fn", fn, "depth", d).need("error", "runtime error", "other", "normal"))
			}
			if d > 2 {
				continue
			}
			for fn := 0; fn < fRange; fn++ {
				add(inst("Wrap", "pkg", 3, "fn", nFuncs+fn, "depth", d).need("error", "runtime error", "other", "normal"))
			}
			for _, fn := range append([]int{fDo}, mapSpecFns...) {
				add(inst("Wrap", "pkg", 3, "fn", 2*nFuncs+fn, "depth", d).need("error", "runtime error", "other", "normal"))
			}
		}
	case "C07":
		specInst([]int{0}, choose(seq(1, 5, 8), seq(1, 10, 16, 24)))
		specInst([]int{1}, choose(seq(2, 4), seq(2, 8)))
		for fn := 0; fn < nSpec; fn++ {
			switch fn % 7 {
			case 0, 1, 2:
				continue
			}
			for _, n := range choose(seq(1, 6, 9), seq(1, 12, 16)) {
				in := inst("SpecJoin", "fn", fn, "n", n)
				switch {
				case n == 1:
					in = in.need("undecided", "single")
				case n <= 4:
					in = in.need("undecided", "decided")
				default:
					in = in.need("decided")
				}
				add(in)
			}
		}
		specRange(func(size int) []string {
			if size == 0 {
				return []string{"undecided"}
			}
			return []string{"undecided", "decided"}
		})
	case "C08":
		specInst([]int{1}, choose(seq(2, 5, 8), seq(2, 10, 12)))
	case "C09":
		specInst([]int{2}, choose(seq(1, 5, 8), seq(1, 10, 16, 24)))
		specRange(func(size int) []string {
			if size == 0 {
				return nil
			}
			return []string{"panicked"}
		})
	case "C11":
		for op := 0; op < 8; op++ {
			add(inst("MapLin", "shape", 21, "n", 1, "op0", op).need("linearized"))
			add(inst("MapLin", "shape", 111, "n", 1, "op0", op).need("linearized"))
			add(inst("MapLin", "shape", 22, "n", 1, "op0", op).need("linearized"))
			if thorough {
				add(inst("MapLin", "shape", 31, "n", 1, "op0", op).need("linearized"))
				add(inst("MapLin", "shape", 111, "n", 2, "op0", op).need("linearized"))
			}
		}
		add(inst("MapLin", "shape", 11, "n", 1, "op0", -1).need("linearized"))
		add(inst("MapLin", "shape", 11, "n", 2, "op0", -1).need("linearized"))
		if thorough {
			for op := 0; op < 8; op++ {
				add(inst("MapLin", "shape", 211, "n", 1, "op0", op).need("linearized"))
			}
		}
	case "C12":
		for op := 0; op < 8; op++ {
			for _, n := range choose([]int{1, 2}, []int{1, 2, 5}) {
				add(inst("MapSeq", "steps", choose([]int{2}, []int{3})[0], "n", n, "op", op).need("op"))
			}
		}
	case "C13":
		for _, n := range choose(seq(1, 8, 16, 17), seq(1, 40, 64, 100)) {
			if n <= 20 {
				add(inst("MapKeys", "size", n, "procs", 2, "same", 0).need("keys"))
			}
			add(inst("MapKeys", "size", n, "procs", 2, "same", 1).need("keys", "same hash"))
		}
		for p := 1; p <= 4; p++ {
			add(inst("MapKeys", "size", 0, "procs", p, "same", 0).need("keys"))
			add(inst("MapKeys", "size", -1, "procs", p, "same", 0).need("keys"))
		}
		add(inst("MapKeys", "size", -9, "procs", 3, "same", 0).need("keys"))
	case "C14":
		for kind := 0; kind < 3; kind++ {
			for _, n := range choose(seq(1, 4), seq(1, 6)) {
				for e := 1; e <= 2; e++ {
					if n*e > 8 {
						continue
					}
					add(inst("MapRange", "kind", kind, "n", n, "e", e, "pan", 0, "op", -1).need("complete"))
					if n > 1 && n <= 3 {
						add(inst("MapRange", "kind", kind, "n", n, "e", e, "pan", 0, "op", n-1).need("complete"))
					}
				}
			}
		}
		add(inst("MapRange", "kind", 2, "n", 5, "e", 1, "pan", 0, "op", -1).need("complete"))
	case "C15":
		for _, n := range choose(seq(1, 5, 7), seq(1, 9, 12, 16)) {
			for kind := 0; kind < 2; kind++ {
				for fn := fAnd; fn < fRange; fn++ {
					add(inst("MapFold", "kind", kind, "fn", fn, "n", n, "mode", 0).need("folded"))
					for _, mode := range foldModes(fn) {
						add(inst("MapFold", "kind", kind, "fn", fn, "n", n, "mode", mode).need("folded"))
					}
				}
			}
			for _, fn := range mapSpecFns {
				add(inst("MapSpec", "fn", fn, "n", n, "mode", 0).need("decided", "undecided"))
				if n > 1 && n <= 5 {
					add(inst("MapSpec", "fn", fn, "n", n, "mode", 1).need("decided"))
				}
			}
		}
	case "C16":
		for _, op := range []int{2, 5, 6, 7} {
			for _, n := range choose(seq(1, 3), seq(1, 6)) {
				in := inst("ComputePanic", "op", op, "n", n).need("panicked")
				if op < 6 {
					in = in.need("normal")
				}
				add(in)
			}
		}
		for _, n := range choose(seq(1, 4), seq(1, 8)) {
			for kind := 0; kind < 2; kind++ {
				for fn := fAnd; fn < fRange; fn++ {
					if n > 6 && fn%3 != n%3 {
						continue
					}
					add(inst("MapPanics", "kind", kind, "fn", fn, "n", n).need("panicked", "normal"))
				}
			}
			for _, fn := range mapSpecFns {
				add(inst("MapSpec", "fn", fn, "n", n, "mode", 2).need("panicked"))
			}
			if n <= 4 {
				for kind := 0; kind < 3; kind++ {
					add(inst("MapRange", "kind", kind, "n", n, "e", 1, "pan", 1, "op", -1).need("panicked", "complete"))
					if n <= 3 {
						add(inst("MapRange", "kind", kind, "n", n, "e", 2, "pan", 1, "op", -1).need("panicked", "complete"))
					}
				}
			}
		}
	case "C17", "C18":
		st, grain, big := 0, map[string]int64{"sort.qsortGrainSize": 3, "sort.serialCutoff": 2}, 1280
		if prop == "C18" {
			st, grain, big = 1, map[string]int64{"sort.msortGrainSize": 4}, 12288
		}
		for _, n := range seq(0, choose([]int{6}, []int{7})[0]) {
			add(inst("Sort", "n", n, "stable", st, "pattern", -1, "k", 0, "at", 0).with(grain).need("sorted"))
			if n > 3 && thorough {
				g := map[string]int64{"sort.qsortGrainSize": 4, "sort.serialCutoff": 3}
				if st == 1 {
					g = map[string]int64{"sort.msortGrainSize": 5}
				}
				add(inst("Sort", "n", n, "stable", st, "pattern", -1, "k", 0, "at", 0).with(g).need("sorted"))
			}
		}
		for pat := 0; pat < 7; pat++ {
			for _, n := range choose([]int{9, 16, 25}, seq(8, 24, 31, 33, 40)) {
				for _, at := range choose([]int{1}, []int{0, 1, 5, 7}) {
					add(inst("Sort", "n", n, "stable", st, "pattern", pat, "k", 2, "at", at).with(grain).need("sorted"))
				}
			}
			for _, n := range choose([]int{big - 1, big, big + 1}, []int{big - 1, big, big + 1, big + 120, 2*big + 3}) {
				for _, at := range choose([]int{5}, []int{0, 5, 641, big / 2, big - 2}) {
					in := inst("Sort", "n", n, "stable", st, "pattern", pat, "k", 1, "at", at).need("sorted")
					add(in)
				}
			}
			if st == 0 {
				for _, n := range choose([]int{3000, 6001}, []int{3000, 6001, 12000}) {
					if pat == 3 && n > 3000 {
						continue // many schedules
					}
					add(inst("Sort", "n", n, "stable", st, "pattern", pat, "k", 1, "at", 7*pat).need("sorted"))
				}
			}
		}
	case "C19":
		g := map[string]int64{"sort.qsortGrainSize": 3, "sort.serialCutoff": 2}
		for _, n := range seq(0, choose([]int{9}, []int{12})[0]) {
			in := inst("IsSorted", "n", n, "pattern", -1, "k", 0, "at", 0).with(g).need("sorted")
			if n > 1 {
				in = in.need("unsorted")
			}
			add(in)
		}
		for _, n := range choose([]int{14, 23, 40}, seq(13, 64)) {
			for _, pat := range []int{0, 2} {
				add(inst("IsSorted", "n", n, "pattern", pat, "k", 0, "at", 0).with(g).need("sorted", "unsorted"))
			}
		}
		for _, n := range choose([]int{1279, 1280, 1290, 1291, 2700, 5200}, []int{1279, 1280, 1289, 1290, 1291, 1300, 2700, 5200, 7777}) {
			win := [][2]int{{0, 14}, {n - 6, n - 1}}
			around := func(c, w int) {
				lo, hi := c-w, c+w
				if lo < 0 {
					lo = 0
				}
				if hi > n-1 {
					hi = n - 1
				}
				if lo <= hi {
					win = append(win, [2]int{lo, hi})
				}
			}
			for m := 1024; m < n; m += 1024 {
				around(m, 3)
			}
			// the batch boundaries of the divide and conquer
			var rec func(index, size int)
			rec = func(index, size int) {
				around(index, 2)
				if size >= 1280 {
					rec(index, size/2)
					rec(index+size/2, size-size/2)
				}
			}
			rec(10, n-10)
			if thorough {
				for lo := 15; lo < n-6; lo += 40 {
					around(lo+20, 20)
				}
			}
			for _, w := range win {
				add(inst("IsSorted", "n", n, "pattern", 0, "k", 0, "at", 0, "lo", w[0], "hi", w[1]).need("sorted", "unsorted"))
			}
		}
	case "C20":
		g := map[string]int64{"sort.qsortGrainSize": 3, "sort.serialCutoff": 2, "sort.msortGrainSize": 4}
		for typ := 0; typ < 3; typ++ {
			for how := 0; how < 3; how++ {
				for _, n := range seq(0, choose([]int{4}, []int{5})[0]) {
					if typ == 2 && n > 4 {
						continue
					}
					add(inst("Slices", "typ", typ, "n", n, "how", how, "big", 0).with(g).need("checked"))
				}
			}
			for big := 1; big <= 3; big++ {
				for _, n := range choose([]int{13, 16, 20}, seq(13, 26, 33, 47)) {
					for how := 0; how < 3; how++ {
						add(inst("Slices", "typ", typ, "n", n, "how", how, "big", big).with(g).need("checked"))
					}
					for op := 1; op < 4; op++ {
						if op == 1 || n == 13 {
							add(inst("SliceOps", "typ", typ, "n", n, "op", op, "big", big).need("checked"))
						}
					}
				}
			}
			for op := 0; op < 4; op++ {
				for _, n := range seq(0, choose([]int{4}, []int{5})[0]) {
					add(inst("SliceOps", "typ", typ, "n", n, "op", op, "big", 0).need("checked"))
				}
			}
		}
	case "C32":
		for _, n := range choose(seq(1, 6, 8, 17, 33), seq(1, 12, 16, 24, 33, 64, 100)) {
			for fn := 0; fn < nFuncs; fn++ {
				add(inst("Meet", "pkg", 0, "fn", fn, "n", n).need("met"))
			}
			for fn := 0; fn < nSpec; fn++ {
				add(inst("Meet", "pkg", 2, "fn", fn, "n", n).need("met"))
			}
		}
	case "C34":
		l = append(l, indepInstances(thorough)...)
	case "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C33":
		l = append(l, pipeInstances(prop, thorough)...)
	}
	return l
}
