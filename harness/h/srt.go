//go:build go1.21

package h

import (
	"math"
	stdsort "sort"

	psort "github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/zz_verif/sym"
)

// rec is an element; id is its original position, -1 in uninitialized memory.
type rec struct{ key, id int }

// coll is a collection of n elements in a larger array.
type coll struct {
	d    []rec
	n    int
	temp bool
	// called by the sort that starts at the first element
	inside func()
	// called by the comparison of the first two elements
	isSorted func()
}

func (c *coll) in(i int) {
	if i < 0 || i >= c.n {
		sym.Fail("an index outside the collection is used")
	}
}

func (c *coll) rng(i, j int) {
	if i < 0 || j < i || j > c.n {
		sym.Fail("a range outside the collection is used")
	}
}

func (c *coll) Len() int { return c.n }

func (c *coll) Less(i, j int) bool {
	c.in(i)
	c.in(j)
	a, b := c.d[i], c.d[j]
	if c.isSorted != nil && i == 1 && j == 0 {
		c.isSorted()
	}
	if a.id < 0 || b.id < 0 {
		sym.Fail("uninitialized elements of the temporary collection are compared")
	}
	return a.key < b.key
}

func (c *coll) Swap(i, j int) {
	c.in(i)
	c.in(j)
	c.d[i], c.d[j] = c.d[j], c.d[i]
}

// SequentialSort is a stable insertion sort.
func (c *coll) SequentialSort(i, j int) {
	c.rng(i, j)
	if i == 0 && c.inside != nil {
		c.inside()
	}
	c.insert(i, j)
}

// insert sorts a range by insertion, long ones by merging.
func (c *coll) insert(i, j int) {
	if j-i > 16 {
		m := i + (j-i)/2
		c.insert(i, m)
		c.insert(m, j)
		if !(c.d[m].key < c.d[m-1].key) {
			return
		}
		t := append(make([]rec, 0, m-i), c.d[i:m]...)
		a, b, w := 0, m, i
		for a < len(t) {
			if b < j && c.d[b].key < t[a].key {
				c.d[w] = c.d[b]
				b++
			} else {
				c.d[w] = t[a]
				a++
			}
			w++
		}
		return
	}
	s := c.d[i:j]
	for a := 1; a < len(s); a++ {
		x := s[a]
		b := a
		for b > 0 && x.key < s[b-1].key {
			s[b] = s[b-1]
			b--
		}
		s[b] = x
	}
}

func (c *coll) NewTemp() psort.StableSorter {
	t := &coll{d: make([]rec, len(c.d)), n: c.n, temp: true}
	for i := range t.d {
		t.d[i].id = -1
	}
	return t
}

func (c *coll) Assign(source psort.StableSorter) func(i, j, len int) {
	s := source.(*coll)
	return func(i, j, n int) {
		c.rng(i, i+n)
		s.rng(j, j+n)
		if n < 0 {
			sym.Fail("a negative number of elements is assigned")
		}
		copy(c.d[i:i+n], s.d[j:j+n])
	}
}

// background is a concrete filling of n elements.
func background(pattern, n int) []int {
	d := make([]int, n)
	x := uint32(12345)
	for i := range d {
		switch pattern {
		case 0: // sorted
			d[i] = i
		case 1: // reverse sorted
			d[i] = n - i
		case 2: // all equal
			d[i] = n / 2
		case 3: // organ pipe
			d[i] = i
			if i > n/2 {
				d[i] = n - i
			}
		case 4: // mixed
			x = x*1664525 + 1013904223
			d[i] = int(x>>16) % n
		case 5: // few values
			x = x*1664525 + 1013904223
			d[i] = int(x>>16) % 4 * n / 4
		case 6: // nearly sorted
			d[i] = i
			if i%7 == 3 {
				d[i] = i - 5
			}
		}
	}
	return d
}

// fill draws a collection: all keys symbolic if pattern < 0, else k symbolic
// keys at spread positions in a concrete background.
func fill(n, pattern, k int) *coll {
	c := &coll{d: make([]rec, n+2), n: n}
	for i := range c.d {
		c.d[i].id = -1
	}
	if pattern < 0 {
		for i := 0; i < n; i++ {
			c.d[i] = rec{sym.Int("k" + itoa(i)), i}
		}
		return c
	}
	for i, x := range background(pattern, n) {
		c.d[i] = rec{x, i}
	}
	sp := sym.P("at")
	for i := 0; i < k && n > 0; i++ {
		p := (sp + i*(n/k+1)) % n
		if n <= 100 {
			c.d[p].key = sym.Int("k" + itoa(i))
		} else {
			// beside a few elements of the background only
			c.d[p].key = c.d[n/3].key + sym.IntIn("k"+itoa(i), -4, 4)
		}
	}
	return c
}

func checkSorted(c *coll, stable bool) {
	seen := make([]bool, c.n)
	var cs []bool
	for i := 0; i < c.n; i++ {
		id := c.d[i].id
		sym.Assert(id >= 0 && id < c.n && !seen[id], "the result is a permutation of the original contents")
		seen[id] = true
		if i > 0 {
			a, b := c.d[i-1], c.d[i]
			if stable {
				cs = append(cs, sym.Or(a.key < b.key, sym.And(a.key == b.key, a.id < b.id)))
			} else {
				cs = append(cs, a.key <= b.key)
			}
		}
	}
	if stable {
		sym.Assert(sym.And(cs...), "the result is sorted, with equal elements in their original order")
	} else {
		sym.Assert(sym.And(cs...), "the result is sorted")
	}
	for i := c.n; i < len(c.d); i++ {
		sym.Assert(c.d[i].id == -1, "nothing beyond the collection is touched")
	}
}

// Sort: Sort and StableSort (C17, C18).
func Sort() {
	n, stable := sym.P("n"), sym.P("stable")
	c := fill(n, sym.P("pattern"), sym.P("k"))
	keys := make([]int, n)
	for i := range keys {
		keys[i] = c.d[i].key
	}
	if stable == 1 {
		psort.StableSort(c)
	} else {
		psort.Sort(c)
	}
	checkSorted(c, stable == 1)
	var cs []bool
	for i := 0; i < n; i++ {
		cs = append(cs, c.d[i].key == keys[c.d[i].id])
	}
	sym.Assert(sym.And(cs...), "the elements are unchanged")
	// nothing uses the collection after the return
	for i := range c.d {
		c.d[i] = rec{}
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("sorted")
}

// lessOnly is a sort.Interface that must not be changed.
type lessOnly struct{ c *coll }

func (l lessOnly) Len() int           { return l.c.Len() }
func (l lessOnly) Less(i, j int) bool { return l.c.Less(i, j) }
func (l lessOnly) Swap(i, j int)      { sym.Fail("IsSorted changes the collection") }

// IsSorted is exact (C19).
//
//	pattern < 0: all keys symbolic; else a sorted background with a changed key at any place
func IsSorted() {
	n, pattern := sym.P("n"), sym.P("pattern")
	var c *coll
	if pattern < 0 {
		c = fill(n, pattern, 0)
	} else {
		c = fill(n, pattern, 0)
		lo, hi := 0, n-1
		if n > 100 {
			// around the given place
			lo, hi = sym.P("lo"), sym.P("hi")
		}
		p := sym.Concrete(sym.IntIn("p", lo, hi))
		c.d[p].key = sym.IntIn("k", c.d[p].key-2, c.d[p].key+2)
	}
	exp := true
	var cs []bool
	for i := 1; i < n; i++ {
		cs = append(cs, c.d[i-1].key <= c.d[i].key)
	}
	exp = sym.And(cs...)
	got := psort.IsSorted(lessOnly{c})
	sym.Assert(got == exp, "IsSorted is true exactly if no element is less than its predecessor")
	if got {
		sym.Reach("sorted")
	} else {
		sym.Reach("unsorted")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
}

// bigValue is a background of few different values, with zeros of both signs.
func bigValue(k, n int) (int, float64, string) {
	m := [][]int{
		{0, 2, 0, 0, 4, 0, 3, 0, 0, 1, 0}, // mixed
		{0},                               // equal
		{4, 3, 2, 0, 0, 1},                // runs
	}[sym.P("big")%3]
	c := m[k%len(m)]
	if sym.P("big")%3 == 2 {
		c = m[(n-1-k)*len(m)/n]
	}
	f := []float64{0, -1, 1, math.NaN(), math.Inf(-1)}[c]
	if c == 0 && k*7%3 != 0 {
		f = math.Copysign(0, -1)
	}
	return c, f, []string{"", "b", "ba", "\xff", "a"}[c]
}

// Slices: sorting IntSlice (0), Float64Slice (1), StringSlice (2) (C20).
//
//	how 0: Sort, 1: StableSort, 2: ...AreSorted
func Slices() {
	typ, n, how := sym.P("typ"), sym.P("n"), sym.P("how")
	big := sym.P("big") > 0
	var ok, pre bool
	run := func(s interface {
		psort.Sorter
		psort.StableSorter
	}) {
		switch how {
		case 0:
			psort.Sort(s)
		case 1:
			psort.StableSort(s)
		}
	}
	switch typ {
	case 0:
		s := make([]int, n)
		for i := range s {
			if s[i], _, _ = bigValue(i, n); !big || i == n/2 || i == n-2 {
				s[i] = sym.Int("v" + itoa(i))
			}
		}
		orig := append([]int{}, s...)
		pre = stdsort.IntsAreSorted(s)
		if how == 2 {
			sym.Assert(psort.IntsAreSorted(s) == pre, "IntsAreSorted agrees with the standard library")
		}
		run(psort.IntSlice(s))
		ok = stdsort.IntsAreSorted(s)
		for _, x := range orig {
			a, b := 0, 0
			for i := range orig {
				if orig[i] == x {
					a++
				}
				if s[i] == x {
					b++
				}
			}
			sym.Assert(a == b, "the result is a permutation of the original contents")
		}
	case 1:
		s := make([]float64, n)
		for i := range s {
			if _, s[i], _ = bigValue(i, n); !big || i == n/2 || i == n-2 {
				s[i] = sym.Float("v" + itoa(i))
			}
		}
		orig := append([]float64{}, s...)
		pre = stdsort.Float64sAreSorted(s)
		if how == 2 {
			sym.Assert(psort.Float64sAreSorted(s) == pre, "Float64sAreSorted agrees with the standard library")
		}
		run(psort.Float64Slice(s))
		ok = stdsort.Float64sAreSorted(s)
		na, nb := 0, 0
		for i := range s {
			if orig[i] != orig[i] {
				na++
			}
			if s[i] != s[i] {
				nb++
			}
		}
		sym.Assert(na == nb, "the result is a permutation of the original contents")
		if how == 1 {
			// zeros of either sign are equal: stability is visible
			var za, zb []bool
			for i := range s {
				if s[i] == 0 {
					za = append(za, math.Signbit(s[i]))
				}
				if orig[i] == 0 {
					zb = append(zb, math.Signbit(orig[i]))
				}
			}
			sym.Assert(len(za) == len(zb), "the result is a permutation of the original contents")
			for k := range za {
				sym.Assert(za[k] == zb[k], "StableSort is stable")
			}
		}
		for _, x := range orig {
			a, b := 0, 0
			for i := range orig {
				if orig[i] == x {
					a++
				}
				if s[i] == x {
					b++
				}
			}
			sym.Assert(a == b, "the result is a permutation of the original contents")
		}
	case 2:
		s := make([]string, n)
		for i := range s {
			if big {
				if _, _, s[i] = bigValue(i, n); i != n/2 {
					continue
				}
				s[i] = ""
			}
			switch l := sym.Choose("len"+itoa(i), 3); l {
			case 1:
				s[i] = string([]byte{sym.ByteIn("a"+itoa(i), 0, 255)})
			case 2:
				s[i] = string([]byte{sym.ByteIn("a"+itoa(i), 0, 255), sym.ByteIn("b"+itoa(i), 0, 255)})
			}
		}
		orig := append([]string{}, s...)
		pre = stdsort.StringsAreSorted(s)
		if how == 2 {
			sym.Assert(psort.StringsAreSorted(s) == pre, "StringsAreSorted agrees with the standard library")
		}
		run(psort.StringSlice(s))
		ok = stdsort.StringsAreSorted(s)
		la, lb := 0, 0
		for i := range s {
			la += len(orig[i])
			lb += len(s[i])
		}
		sym.Assert(la == lb, "the result is a permutation of the original contents")
	}
	if how != 2 {
		sym.Assert(ok, "the result is sorted in the order of the standard library")
	}
	sym.Reach("checked")
}

// SliceOps: the methods of the slice types (C20).
func SliceOps() {
	typ, n := sym.P("typ"), sym.P("n")
	big := sym.P("big") > 0
	var i, j int
	if big {
		r := [][2]int{{0, n}, {1, n - 1}, {n / 3, n}, {0, 13}}[sym.Choose("ij", 4)]
		i, j = r[0], r[1]
	} else {
		i = sym.Concrete(sym.IntIn("i", 0, n))
		j = sym.Concrete(sym.IntIn("j", i, n))
	}
	var s interface {
		psort.Sorter
		psort.StableSorter
	}
	var less func(a, b int) bool // the order of the standard library
	var same func(a, b int) bool // current a is original b
	var mark func() (id []int)   // original positions where they can be told
	ints := make([]int, n)
	fls := make([]float64, n)
	strs := make([]string, n)
	for k := 0; k < n; k++ {
		if big {
			ints[k], fls[k], strs[k] = bigValue(k, n)
			if k != n/2 && (k != n-2 || typ == 2) {
				continue
			}
		}
		switch typ {
		case 0:
			ints[k] = sym.Int("v" + itoa(k))
		case 1:
			fls[k] = sym.Float("v" + itoa(k))
		case 2:
			strs[k] = string([]byte{sym.ByteIn("a"+itoa(k), 0, 255)})
		}
	}
	oi, of, os := append([]int{}, ints...), append([]float64{}, fls...), append([]string{}, strs...)
	bits := func(x, y float64) bool { return sym.Or(x == y, sym.And(x != x, y != y)) }
	switch typ {
	case 0:
		s = psort.IntSlice(ints)
		less = stdsort.IntSlice(ints).Less
		same = func(a, b int) bool { return ints[a] == oi[b] }
	case 1:
		s = psort.Float64Slice(fls)
		less = stdsort.Float64Slice(fls).Less
		same = func(a, b int) bool { return bits(fls[a], of[b]) }
	case 2:
		s = psort.StringSlice(strs)
		less = stdsort.StringSlice(strs).Less
		same = func(a, b int) bool { return strs[a] == os[b] }
	}
	_ = mark
	switch sym.P("op") {
	case 0: // Len, Less, Swap
		sym.Assert(s.Len() == n, "Len is the number of elements")
		if i < n && j < n {
			sym.Assert(s.Less(i, j) == less(i, j), "Less is the order of the standard library")
			sym.Assert(s.Less(j, i) == less(j, i), "Less is the order of the standard library")
			s.Swap(i, j)
			for k := 0; k < n; k++ {
				switch k {
				case i:
					sym.Assert(same(k, j), "Swap exchanges two elements")
				case j:
					sym.Assert(same(k, i), "Swap exchanges two elements")
				default:
					sym.Assert(same(k, k), "Swap leaves other elements alone")
				}
			}
		}
	case 1: // SequentialSort
		s.SequentialSort(i, j)
		for k := 0; k < n; k++ {
			if k < i || k >= j {
				sym.Assert(same(k, k), "SequentialSort leaves the rest untouched")
			} else if k > i {
				sym.Assert(!less(k, k-1), "SequentialSort sorts the range")
			}
		}
		for k := i; k < j; k++ {
			a, b := 0, 0
			for l := i; l < j; l++ {
				if same(l, k) {
					a++
				}
				eq := false
				switch typ {
				case 0:
					eq = oi[l] == oi[k]
				case 1:
					eq = bits(of[l], of[k])
				case 2:
					eq = os[l] == os[k]
				}
				if eq {
					b++
				}
			}
			sym.Assert(a == b, "SequentialSort permutes the range")
		}
		if typ == 1 {
			// zeros of either sign are equal: stability is visible
			var za, zb []bool
			for k := i; k < j; k++ {
				if fls[k] == 0 {
					za = append(za, math.Signbit(fls[k]))
				}
				if of[k] == 0 {
					zb = append(zb, math.Signbit(of[k]))
				}
			}
			sym.Assert(len(za) == len(zb), "SequentialSort permutes the range")
			for k := range za {
				sym.Assert(za[k] == zb[k], "SequentialSort is stable")
			}
		}
	case 2: // NewTemp
		t := s.NewTemp()
		sym.Assert(t.Len() == n, "NewTemp has the same length")
		switch t := t.(type) {
		case psort.IntSlice:
			for k := range t {
				t[k] = 77
			}
		case psort.Float64Slice:
			for k := range t {
				t[k] = 77
			}
		case psort.StringSlice:
			for k := range t {
				t[k] = "77"
			}
		default:
			sym.Reach("checked") // another representation: contents are not looked at
			return
		}
		for k := 0; k < n; k++ {
			sym.Assert(same(k, k), "NewTemp is not an alias")
		}
	case 3: // Assign
		l := sym.Concrete(sym.IntIn("len", 0, n-j))
		t := s.NewTemp()
		switch t := t.(type) {
		case psort.IntSlice:
			for k := range t {
				t[k] = k
			}
		case psort.Float64Slice:
			for k := range t {
				t[k] = float64(k)
			}
		case psort.StringSlice:
			for k := range t {
				t[k] = itoa(k)
			}
		default:
			sym.Reach("checked")
			return
		}
		s.Assign(t)(i, j, l)
		for k := 0; k < n; k++ {
			if k < i || k >= i+l {
				sym.Assert(same(k, k), "Assign leaves the rest untouched")
				continue
			}
			switch typ {
			case 0:
				sym.Assert(ints[k] == k-i+j, "Assign copies the range from the source")
			case 1:
				sym.Assert(fls[k] == float64(k-i+j), "Assign copies the range from the source")
			case 2:
				sym.Assert(strs[k] == itoa(k-i+j), "Assign copies the range from the source")
			}
		}
		if n > 0 && j+l <= n && l > 0 {
			switch t := t.(type) {
			case psort.IntSlice:
				sym.Assert(t[j] == j, "Assign does not change the source")
			}
		}
	}
	sym.Reach("checked")
}
