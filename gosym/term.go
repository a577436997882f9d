package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed symbolic expressions. Integers are mathematical integers;
// machine wrap-around is made explicit by the operations in symops.go.

type Op uint8

const (
	OpConst Op = iota // integer constant (k)
	OpVar             // integer variable
	OpLin             // k + sum coef*atom
	OpDiv             // floor(args[0] / k), k > 0
	OpMod             // args[0] mod k, k > 0
	OpMul             // product of atoms
	OpIte             // if args[0] then args[1] else args[2]
	OpBVar            // boolean variable
	OpLe0             // args[0] <= 0
	OpEq0             // args[0] == 0
	OpNot
	OpAnd
	OpOr
	OpTrue
	OpFalse
	OpRange // args[0] lies within its interval
)

type mono struct {
	c *big.Int
	t *Term
}

type Term struct {
	id     int
	op     Op
	name   string
	k      *big.Int
	args   []*Term
	lin    []mono
	lo, hi *big.Int // interval of an integer term
}

func (t *Term) isBool() bool { return t.op >= OpBVar }

type Terms struct {
	tab   map[string]*Term
	next  int
	tTrue *Term
	tFals *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[string]*Term{}}
	ts.tTrue = ts.intern("T", func() *Term { return &Term{op: OpTrue} })
	ts.tFals = ts.intern("F", func() *Term { return &Term{op: OpFalse} })
	return ts
}

func (ts *Terms) intern(key string, mk func() *Term) *Term {
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := mk()
	t.id = ts.next
	ts.next++
	ts.tab[key] = t
	return t
}

var bigZero, bigOne = big.NewInt(0), big.NewInt(1)

func (ts *Terms) cnst(k *big.Int) *Term {
	return ts.intern("c"+k.String(), func() *Term { return &Term{op: OpConst, k: k, lo: k, hi: k} })
}
func (ts *Terms) cint(k int64) *Term { return ts.cnst(big.NewInt(k)) }

func (ts *Terms) ivar(name string, lo, hi *big.Int) *Term {
	return ts.intern("v"+name+":"+lo.String()+":"+hi.String(), func() *Term {
		return &Term{op: OpVar, name: name, lo: lo, hi: hi}
	})
}

// rangeOf is the constraint that the variable v lies in its declared interval.
func (ts *Terms) rangeOf(v *Term) *Term {
	return ts.intern("R"+strconv.Itoa(v.id), func() *Term { return &Term{op: OpRange, args: []*Term{v}} })
}
func (ts *Terms) bvar(name string) *Term {
	return ts.intern("b"+name, func() *Term { return &Term{op: OpBVar, name: name} })
}

func linView(t *Term) (*big.Int, []mono) {
	switch t.op {
	case OpConst:
		return t.k, nil
	case OpLin:
		return t.k, t.lin
	}
	return bigZero, []mono{{bigOne, t}}
}

func (ts *Terms) mkLin(k *big.Int, ms []mono) *Term {
	if len(ms) == 0 {
		return ts.cnst(k)
	}
	if len(ms) == 1 && k.Sign() == 0 && ms[0].c.Cmp(bigOne) == 0 {
		return ms[0].t
	}
	var sb strings.Builder
	sb.WriteString("l")
	sb.WriteString(k.String())
	for _, m := range ms {
		fmt.Fprintf(&sb, "+%s*%d", m.c.String(), m.t.id)
	}
	return ts.intern(sb.String(), func() *Term {
		lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
		for _, m := range ms {
			a := new(big.Int).Mul(m.c, m.t.lo)
			b := new(big.Int).Mul(m.c, m.t.hi)
			if m.c.Sign() < 0 {
				a, b = b, a
			}
			lo.Add(lo, a)
			hi.Add(hi, b)
		}
		return &Term{op: OpLin, k: k, lin: ms, lo: lo, hi: hi}
	})
}

// addScaled returns a + c*b.
func (ts *Terms) addScaled(a *Term, c *big.Int, b *Term) *Term {
	ka, ma := linView(a)
	kb, mb := linView(b)
	k := new(big.Int).Mul(c, kb)
	k.Add(k, ka)
	out := make([]mono, 0, len(ma)+len(mb))
	i, j := 0, 0
	for i < len(ma) || j < len(mb) {
		switch {
		case j >= len(mb) || (i < len(ma) && ma[i].t.id < mb[j].t.id):
			out = append(out, ma[i])
			i++
		case i >= len(ma) || mb[j].t.id < ma[i].t.id:
			x := new(big.Int).Mul(c, mb[j].c)
			if x.Sign() != 0 {
				out = append(out, mono{x, mb[j].t})
			}
			j++
		default:
			x := new(big.Int).Mul(c, mb[j].c)
			x.Add(x, ma[i].c)
			if x.Sign() != 0 {
				out = append(out, mono{x, ma[i].t})
			}
			i++
			j++
		}
	}
	return ts.mkLin(k, out)
}

func (ts *Terms) add(a, b *Term) *Term { return ts.addScaled(a, bigOne, b) }
func (ts *Terms) sub(a, b *Term) *Term { return ts.addScaled(a, big.NewInt(-1), b) }
func (ts *Terms) neg(a *Term) *Term    { return ts.sub(ts.cnst(bigZero), a) }
func (ts *Terms) scale(a *Term, c *big.Int) *Term {
	return ts.addScaled(ts.cnst(bigZero), c, a)
}

// product of two atoms (Var, Div, Mod, Ite, Mul)
func (ts *Terms) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OpMul {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	var sb strings.Builder
	sb.WriteString("m")
	for _, f := range fs {
		fmt.Fprintf(&sb, "*%d", f.id)
	}
	return ts.intern(sb.String(), func() *Term {
		lo, hi := fs[0].lo, fs[0].hi
		for _, f := range fs[1:] {
			lo, hi = mulIv(lo, hi, f.lo, f.hi)
		}
		return &Term{op: OpMul, args: fs, lo: lo, hi: hi}
	})
}

func mulIv(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	var lo, hi *big.Int
	for _, x := range []*big.Int{a, b} {
		for _, y := range []*big.Int{c, d} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return lo, hi
}

func (ts *Terms) mul(a, b *Term) *Term {
	if a.op == OpConst {
		return ts.scale(b, a.k)
	}
	if b.op == OpConst {
		return ts.scale(a, b.k)
	}
	ka, ma := linView(a)
	kb, mb := linView(b)
	// (ka + A)(kb + B)
	r := ts.cnst(new(big.Int).Mul(ka, kb))
	for _, m := range ma {
		r = ts.addScaled(r, new(big.Int).Mul(kb, m.c), m.t)
	}
	for _, m := range mb {
		r = ts.addScaled(r, new(big.Int).Mul(ka, m.c), m.t)
	}
	for _, x := range ma {
		for _, y := range mb {
			r = ts.addScaled(r, new(big.Int).Mul(x.c, y.c), ts.mulAtoms(x.t, y.t))
		}
	}
	return r
}

func floorDiv(a, k *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, k, m) // Euclidean; k > 0 so floor
	return q
}

func (ts *Terms) div(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OpConst {
		return ts.cnst(floorDiv(a.k, k))
	}
	lo, hi := floorDiv(a.lo, k), floorDiv(a.hi, k)
	if lo.Cmp(hi) == 0 {
		return ts.cnst(lo)
	}
	// pull out multiples of k
	ka, ma := linView(a)
	out := ts.cnst(floorDiv(ka, k))
	rest := ts.cnst(new(big.Int).Mod(ka, k))
	pulled := floorDiv(ka, k).Sign() != 0
	for _, m := range ma {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(m.c, k, r)
		if r.Sign() == 0 {
			out = ts.addScaled(out, q, m.t)
			pulled = true
		} else {
			rest = ts.addScaled(rest, m.c, m.t)
		}
	}
	if pulled {
		return ts.add(out, ts.div(rest, k))
	}
	return ts.intern(fmt.Sprintf("d%d/%s", a.id, k.String()), func() *Term {
		return &Term{op: OpDiv, args: []*Term{a}, k: k, lo: lo, hi: hi}
	})
}

func (ts *Terms) mod(a *Term, k *big.Int) *Term {
	if a.op == OpConst {
		return ts.cnst(new(big.Int).Mod(a.k, k))
	}
	if q := floorDiv(a.lo, k); q.Cmp(floorDiv(a.hi, k)) == 0 {
		return ts.addScaled(a, new(big.Int).Neg(new(big.Int).Mul(q, k)), ts.cint(1))
	}
	// reduce coefficients mod k (Euclidean)
	ka, ma := linView(a)
	red := ts.cnst(new(big.Int).Mod(ka, k))
	for _, m := range ma {
		red = ts.addScaled(red, new(big.Int).Mod(m.c, k), m.t)
	}
	if red != a {
		return ts.mod(red, k)
	}
	return ts.intern(fmt.Sprintf("r%d/%s", a.id, k.String()), func() *Term {
		return &Term{op: OpMod, args: []*Term{a}, k: k, lo: bigZero, hi: new(big.Int).Sub(k, bigOne)}
	})
}

func (ts *Terms) ite(c, a, b *Term) *Term {
	if c.op == OpTrue || a == b {
		return a
	}
	if c.op == OpFalse {
		return b
	}
	if a.isBool() {
		return ts.or(ts.and(c, a), ts.and(ts.not(c), b))
	}
	return ts.intern(fmt.Sprintf("i%d?%d:%d", c.id, a.id, b.id), func() *Term {
		lo, hi := a.lo, a.hi
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
		return &Term{op: OpIte, args: []*Term{c, a, b}, lo: lo, hi: hi}
	})
}

func (ts *Terms) boolc(b bool) *Term {
	if b {
		return ts.tTrue
	}
	return ts.tFals
}

func gcdOf(ms []mono) *big.Int {
	g := new(big.Int)
	for _, m := range ms {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		if g.Cmp(bigOne) == 0 {
			break
		}
	}
	return g
}

// le0: t <= 0
func (ts *Terms) le0(t *Term) *Term {
	if t.hi.Sign() <= 0 {
		return ts.tTrue
	}
	if t.lo.Sign() > 0 {
		return ts.tFals
	}
	k, ms := linView(t)
	g := gcdOf(ms)
	if g.Cmp(bigOne) > 0 {
		// sum <= -k  =>  sum/g <= floor(-k/g)
		nk := new(big.Int).Neg(floorDiv(new(big.Int).Neg(k), g))
		out := make([]mono, len(ms))
		for i, m := range ms {
			out[i] = mono{new(big.Int).Quo(m.c, g), m.t}
		}
		return ts.le0(ts.mkLin(nk, out))
	}
	return ts.intern(fmt.Sprintf("le%d", t.id), func() *Term { return &Term{op: OpLe0, args: []*Term{t}} })
}

func (ts *Terms) eq0(t *Term) *Term {
	if t.op == OpConst {
		return ts.boolc(t.k.Sign() == 0)
	}
	if t.hi.Sign() < 0 || t.lo.Sign() > 0 {
		return ts.tFals
	}
	k, ms := linView(t)
	g := gcdOf(ms)
	if g.Cmp(bigOne) > 0 {
		if new(big.Int).Mod(k, g).Sign() != 0 {
			return ts.tFals
		}
	}
	if ms[0].c.Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) != 0 {
		out := make([]mono, len(ms))
		for i, m := range ms {
			out[i] = mono{new(big.Int).Quo(m.c, g), m.t}
		}
		t = ts.mkLin(new(big.Int).Quo(k, g), out)
	}
	return ts.intern(fmt.Sprintf("eq%d", t.id), func() *Term { return &Term{op: OpEq0, args: []*Term{t}} })
}

func (ts *Terms) le(a, b *Term) *Term { return ts.le0(ts.sub(a, b)) }
func (ts *Terms) lt(a, b *Term) *Term { return ts.le0(ts.add(ts.sub(a, b), ts.cint(1))) }
func (ts *Terms) eq(a, b *Term) *Term { return ts.eq0(ts.sub(a, b)) }

func (ts *Terms) not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return ts.tFals
	case OpFalse:
		return ts.tTrue
	case OpNot:
		return a.args[0]
	case OpLe0: // !(t<=0) = t>=1 = -t+1 <= 0
		return ts.le0(ts.sub(ts.cint(1), a.args[0]))
	}
	return ts.intern(fmt.Sprintf("not%d", a.id), func() *Term { return &Term{op: OpNot, args: []*Term{a}} })
}

func (ts *Terms) nary(op Op, as []*Term) *Term {
	unit, zero := ts.tTrue, ts.tFals
	tag := "and"
	if op == OpOr {
		unit, zero = zero, unit
		tag = "or"
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit || seen[a] {
			return true
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[ts.not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	sb.WriteString(tag)
	for _, a := range out {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	return ts.intern(sb.String(), func() *Term { return &Term{op: op, args: out} })
}
func (ts *Terms) and(as ...*Term) *Term { return ts.nary(OpAnd, as) }
func (ts *Terms) or(as ...*Term) *Term  { return ts.nary(OpOr, as) }
func (ts *Terms) iff(a, b *Term) *Term {
	return ts.or(ts.and(a, b), ts.and(ts.not(a), ts.not(b)))
}

// ---- evaluation under a model ----

type Model struct {
	ints  map[*Term]*big.Int
	bools map[*Term]bool
	memoI map[*Term]*big.Int
	memoB map[*Term]bool
}

func newModel() *Model {
	return &Model{ints: map[*Term]*big.Int{}, bools: map[*Term]bool{}, memoI: map[*Term]*big.Int{}, memoB: map[*Term]bool{}}
}

func (m *Model) evalI(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		if v, ok := m.ints[t]; ok {
			return v
		}
		v := bigZero
		if t.lo.Sign() > 0 {
			v = t.lo
		} else if t.hi.Sign() < 0 {
			v = t.hi
		}
		m.ints[t] = v
		return v
	}
	if v, ok := m.memoI[t]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OpLin:
		r = new(big.Int).Set(t.k)
		for _, mo := range t.lin {
			r.Add(r, new(big.Int).Mul(mo.c, m.evalI(mo.t)))
		}
	case OpDiv:
		r = floorDiv(m.evalI(t.args[0]), t.k)
	case OpMod:
		r = new(big.Int).Mod(m.evalI(t.args[0]), t.k)
	case OpMul:
		r = big.NewInt(1)
		for _, a := range t.args {
			r.Mul(r, m.evalI(a))
		}
	case OpIte:
		if m.evalB(t.args[0]) {
			r = m.evalI(t.args[1])
		} else {
			r = m.evalI(t.args[2])
		}
	default:
		panic("evalI")
	}
	m.memoI[t] = r
	return r
}

func (m *Model) evalB(t *Term) bool {
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	case OpRange:
		return true
	case OpBVar:
		return m.bools[t]
	}
	if v, ok := m.memoB[t]; ok {
		return v
	}
	var r bool
	switch t.op {
	case OpLe0:
		r = m.evalI(t.args[0]).Sign() <= 0
	case OpEq0:
		r = m.evalI(t.args[0]).Sign() == 0
	case OpNot:
		r = !m.evalB(t.args[0])
	case OpAnd:
		r = true
		for _, a := range t.args {
			if !m.evalB(a) {
				r = false
				break
			}
		}
	case OpOr:
		for _, a := range t.args {
			if m.evalB(a) {
				r = true
				break
			}
		}
	default:
		panic("evalB")
	}
	m.memoB[t] = r
	return r
}

// ---- SMT-LIB printing ----

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// ref returns the SMT text naming t, emitting definitions of t and everything
// below it that have not been emitted in this solver session yet.
func (t *Term) ref(defined map[*Term]bool, out *strings.Builder) string {
	switch t.op {
	case OpConst:
		return smtInt(t.k)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	}
	nm := fmt.Sprintf("t%d", t.id)
	if defined[t] {
		return nm
	}
	defined[t] = true
	refs := func() string {
		var sb strings.Builder
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(a.ref(defined, out))
		}
		return sb.String()
	}
	var body, srt string
	srt = "Int"
	switch t.op {
	case OpVar:
		fmt.Fprintf(out, "(declare-const %s Int) ; %s\n", nm, t.name)
		return nm
	case OpBVar:
		fmt.Fprintf(out, "(declare-const %s Bool) ; %s\n", nm, t.name)
		return nm
	case OpLin:
		var sb strings.Builder
		sb.WriteString("(+ ")
		sb.WriteString(smtInt(t.k))
		for _, m := range t.lin {
			r := m.t.ref(defined, out)
			if m.c.Cmp(bigOne) == 0 {
				sb.WriteString(" " + r)
			} else {
				sb.WriteString(" (* " + smtInt(m.c) + " " + r + ")")
			}
		}
		sb.WriteString(")")
		body = sb.String()
	case OpDiv:
		body = "(div" + refs() + " " + smtInt(t.k) + ")"
	case OpMod:
		body = "(mod" + refs() + " " + smtInt(t.k) + ")"
	case OpMul:
		body = "(*" + refs() + ")"
	case OpIte:
		body = "(ite" + refs() + ")"
	case OpLe0:
		srt = "Bool"
		body = "(<=" + refs() + " 0)"
	case OpEq0:
		srt = "Bool"
		body = "(=" + refs() + " 0)"
	case OpRange:
		srt = "Bool"
		v := t.args[0]
		r := v.ref(defined, out)
		body = "(and (<= " + smtInt(v.lo) + " " + r + ") (<= " + r + " " + smtInt(v.hi) + "))"
	case OpNot:
		srt = "Bool"
		body = "(not" + refs() + ")"
	case OpAnd:
		srt = "Bool"
		body = "(and" + refs() + ")"
	case OpOr:
		srt = "Bool"
		body = "(or" + refs() + ")"
	}
	fmt.Fprintf(out, "(define-fun %s () %s %s)\n", nm, srt, body)
	return nm
}

// String gives a readable form (for samples and messages).
func (t *Term) String() string {
	switch t.op {
	case OpConst:
		return t.k.String()
	case OpVar, OpBVar:
		return t.name
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpLin:
		var sb strings.Builder
		for i, m := range t.lin {
			c := m.c
			if c.Sign() < 0 {
				sb.WriteString("-")
				c = new(big.Int).Neg(c)
			} else if i > 0 {
				sb.WriteString("+")
			}
			if c.Cmp(bigOne) != 0 {
				sb.WriteString(c.String() + "*")
			}
			sb.WriteString(m.t.String())
		}
		if t.k.Sign() > 0 {
			sb.WriteString("+" + t.k.String())
		} else if t.k.Sign() < 0 {
			sb.WriteString(t.k.String())
		}
		return sb.String()
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	switch t.op {
	case OpDiv:
		return "(" + as[0] + ") div " + t.k.String()
	case OpMod:
		return "(" + as[0] + ") mod " + t.k.String()
	case OpMul:
		return strings.Join(as, "*")
	case OpRange:
		return "inrange(" + as[0] + ")"
	case OpIte:
		return "ite(" + strings.Join(as, ",") + ")"
	case OpLe0:
		return as[0] + "<=0"
	case OpEq0:
		return as[0] + "==0"
	case OpNot:
		return "!(" + as[0] + ")"
	case OpAnd:
		return "(" + strings.Join(as, " && ") + ")"
	case OpOr:
		return "(" + strings.Join(as, " || ") + ")"
	}
	return "?"
}
