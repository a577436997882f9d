package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"reflect"
)

func bigOf(v value) *big.Int {
	switch x := v.(type) {
	case int64:
		return big.NewInt(x)
	case uint64:
		return new(big.Int).SetUint64(x)
	}
	return nil
}

// liftI turns an integer value into a term.
func (e *Engine) liftI(v value) *Term {
	switch x := v.(type) {
	case int64:
		return e.ts.cint(x)
	case uint64:
		return e.ts.cnst(new(big.Int).SetUint64(x))
	case *Term:
		return x
	}
	e.unsupported("integer term from %T", v)
	return nil
}

func (e *Engine) liftB(v value) *Term {
	switch x := v.(type) {
	case bool:
		return e.ts.boolc(x)
	case *Term:
		return x
	}
	e.unsupported("boolean term from %T", v)
	return nil
}

// lowerI turns a term into a value (concrete if constant).
func lowerI(t *Term, n *numInfo) value {
	if t.op != OpConst {
		return t
	}
	if n.signed {
		return t.k.Int64()
	}
	return t.k.Uint64()
}

func lowerB(t *Term) value {
	switch t.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	return t
}

// wrap reduces the exact integer t to the range of n with machine semantics,
// forking when t can fall on more than one side of the range.
func (e *Engine) wrap(t *Term, n *numInfo) *Term {
	if t.lo.Cmp(n.lo) >= 0 && t.hi.Cmp(n.hi) <= 0 {
		return t
	}
	ts := e.ts
	m := pow2(n.bits)
	above := t.hi.Cmp(n.hi) > 0
	below := t.lo.Cmp(n.lo) < 0
	if above && e.branch(ts.lt(ts.cnst(n.hi), t)) {
		lim := new(big.Int).Add(n.hi, m)
		if t.hi.Cmp(lim) <= 0 || !e.branch(ts.lt(ts.cnst(lim), t)) {
			return e.clip(ts.sub(t, ts.cnst(m)), n)
		}
		return e.wrapMod(t, n)
	}
	if below && e.branch(ts.lt(t, ts.cnst(n.lo))) {
		lim := new(big.Int).Sub(n.lo, m)
		if t.lo.Cmp(lim) >= 0 || !e.branch(ts.lt(t, ts.cnst(lim))) {
			return e.clip(ts.add(t, ts.cnst(m)), n)
		}
		return e.wrapMod(t, n)
	}
	return e.clip(t, n)
}

func (e *Engine) wrapMod(t *Term, n *numInfo) *Term {
	ts := e.ts
	// ((t - lo) mod m) + lo
	return ts.add(ts.mod(ts.sub(t, ts.cnst(n.lo)), pow2(n.bits)), ts.cnst(n.lo))
}

// clip: t is known (by the path condition) to lie in n's range although its
// syntactic interval may not; later interval reasoning may use the range.
func (e *Engine) clip(t *Term, n *numInfo) *Term {
	return t
}

func intervalInt(t *Term) (int64, int64, bool) {
	if t.lo.IsInt64() && t.hi.IsInt64() {
		return t.lo.Int64(), t.hi.Int64(), true
	}
	return 0, 0, false
}

func wrapC(v int64, n *numInfo) value {
	if n.signed {
		switch n.bits {
		case 8:
			return int64(int8(v))
		case 16:
			return int64(int16(v))
		case 32:
			return int64(int32(v))
		}
		return v
	}
	switch n.bits {
	case 8:
		return uint64(uint8(v))
	case 16:
		return uint64(uint16(v))
	case 32:
		return uint64(uint32(v))
	}
	return uint64(v)
}

func (e *Engine) binop(tok token.Token, tx, ty *rtype, x, y value) value {
	switch tok {
	case token.EQL:
		return e.equalT(tx, x, y)
	case token.NEQ:
		return e.notV(e.equalT(tx, x, y))
	}
	n := tx.num
	if n == nil {
		e.unsupported("binary %s on %s", tok, tx.t)
	}
	switch {
	case n.isInt:
		if tok == token.SHL || tok == token.SHR {
			return e.shift(tok, n, x, y, ty.num)
		}
		switch a := x.(type) {
		case int64:
			if b, ok := y.(int64); ok {
				return e.intOpS(tok, n, a, b)
			}
		case uint64:
			if b, ok := y.(uint64); ok {
				return e.intOpU(tok, n, a, b)
			}
		}
		return e.symInt(tok, n, x, y)
	case n.isFloat:
		if a, ok := x.(float64); ok {
			if b, ok := y.(float64); ok {
				return floatOp(tok, n, a, b)
			}
		}
		return e.symFloat(tok, n, x, y)
	case n.isStr:
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				switch tok {
				case token.ADD:
					return a + b
				case token.LSS:
					return a < b
				case token.LEQ:
					return a <= b
				case token.GTR:
					return a > b
				case token.GEQ:
					return a >= b
				}
			}
		}
		return e.symStrOp(tok, x, y)
	case n.isBool:
		ts := e.ts
		switch tok {
		case token.AND, token.LAND:
			return lowerB(ts.and(e.liftB(x), e.liftB(y)))
		case token.OR, token.LOR:
			return lowerB(ts.or(e.liftB(x), e.liftB(y)))
		}
	case n.isCplx:
		a, ok1 := x.(complex128)
		b, ok2 := y.(complex128)
		if ok1 && ok2 {
			switch tok {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			}
		}
	}
	e.unsupported("binary %s on %s", tok, tx.t)
	return nil
}

func (e *Engine) divZero() {
	panic(goPanic{val: iface{e.p.errStr, "integer divide by zero"}, rtErr: true})
}

func (e *Engine) intOpS(tok token.Token, n *numInfo, a, b int64) value {
	switch tok {
	case token.ADD:
		return wrapC(a+b, n)
	case token.SUB:
		return wrapC(a-b, n)
	case token.MUL:
		return wrapC(a*b, n)
	case token.QUO:
		if b == 0 {
			e.divZero()
		}
		return wrapC(a/b, n)
	case token.REM:
		if b == 0 {
			e.divZero()
		}
		return wrapC(a%b, n)
	case token.AND:
		return wrapC(a&b, n)
	case token.OR:
		return wrapC(a|b, n)
	case token.XOR:
		return wrapC(a^b, n)
	case token.AND_NOT:
		return wrapC(a&^b, n)
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	e.unsupported("int op %s", tok)
	return nil
}

func (e *Engine) intOpU(tok token.Token, n *numInfo, a, b uint64) value {
	switch tok {
	case token.ADD:
		return wrapC(int64(a+b), n)
	case token.SUB:
		return wrapC(int64(a-b), n)
	case token.MUL:
		return wrapC(int64(a*b), n)
	case token.QUO:
		if b == 0 {
			e.divZero()
		}
		return a / b
	case token.REM:
		if b == 0 {
			e.divZero()
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	e.unsupported("uint op %s", tok)
	return nil
}

func (e *Engine) symInt(tok token.Token, n *numInfo, x, y value) value {
	ts := e.ts
	a, b := e.liftI(x), e.liftI(y)
	switch tok {
	case token.ADD:
		return lowerI(e.wrap(ts.add(a, b), n), n)
	case token.SUB:
		return lowerI(e.wrap(ts.sub(a, b), n), n)
	case token.MUL:
		return lowerI(e.wrap(ts.mul(a, b), n), n)
	case token.LSS:
		return lowerB(ts.lt(a, b))
	case token.LEQ:
		return lowerB(ts.le(a, b))
	case token.GTR:
		return lowerB(ts.lt(b, a))
	case token.GEQ:
		return lowerB(ts.le(b, a))
	case token.QUO, token.REM:
		if b.op != OpConst {
			if e.branch(ts.eq0(b)) {
				e.divZero()
			}
			if a.op == OpConst {
				// the quotient is 0 for all larger divisors
				abs := new(big.Int).Abs(a.k)
				if e.branch(ts.lt(ts.cnst(abs), b)) || e.branch(ts.lt(b, ts.cnst(new(big.Int).Neg(abs)))) {
					if tok == token.REM {
						return lowerI(a, n)
					}
					return lowerI(ts.cint(0), n)
				}
			}
			b = ts.cnst(e.concretize(b, "divisor"))
		}
		if b.k.Sign() == 0 {
			e.divZero()
		}
		k := b.k
		neg := false
		if k.Sign() < 0 {
			k = new(big.Int).Neg(k)
			neg = true
		}
		var q *Term
		if a.lo.Sign() >= 0 || !e.branch(ts.lt(a, ts.cint(0))) {
			q = ts.div(a, k)
			if tok == token.REM {
				return lowerI(ts.mod(a, k), n)
			}
		} else {
			q = ts.neg(ts.div(ts.neg(a), k))
			if tok == token.REM {
				return lowerI(ts.neg(ts.mod(ts.neg(a), k)), n)
			}
		}
		if neg {
			q = ts.neg(q)
		}
		return lowerI(e.wrap(q, n), n)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		var c *big.Int
		var t *Term
		switch {
		case b.op == OpConst:
			c, t = b.k, a
		case a.op == OpConst:
			c, t = a.k, b
			if tok == token.AND_NOT {
				// c &^ t = c - (c & t)
				m := e.maskBits(t, twos(c, n), n)
				return lowerI(e.wrap(ts.sub(a, m), n), n)
			}
		case a.lo.Sign() >= 0 && b.lo.Sign() >= 0 && a.hi.BitLen() > 4 && b.hi.BitLen() > 4:
			// m is any number that a & b could be; counterexamples are replayed
			if a.id > b.id && tok != token.AND_NOT {
				a, b = b, a
			}
			hi := a.hi
			if b.hi.Cmp(hi) < 0 {
				hi = b.hi
			}
			bits := a.hi.BitLen()
			if b.hi.BitLen() > bits {
				bits = b.hi.BitLen()
			}
			x, y := a, b
			if x.id > y.id {
				x, y = y, x
			}
			m := ts.ivar(fmt.Sprintf("and!%d!%d", x.id, y.id), big.NewInt(0), hi)
			e.assume(lowerB(ts.le(m, a)))
			e.assume(lowerB(ts.le(m, b)))
			or := ts.sub(ts.add(a, b), m)
			e.assume(lowerB(ts.lt(or, ts.cnst(pow2(bits)))))
			switch tok {
			case token.AND:
				return lowerI(m, n)
			case token.OR:
				return lowerI(e.wrap(or, n), n)
			case token.XOR:
				return lowerI(e.wrap(ts.sub(or, m), n), n)
			default:
				return lowerI(e.wrap(ts.sub(a, m), n), n)
			}
		default:
			c = e.concretize(b, "bit operand")
			t = a
		}
		m := e.maskBits(t, twos(c, n), n) // t & c as an exact integer in n's range
		switch tok {
		case token.AND:
			return lowerI(m, n)
		case token.OR:
			return lowerI(e.wrap(ts.sub(ts.add(t, ts.cnst(c)), m), n), n)
		case token.XOR:
			return lowerI(e.wrap(ts.sub(ts.add(t, ts.cnst(c)), ts.scale(m, big.NewInt(2))), n), n)
		default:
			return lowerI(e.wrap(ts.sub(t, m), n), n)
		}
	}
	e.unsupported("symbolic int op %s", tok)
	return nil
}

// twos returns the unsigned bit pattern of c in n bits.
func twos(c *big.Int, n *numInfo) *big.Int {
	return new(big.Int).Mod(c, pow2(n.bits))
}

// maskBits returns t & pattern (pattern: unsigned bit pattern), as a value of n's type.
func (e *Engine) maskBits(t *Term, pat *big.Int, n *numInfo) *Term {
	ts := e.ts
	r := ts.cint(0)
	for i := 0; i < n.bits; {
		if pat.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n.bits && pat.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		part := ts.div(t, pow2(i)) // floor: arithmetic shift, keeps low bits
		if !(n.signed && j == n.bits) {
			part = ts.mod(part, pow2(j-i))
		}
		r = ts.addScaled(r, pow2(i), part)
		i = j
	}
	return r
}

func (e *Engine) shift(tok token.Token, n *numInfo, x, y value, yn *numInfo) value {
	var s uint64
	switch b := y.(type) {
	case int64:
		if b < 0 {
			panic(goPanic{val: iface{e.p.errStr, "negative shift amount"}, rtErr: true})
		}
		s = uint64(b)
	case uint64:
		s = b
	case *Term:
		k := e.concretize(b, "shift count")
		if k.Sign() < 0 {
			panic(goPanic{val: iface{e.p.errStr, "negative shift amount"}, rtErr: true})
		}
		if !k.IsUint64() {
			s = 1 << 20
		} else {
			s = k.Uint64()
		}
	}
	switch a := x.(type) {
	case int64:
		if tok == token.SHL {
			return wrapC(a<<s, n)
		}
		return wrapC(a>>s, n)
	case uint64:
		if tok == token.SHL {
			return wrapC(int64(a<<s), n)
		}
		return a >> s
	case *Term:
		ts := e.ts
		if tok == token.SHL {
			if s >= uint64(n.bits) {
				return lowerI(ts.cint(0), n)
			}
			return lowerI(e.wrapShl(ts.scale(a, pow2(int(s))), n), n)
		}
		if s >= uint64(n.bits) {
			s = uint64(n.bits)
		}
		return lowerI(ts.div(a, pow2(int(s))), n)
	}
	e.unsupported("shift of %T", x)
	return nil
}

func (e *Engine) wrapShl(t *Term, n *numInfo) *Term {
	if t.lo.Cmp(n.lo) >= 0 && t.hi.Cmp(n.hi) <= 0 {
		return t
	}
	ts := e.ts
	in := ts.and(ts.le(ts.cnst(n.lo), t), ts.le(t, ts.cnst(n.hi)))
	if e.branch(in) {
		return t
	}
	return e.wrapMod(t, n)
}

func floatOp(tok token.Token, n *numInfo, a, b float64) value {
	rd := func(f float64) value {
		if n.bits == 32 {
			return float64(float32(f))
		}
		return f
	}
	switch tok {
	case token.ADD:
		return rd(a + b)
	case token.SUB:
		return rd(a - b)
	case token.MUL:
		return rd(a * b)
	case token.QUO:
		return rd(a / b)
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("float op")
}

var lim53 = pow2(53)

func (e *Engine) asFint(v value) *Term {
	switch x := v.(type) {
	case *fint:
		return x.t
	case float64:
		if x == math.Trunc(x) && math.Abs(x) <= 1<<53 {
			return e.ts.cint(int64(x))
		}
	}
	return nil
}

func (e *Engine) mkFint(t *Term) value {
	if t.op == OpConst {
		f, _ := new(big.Float).SetInt(t.k).Float64()
		return f
	}
	if new(big.Int).Abs(t.lo).Cmp(lim53) > 0 || new(big.Int).Abs(t.hi).Cmp(lim53) > 0 {
		e.unsupported("float arithmetic beyond exact integers")
	}
	return &fint{t}
}

func (e *Engine) symFloat(tok token.Token, n *numInfo, x, y value) value {
	ts := e.ts
	if _, ok := x.(*fint); ok || isFint(y) {
		a, b := e.asFint(x), e.asFint(y)
		if a == nil || b == nil {
			// comparison of an exact integer with an arbitrary concrete float
			return e.fintMixed(tok, x, y)
		}
		switch tok {
		case token.ADD:
			return e.mkFint(ts.add(a, b))
		case token.SUB:
			return e.mkFint(ts.sub(a, b))
		case token.MUL:
			return e.mkFint(ts.mul(a, b))
		case token.LSS:
			return lowerB(ts.lt(a, b))
		case token.LEQ:
			return lowerB(ts.le(a, b))
		case token.GTR:
			return lowerB(ts.lt(b, a))
		case token.GEQ:
			return lowerB(ts.le(b, a))
		}
		e.unsupported("float %s on symbolic values", tok)
	}
	a, b := liftF(x), liftF(y)
	if a == nil || b == nil {
		e.unsupported("float %s on %T, %T", tok, x, y)
	}
	ok := ts.and(ts.not(e.liftB(a.nan)), ts.not(e.liftB(b.nan)))
	ka, kb := e.liftI(a.key), e.liftI(b.key)
	switch tok {
	case token.LSS:
		return lowerB(ts.and(ok, ts.lt(ka, kb)))
	case token.LEQ:
		return lowerB(ts.and(ok, ts.le(ka, kb)))
	case token.GTR:
		return lowerB(ts.and(ok, ts.lt(kb, ka)))
	case token.GEQ:
		return lowerB(ts.and(ok, ts.le(kb, ka)))
	}
	e.unsupported("float %s on arbitrary symbolic floats", tok)
	return nil
}

func isFint(v value) bool { _, ok := v.(*fint); return ok }

func (e *Engine) fintMixed(tok token.Token, x, y value) value {
	e.unsupported("float %s mixing exact symbolic integers with %T/%T", tok, x, y)
	return nil
}

func (e *Engine) symStrOp(tok token.Token, x, y value) value {
	a, b := strBytes(x), strBytes(y)
	ts := e.ts
	if tok == token.ADD {
		return normStr(&symStr{append(append([]value{}, a...), b...)})
	}
	// lexicographic: lt(i) = i==len(a) ? len(b)>i : i==len(b) ? false : a<b || a==b && lt(i+1)
	var lt func(a, b []value, orEq bool) *Term
	lt = func(a, b []value, orEq bool) *Term {
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		var r *Term
		if len(a) < len(b) {
			r = ts.tTrue
		} else if len(a) > len(b) {
			r = ts.tFals
		} else {
			r = ts.boolc(orEq)
		}
		for i := n - 1; i >= 0; i-- {
			p, q := e.liftI(a[i]), e.liftI(b[i])
			r = ts.or(ts.lt(p, q), ts.and(ts.eq(p, q), r))
		}
		return r
	}
	switch tok {
	case token.LSS:
		return lowerB(lt(a, b, false))
	case token.LEQ:
		return lowerB(lt(a, b, true))
	case token.GTR:
		return lowerB(lt(b, a, false))
	case token.GEQ:
		return lowerB(lt(b, a, true))
	}
	e.unsupported("string op %s", tok)
	return nil
}

func (e *Engine) notV(v value) value {
	switch v := v.(type) {
	case bool:
		return !v
	case *Term:
		return lowerB(e.ts.not(v))
	}
	e.unsupported("not %T", v)
	return nil
}

func (e *Engine) equalT(t *rtype, x, y value) value {
	// slices, maps, funcs compare only with nil
	switch t.kind {
	case reflect.Slice:
		a, _ := x.([]value)
		b, _ := y.([]value)
		return (a == nil) == (b == nil) && (a == nil || b == nil)
	case reflect.Map:
		a, _ := x.(*mapv)
		b, _ := y.(*mapv)
		return a == b
	case reflect.Func:
		a, _ := x.(*closure)
		b, _ := y.(*closure)
		return a == nil && b == nil
	}
	return e.equal(x, y)
}

// equal implements == on comparable values.
func (e *Engine) equal(x, y value) value {
	ts := e.ts
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return lowerB(ts.iff(e.liftB(x), e.liftB(y)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		return lowerB(ts.eq(e.liftI(x), e.liftI(y)))
	case uint64:
		if b, ok := y.(uint64); ok {
			return a == b
		}
		return lowerB(ts.eq(e.liftI(x), e.liftI(y)))
	case *Term:
		if a.isBool() {
			return lowerB(ts.iff(a, e.liftB(y)))
		}
		return lowerB(ts.eq(a, e.liftI(y)))
	case float64, *fsym, *fint:
		if p, ok := x.(float64); ok {
			if q, ok := y.(float64); ok {
				return p == q
			}
		}
		if isFint(x) || isFint(y) {
			p, q := e.asFint(x), e.asFint(y)
			if p != nil && q != nil {
				return lowerB(ts.eq(p, q))
			}
			if f, ok := x.(float64); ok && f == f {
				return false // not an exact integer in range
			}
			if f, ok := y.(float64); ok && f == f {
				return false
			}
			if _, ok := x.(float64); ok {
				return false
			}
			if _, ok := y.(float64); ok {
				return false
			}
			e.unsupported("float == on mixed symbolic values")
		}
		p, q := liftF(x), liftF(y)
		if p == nil || q == nil {
			e.unsupported("float == on %T, %T", x, y)
		}
		return lowerB(ts.and(ts.not(e.liftB(p.nan)), ts.not(e.liftB(q.nan)), ts.eq(e.liftI(p.key), e.liftI(q.key))))
	case complex128:
		return a == y.(complex128)
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return e.eqBytes(strBytes(x), strBytes(y))
	case *symStr:
		return e.eqBytes(a.b, strBytes(y))
	case *value:
		b, _ := y.(*value)
		return a == b
	case *chanv:
		b, _ := y.(*chanv)
		return a == b
	case *mapv:
		b, _ := y.(*mapv)
		return a == b
	case *closure:
		b, _ := y.(*closure)
		if a != nil && b != nil {
			e.rtPanic("comparing uncomparable type func")
		}
		return a == nil && b == nil
	case []value:
		b, _ := y.([]value)
		return a == nil && b == nil
	case iface:
		b, ok := y.(iface)
		if !ok {
			e.unsupported("comparison of interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		switch a.v.(type) {
		case []value, *mapv, *closure:
			e.rtPanic("comparing uncomparable type " + a.t.t.String())
		}
		return e.equal(a.v, b.v)
	case structure:
		return e.eqAgg([]value(a), []value(y.(structure)))
	case array:
		return e.eqAgg([]value(a), []value(y.(array)))
	case rtypev:
		b, ok := y.(rtypev)
		return ok && a.t == b.t
	}
	e.unsupported("comparison of %T", x)
	return nil
}

func (e *Engine) eqAgg(a, b []value) value {
	r := e.ts.tTrue
	for i := range a {
		r = e.ts.and(r, e.liftB(e.equal(a[i], b[i])))
		if r.op == OpFalse {
			return false
		}
	}
	return lowerB(r)
}

func (e *Engine) eqBytes(a, b []value) value {
	if len(a) != len(b) {
		return false
	}
	return e.eqAgg(a, b)
}

func (e *Engine) unop(tok token.Token, t *rtype, x value) value {
	n := t.num
	switch tok {
	case token.NOT:
		return e.notV(x)
	case token.SUB:
		switch a := x.(type) {
		case int64:
			return wrapC(-a, n)
		case uint64:
			return wrapC(int64(-a), n)
		case float64:
			return -a
		case complex128:
			return -a
		case *fint:
			return e.mkFint(e.ts.neg(a.t))
		case *fsym:
			ts := e.ts
			k := e.liftI(a.key)
			return &fsym{a.nan, lowerI(ts.neg(k), &numInfo{signed: true}), lowerB(ts.and(ts.eq0(k), ts.not(e.liftB(a.nz))))}
		case *Term:
			return lowerI(e.wrap(e.ts.neg(a), n), n)
		}
	case token.XOR:
		switch a := x.(type) {
		case int64:
			return wrapC(^a, n)
		case uint64:
			return wrapC(int64(^a), n)
		case *Term:
			if n.signed {
				return lowerI(e.ts.sub(e.ts.cint(-1), a), n)
			}
			return lowerI(e.ts.sub(e.ts.cnst(n.hi), a), n)
		}
	case token.ADD:
		return x
	}
	e.unsupported("unary %s on %T", tok, x)
	return nil
}

func (e *Engine) convert(from, to *rtype, x value) value {
	fn, tn := from.num, to.num
	if fn != nil && tn != nil {
		switch {
		case fn.isInt && tn.isInt:
			switch a := x.(type) {
			case int64:
				return wrapC(a, tn)
			case uint64:
				return wrapC(int64(a), tn)
			case *Term:
				if a.lo.Cmp(tn.lo) >= 0 && a.hi.Cmp(tn.hi) <= 0 {
					return a
				}
				return lowerI(e.wrap(a, tn), tn)
			}
		case fn.isInt && tn.isFloat:
			switch a := x.(type) {
			case int64:
				if tn.bits == 32 {
					return float64(float32(a))
				}
				return float64(a)
			case uint64:
				if tn.bits == 32 {
					return float64(float32(a))
				}
				return float64(a)
			case *Term:
				return e.mkFint(a)
			}
		case fn.isFloat && tn.isFloat:
			if f, ok := x.(float64); ok {
				if tn.bits == 32 {
					return float64(float32(f))
				}
				return f
			}
			if tn.bits == 64 {
				return x
			}
		case fn.isFloat && tn.isInt:
			switch a := x.(type) {
			case float64:
				if tn.signed {
					return wrapC(int64(a), tn)
				}
				return wrapC(int64(uint64(a)), tn)
			case *fint:
				return lowerI(e.wrap(a.t, tn), tn)
			}
		case fn.isStr && tn.isStr:
			return x
		case fn.isInt && tn.isStr:
			k := e.concInt(x, "rune")
			return string(rune(k))
		case fn.isCplx && tn.isCplx:
			return x
		case fn.isBool && tn.isBool:
			return x
		}
	}
	// string <-> slices
	if fn != nil && fn.isStr && to.kind == reflect.Slice {
		switch to.elem.num.bits {
		case 8:
			return append([]value{}, strBytes(x)...)
		case 32:
			s, ok := x.(string)
			if !ok {
				e.unsupported("[]rune of symbolic string")
			}
			var out []value
			for _, r := range s {
				out = append(out, int64(r))
			}
			if out == nil {
				out = []value{}
			}
			return out
		}
	}
	if tn != nil && tn.isStr && from.kind == reflect.Slice {
		s, _ := x.([]value)
		if from.elem.num.bits == 8 {
			if e.multi && e.cur != nil {
				for i := range s {
					e.access(e.cur, &s[i], false)
				}
			}
			return normStr(&symStr{append([]value{}, s...)})
		}
		var rs []rune
		for _, c := range s {
			rs = append(rs, rune(e.concInt(c, "rune")))
		}
		return string(rs)
	}
	if _, ok := to.t.Underlying().(*types.Pointer); ok {
		if _, ok := from.t.Underlying().(*types.Pointer); ok {
			return x
		}
	}
	if b, ok := to.t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := from.t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if p, ok := x.(*value); ok {
			return p
		}
	}
	if types.Identical(from.t.Underlying(), to.t.Underlying()) {
		return x
	}
	e.unsupported("conversion %s -> %s", from.t, to.t)
	return nil
}
