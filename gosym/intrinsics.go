package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

const symPkg = "github.com/exascience/pargo/zz_verif/sym"
const modelPkg = "github.com/exascience/pargo/zz_verif/model"

var intrinsics map[string]intrinsic

func cellArg(e *Engine, v value) *value {
	p, ok := v.(*value)
	if !ok {
		e.unsupported("pointer argument of type %T", v)
	}
	if p == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func done(v value) (value, status) { return v, stDone }

func noop(e *Engine, t *thread, args []value, k cont) (value, status) { return nil, stDone }

func strArg(e *Engine, v value) string {
	s, ok := v.(string)
	if !ok {
		e.unsupported("string argument must be concrete")
	}
	return s
}

func (e *Engine) unique(name string) string {
	n := e.names[name]
	e.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (e *Engine) newInt(name string, lo, hi *big.Int, signed bool) value {
	name = e.unique(name)
	var v value
	if lo.Cmp(hi) > 0 {
		e.abort(abInfeasible, "empty range of %s", name)
	}
	if f, ok := e.forcedInputs[name]; ok {
		k, _ := new(big.Int).SetString(f, 10)
		if signed {
			v = k.Int64()
		} else {
			v = k.Uint64()
		}
	} else if lo.Cmp(hi) == 0 {
		if signed {
			v = lo.Int64()
		} else {
			v = lo.Uint64()
		}
	} else {
		v = e.ts.ivar(name, lo, hi)
	}
	e.inputs = append(e.inputs, inputRec{name: name, kind: "int", v: v, sgn: signed})
	return v
}

func (e *Engine) newBool(name string) value {
	name = e.unique(name)
	var v value = e.ts.bvar(name)
	if f, ok := e.forcedInputs[name]; ok {
		v = f == "true"
	}
	e.inputs = append(e.inputs, inputRec{name: name, kind: "bool", v: v})
	return v
}

func bigI(v value) *big.Int {
	if x, ok := v.(int64); ok {
		return big.NewInt(x)
	}
	return nil
}

func (e *Engine) atomicOp(t *thread, cell *value, write bool, k cont, f func() value) (value, status) {
	e.pend(t, &visOp{kind: opAtomic, cell: cell, write: write, k: k, apply: func() value {
		if e.multi {
			e.access1(t, cell, write, true)
		}
		return f()
	}})
	return nil, stPending
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- sync ----
	lock := func(rw bool) intrinsic {
		return func(e *Engine, t *thread, a []value, k cont) (value, status) {
			// write marks an RWMutex: Lock announces itself and then waits for readers
			e.pend(t, &visOp{kind: opLock, cell: cellArg(e, a[0]), write: rw, k: k})
			return nil, stPending
		}
	}
	unlock := func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.unlock(t, cellArg(e, a[0]))
		return nil, stDone
	}
	reg("(*sync.Mutex).Lock", lock(false))
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock(true))
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.pend(t, &visOp{kind: opRLock, cell: cellArg(e, a[0]), k: k})
		return nil, stPending
	})
	reg("(*sync.RWMutex).RUnlock", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.runlock(t, cellArg(e, a[0]))
		return nil, stDone
	})
	for _, n := range []string{"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock"} {
		n := n
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			e.unsupported("%s", n)
			return nil, stDone
		})
	}
	wgadd := func(e *Engine, t *thread, cell *value, d int64, k cont) (value, status) {
		if d < 0 {
			e.wgAdd(t, cell, d)
			return nil, stDone
		}
		if e.wg(cell).n > 0 && false {
			return nil, stDone
		}
		e.pend(t, &visOp{kind: opWGAdd, cell: cell, delta: d, k: k})
		return nil, stPending
	}
	reg("(*sync.WaitGroup).Add", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return wgadd(e, t, cellArg(e, a[0]), e.concInt(a[1], "WaitGroup delta"), k)
	})
	reg("(*sync.WaitGroup).Done", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return wgadd(e, t, cellArg(e, a[0]), -1, k)
	})
	reg("(*sync.WaitGroup).Wait", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.pend(t, &visOp{kind: opWGWait, cell: cellArg(e, a[0]), k: k})
		return nil, stPending
	})
	condOp := func(kind opKind) intrinsic {
		return func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := cellArg(e, a[0])
			if e.multi {
				// reading c.L
				s := (*c).(structure)
				for i := range s {
					if _, ok := s[i].(iface); ok {
						e.access(t, &s[i], false)
					}
				}
			}
			e.pend(t, &visOp{kind: kind, cell: c, k: k})
			return nil, stPending
		}
	}
	reg("(*sync.Cond).Wait", condOp(opCondWait))
	reg("(*sync.Cond).Signal", condOp(opSignal))
	reg("(*sync.Cond).Broadcast", condOp(opBroadcast))
	reg("(*sync.Pool).Put", noop)
	reg("(*sync.Pool).Get", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		s := (*cellArg(e, a[0])).(structure)
		for _, f := range s {
			if cl, ok := f.(*closure); ok && cl != nil {
				e.invoke(t, cl, nil, k)
				return nil, stPushed
			}
		}
		return iface{}, stDone
	})

	// ---- sync/atomic ----
	at := "sync/atomic."
	type ab struct {
		n    string
		bits int
		sgn  bool
	}
	for _, w := range []ab{{"Int32", 32, true}, {"Int64", 64, true}, {"Uint32", 32, false}, {"Uint64", 64, false}, {"Uintptr", 64, false}} {
		r := rt(map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr]}[w.n])
		reg(at+"Load"+w.n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := cellArg(e, a[0])
			return e.atomicOp(t, c, false, k, func() value { return *c })
		})
		reg(at+"Store"+w.n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := cellArg(e, a[0])
			v, st := e.atomicOp(t, c, true, k, func() value { *c = a[1]; return nil })
			t.pending.store = true
			if i, ok := a[1].(int64); ok {
				t.pending.sval = i
			}
			return v, st
		})
		reg(at+"Swap"+w.n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := cellArg(e, a[0])
			return e.atomicOp(t, c, true, k, func() value { o := *c; *c = a[1]; return o })
		})
		add := func(tok int) intrinsic {
			return func(e *Engine, t *thread, a []value, k cont) (value, status) {
				c := cellArg(e, a[0])
				return e.atomicOp(t, c, true, k, func() value {
					switch tok {
					case 0:
						*c = e.binop(tokADD, r, r, *c, a[1])
						return *c
					case 1:
						o := *c
						*c = e.binop(tokAND, r, r, *c, a[1])
						return o
					default:
						o := *c
						*c = e.binop(tokOR, r, r, *c, a[1])
						return o
					}
				})
			}
		}
		reg(at+"Add"+w.n, add(0))
		reg(at+"And"+w.n, add(1))
		reg(at+"Or"+w.n, add(2))
		reg(at+"CompareAndSwap"+w.n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := cellArg(e, a[0])
			return e.atomicOp(t, c, true, k, func() value {
				if e.truth(e.equal(*c, a[1])) {
					*c = a[2]
					return true
				}
				return false
			})
		})
	}
	reg(at+"LoadPointer", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c := cellArg(e, a[0])
		return e.atomicOp(t, c, false, k, func() value { return *c })
	})
	reg(at+"StorePointer", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c := cellArg(e, a[0])
		return e.atomicOp(t, c, true, k, func() value { *c = a[1]; return nil })
	})
	reg(at+"SwapPointer", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c := cellArg(e, a[0])
		return e.atomicOp(t, c, true, k, func() value { o := *c; *c = a[1]; return o })
	})
	reg(at+"CompareAndSwapPointer", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c := cellArg(e, a[0])
		return e.atomicOp(t, c, true, k, func() value {
			if x, ok := (*c).(*value); ok {
				if y, ok := a[1].(*value); ok && x == y {
					*c = a[2]
					return true
				}
			}
			return false
		})
	})
	avCell := func(e *Engine, v value) *value {
		s := (*cellArg(e, v)).(structure)
		return &s[0]
	}
	reg("(*sync/atomic.Value).Load", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c := avCell(e, a[0])
		return e.atomicOp(t, c, false, k, func() value { return *c })
	})
	avStore := func(kind int) intrinsic {
		return func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := avCell(e, a[0])
			n := a[1]
			if kind == 2 {
				n = a[2]
			}
			if n.(iface).t == nil {
				panic(goPanic{val: iface{e.p.strT, "sync/atomic: store of nil value into Value"}})
			}
			return e.atomicOp(t, c, true, k, func() value {
				o := (*c).(iface)
				if o.t != nil && o.t != n.(iface).t {
					panic(goPanic{val: iface{e.p.strT, "sync/atomic: store of inconsistently typed value into Value"}})
				}
				if kind == 2 {
					if !e.truth(e.equal(o, a[1])) {
						return false
					}
					*c = n
					return true
				}
				*c = n
				if kind == 1 {
					return o
				}
				return nil
			})
		}
	}
	reg("(*sync/atomic.Value).Store", avStore(0))
	reg("(*sync/atomic.Value).Swap", avStore(1))
	reg("(*sync/atomic.Value).CompareAndSwap", avStore(2))

	// ---- runtime ----
	reg("runtime.GOMAXPROCS", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		o := e.procs
		if n, ok := a[0].(int64); ok && n > 0 {
			e.procs = n
		}
		return done(o)
	})
	reg("runtime.NumCPU", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(e.procs) })
	reg("runtime.NumGoroutine", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		n := 0
		for _, x := range e.threads {
			if !x.done {
				n++
			}
		}
		return done(int64(n))
	})
	reg("runtime.Gosched", noop)
	reg("runtime.GC", noop)
	reg("runtime.KeepAlive", noop)
	reg("runtime.SetFinalizer", noop)
	reg("time.Sleep", noop)
	reg("runtime/debug.Stack", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(strBytes("stack of the goroutine"))
	})
	reg("runtime/debug.PrintStack", noop)
	reg("internal/race.Enable", noop)
	reg("internal/race.Disable", noop)
	reg("internal/race.Acquire", noop)
	reg("internal/race.Release", noop)
	reg("internal/godebug.New", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done((*value)(nil))
	})
	reg("(*internal/godebug.Setting).Value", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done("") })
	reg("(*internal/godebug.Setting).IncNonDefault", noop)

	// ---- math ----
	reg("math.Float64bits", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		f, ok := a[0].(float64)
		if !ok {
			e.unsupported("Float64bits of a symbolic float")
		}
		return done(math.Float64bits(f))
	})
	reg("math.Float64frombits", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		f, ok := a[0].(uint64)
		if !ok {
			e.unsupported("Float64frombits of a symbolic value")
		}
		return done(math.Float64frombits(f))
	})
	reg("math.Float32bits", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	reg("math.Signbit", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		switch f := a[0].(type) {
		case float64:
			return done(math.Signbit(f))
		case *fsym:
			x := e.liftI(f.key)
			zero := e.liftI(int64(0))
			return done(lowerB(e.ts.or(e.ts.lt(x, zero), e.ts.and(e.ts.eq(x, zero), e.liftB(f.nz)))))
		}
		e.unsupported("math.Signbit of a symbolic value")
		return nil, stDone
	})
	reg("math.Abs", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		f, ok := a[0].(float64)
		if !ok {
			e.unsupported("math.Abs of a symbolic float")
		}
		return done(math.Abs(f))
	})
	reg("math.Signbit", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		switch f := a[0].(type) {
		case float64:
			return done(math.Signbit(f))
		case *fsym:
			ts := e.ts
			kk := e.liftI(f.key)
			return done(lowerB(ts.or(ts.lt(kk, ts.cint(0)), ts.and(ts.eq0(kk), e.liftB(f.nz)))))
		}
		e.unsupported("math.Signbit")
		return nil, stDone
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Exp": math.Exp} {
		f := f
		reg("math."+n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			x, ok := a[0].(float64)
			if !ok {
				e.unsupported("math function of a symbolic float")
			}
			return done(f(x))
		})
	}

	// ---- bytealg and strings ----
	idx := func(e *Engine, s []value, c value) value {
		for i := range s {
			if e.truth(e.equal(s[i], c)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	bs := func(v value) []value {
		switch x := v.(type) {
		case []value:
			return x
		}
		return strBytes(v)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(idx(e, bs(a[0]), a[1])) })
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			s := bs(a[0])
			for i := len(s) - 1; i >= 0; i-- {
				if e.truth(e.equal(s[i], a[1])) {
					return done(int64(i))
				}
			}
			return done(int64(-1))
		})
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			c := int64(0)
			for _, b := range bs(a[0]) {
				if e.truth(e.equal(b, a[1])) {
					c++
				}
			}
			return done(c)
		})
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			x, y := bs(a[0]), bs(a[1])
			if e.multi {
				for i := range x {
					e.access(t, &x[i], false)
				}
				for i := range y {
					e.access(t, &y[i], false)
				}
			}
			return done(e.eqBytes(x, y))
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "internal/runtime/strings.Compare"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			x, y := &symStr{bs(a[0])}, &symStr{bs(a[1])}
			if e.truth(e.symStrOp(tokLSS, x, y)) {
				return done(int64(-1))
			}
			if e.truth(e.eqBytes(x.b, y.b)) {
				return done(int64(0))
			}
			return done(int64(1))
		})
	}
	index := func(e *Engine, t *thread, a []value, k cont) (value, status) {
		x, y := bs(a[0]), bs(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if e.truth(e.eqBytes(x[i:i+len(y)], y)) {
				return done(int64(i))
			}
		}
		return done(int64(-1))
	}
	reg("internal/bytealg.Index", index)
	reg("internal/bytealg.IndexString", index)
	reg("strings.Index", index)
	reg("bytes.Index", index)
	reg("strings.Contains", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return done(strings.Contains(x, y))
			}
		}
		x, y := bs(a[0]), bs(a[1])
		r := e.ts.not(e.ts.tTrue)
		for i := 0; i+len(y) <= len(x) && r.op != OpTrue; i++ {
			r = e.ts.or(r, e.liftB(e.eqBytes(x[i:i+len(y)], y)))
		}
		return done(lowerB(r))
	})
	reg("internal/bytealg.MakeNoZero", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		n := e.concInt(a[0], "length")
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return done(s)
	})
	reg("internal/stringslite.Clone", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(a[0]) })
	reg("strings.Clone", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(a[0]) })
	reg("(*strings.Builder).copyCheck", noop)
	reg("(*strings.Builder).String", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		s := (*cellArg(e, a[0])).(structure)
		for _, f := range s {
			if b, ok := f.([]value); ok {
				return done(normStr(&symStr{append([]value{}, b...)}))
			}
		}
		return done("")
	})
	reg("strings.Repeat", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(strings.Repeat(strArg(e, a[0]), int(e.concInt(a[1], "count"))))
	})

	// ---- fmt ----
	iargs := func(e *Engine, v value) []value {
		s, _ := v.([]value)
		return s
	}
	reg("fmt.Sprintf", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.sprintf(a[0], iargs(e, a[1])))
	})
	reg("fmt.Sprint", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.sprint(iargs(e, a[0]), false))
	})
	reg("fmt.Sprintln", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.sprint(iargs(e, a[0]), true))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(tuple{int64(0), iface{}}) })
	}

	// ---- sym ----
	full := rt(types.Typ[types.Int]).num
	ufull := rt(types.Typ[types.Uint64]).num
	reg(symPkg+".Int", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.newInt(strArg(e, a[0]), full.lo, full.hi, true))
	})
	reg(symPkg+".IntIn", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.newInt(strArg(e, a[0]), bigI(a[1]), bigI(a[2]), true))
	})
	reg(symPkg+".Uint64", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.newInt(strArg(e, a[0]), ufull.lo, ufull.hi, false))
	})
	reg(symPkg+".ByteIn", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.newInt(strArg(e, a[0]), bigOf(a[1]), bigOf(a[2]), false))
	})
	reg(symPkg+".Bool", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.newBool(strArg(e, a[0])))
	})
	reg(symPkg+".Float", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		name := e.unique(strArg(e, a[0]))
		inf := new(big.Int).SetUint64(math.Float64bits(math.Inf(1)))
		nan := e.ts.bvar(name + ".nan")
		nz := e.ts.bvar(name + ".nz")
		key := e.ts.ivar(name+".key", new(big.Int).Neg(inf), inf)
		var v value = &fsym{nan, key, nz}
		if f, ok := e.forcedInputs[name]; ok {
			v = parseFloat(f)
		}
		e.inputs = append(e.inputs, inputRec{name: name, kind: "float", v: v})
		return done(v)
	})
	reg(symPkg+".FloatInt", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		name := e.unique(strArg(e, a[0]))
		var v value
		if f, ok := e.forcedInputs[name]; ok {
			v = parseFloat(f)
		} else {
			v = e.mkFint(e.ts.ivar(name, bigI(a[1]), bigI(a[2])))
		}
		e.inputs = append(e.inputs, inputRec{name: name, kind: "fint", v: v})
		return done(v)
	})
	reg(symPkg+".Choose", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		name := e.unique(strArg(e, a[0]))
		n := int(a[1].(int64))
		var i int
		if f, ok := e.forcedInputs[name]; ok {
			b, _ := new(big.Int).SetString(f, 10)
			i = int(b.Int64())
		} else {
			i = e.choose(n)
		}
		e.inputs = append(e.inputs, inputRec{name: name, kind: "int", v: int64(i), sgn: true})
		return done(int64(i))
	})
	reg(symPkg+".Assume", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.assume(a[0])
		return nil, stDone
	})
	reg(symPkg+".Assert", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		ok := false
		switch v := a[0].(type) {
		case bool:
			ok = v
		case *Term:
			ok = e.branch(v)
		}
		if !ok {
			e.violation("assert", "%s", e.strText(a[1]))
		}
		return nil, stDone
	})
	reg(symPkg+".Fail", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.violation("assert", "%s", e.strText(a[0]))
		return nil, stDone
	})
	reg(symPkg+".Concrete", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.concInt(a[0], "Concrete"))
	})
	reg(symPkg+".And", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		r := e.ts.tTrue
		for _, x := range iargs(e, a[0]) {
			r = e.ts.and(r, e.liftB(x))
		}
		return done(lowerB(r))
	})
	reg(symPkg+".Or", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		r := e.ts.tFals
		for _, x := range iargs(e, a[0]) {
			r = e.ts.or(r, e.liftB(x))
		}
		return done(lowerB(r))
	})
	reg(symPkg+".Ite", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		switch c := a[0].(type) {
		case bool:
			if c {
				return done(a[1])
			}
			return done(a[2])
		case *Term:
			return done(lowerI(e.ts.ite(c, e.liftI(a[1]), e.liftI(a[2])), full))
		}
		return nil, stDone
	})
	// Fits64(a-b) style helper: whether high-low is representable
	reg(symPkg+".DiffFits", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		ts := e.ts
		d := ts.sub(e.liftI(a[0]), e.liftI(a[1]))
		return done(lowerB(ts.and(ts.le(ts.cnst(full.lo), d), ts.le(d, ts.cnst(full.hi)))))
	})
	reg(symPkg+".SetProcs", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.procs = e.concInt(a[0], "GOMAXPROCS")
		return nil, stDone
	})
	reg(symPkg+".Reach", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.reached[strArg(e, a[0])] = true
		return nil, stDone
	})
	reg(symPkg+".Observe", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.obs = append(e.obs, obsRec{strArg(e, a[0]), a[1]})
		return nil, stDone
	})
	reg(symPkg+".Drain", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.pend(t, &visOp{kind: opDrain, k: k})
		return nil, stPending
	})
	reg(symPkg+".Blocked", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		n := 0
		for _, x := range e.threads {
			if x != t && !x.done {
				n++
			}
		}
		return done(int64(n))
	})
	reg(symPkg+".BlockedAt", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.blockedString())
	})
	reg(symPkg+".P", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		n := strArg(e, a[0])
		v, ok := e.params[n]
		if !ok {
			e.unsupported("parameter %s not set", n)
		}
		return done(v)
	})
	reg(symPkg+".MapOrder", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		e.mapRev = e.choose(2) == 1
		e.mapOrd = true
		return nil, stDone
	})
	reg(symPkg+".Pause", noop)
	reg(symPkg+".Symbolic", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(true) })
	reg(symPkg+".Locked", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		m := e.mu(cellArg(e, a[0].(iface).v))
		switch {
		case m.writer != nil:
			return done(int64(2))
		case m.readers > 0:
			return done(int64(1))
		}
		return done(int64(0))
	})
	reg(symPkg+".Goid", func(e *Engine, t *thread, a []value, k cont) (value, status) { return done(int64(t.id)) })

	reg(symPkg+".Note", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		key := strArg(e, a[0])
		e.notes[key] = append(e.notes[key], append([]value{}, iargs(e, a[1])...))
		return nil, stDone
	})
	reg(symPkg+".Notes", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(int64(len(e.notes[strArg(e, a[0])])))
	})
	reg(symPkg+".NoteAt", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		return done(e.notes[strArg(e, a[0])][a[1].(int64)][a[2].(int64)])
	})
	// ---- model helpers ----
	reg(modelPkg+".closeOnce", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c, _ := a[0].(*chanv)
		e.pend(t, &visOp{kind: opClose, once: true, cases: []selCase{{ch: c}}, k: k})
		return nil, stPending
	})
	// the test "is the channel closed" of a context
	reg(modelPkg+".isClosed", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		c, _ := a[0].(*chanv)
		e.pend(t, &visOp{kind: opSelect, dflt: true, cases: []selCase{{ch: c}}, finish: func(cas int, v value, ok bool) {
			e.deliver(t, k, cas == 0)
		}})
		return nil, stPending
	})
	regReflect(reg)
}

type obsRec struct {
	label string
	v     value
}

func (e *Engine) strText(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *symStr:
		var sb strings.Builder
		for _, b := range s.b {
			if u, ok := b.(uint64); ok {
				sb.WriteByte(byte(u))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return "?"
}
