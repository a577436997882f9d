package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type contKind uint8

const (
	kInstr contKind = iota
	kDefer
	kEnd
	kDiscard
)

type cont struct {
	kind contKind
	fr   *frame
	dst  int
}

type deferRec struct {
	fnv     value // *closure
	fn      *cfn
	builtin string
	bt      *rtype
	args    []value
	next    *deferRec
}

type panicRec struct {
	val       value
	recovered bool
	pos       string
	rtErr     bool
}

type frame struct {
	fn       *cfn
	env      []value
	block    int
	pc       int
	caller   *frame
	k        cont
	defers   *deferRec
	mode     uint8 // 0 normal, 1 running defers, 2 panicking
	pan      *panicRec
	deferrer *frame // the frame whose deferred call this is
}

type thread struct {
	id       int
	sid      int
	name     string
	nchild   int
	top      *frame
	pending  *visOp
	done     bool
	nested   bool
	vc       VC
	hb       bitset
	uncaught *panicRec
	result   value
	started  bool
}

type abortKind uint8

const (
	abUnsupported abortKind = iota
	abBound
	abInfeasible
	abUnknown
	abViolation
	abRedundant
	abInternal
)

type abortPath struct {
	kind abortKind
	msg  string
}

func (e *Engine) abort(k abortKind, format string, args ...any) {
	panic(&abortPath{k, fmt.Sprintf(format, args...)})
}
func (e *Engine) unsupported(format string, args ...any) {
	e.abort(abUnsupported, format, args...)
}

// goPanic is thrown by the operations below to start a Go panic in the current thread.
type goPanic struct {
	val   value
	rtErr bool
}

func (e *Engine) rtPanic(msg string) {
	panic(goPanic{val: iface{e.p.errStr, msg}, rtErr: true})
}

func (fr *frame) get(e *Engine, o *opnd) value {
	switch o.kind {
	case 0:
		return fr.env[o.i]
	case 1:
		return o.c
	}
	return e.globalAddr(o.i)
}

func (fr *frame) where() string {
	if fr == nil {
		return "?"
	}
	b := fr.fn.blocks[fr.block]
	for i := fr.pc; i >= 0; i-- {
		if i < len(b.code) {
			if p := b.code[i].ins.Pos(); p.IsValid() {
				pp := fr.fn.f.Prog.Fset.Position(p)
				return fmt.Sprintf("%s:%d", shortPath(pp.Filename), pp.Line)
			}
		}
	}
	return fr.fn.name
}

func shortPath(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

func (t *thread) where() string {
	fr := t.top
	for fr != nil {
		w := fr.where()
		return w
	}
	return "?"
}

// stackString lists the positions of the frames of t.
func (t *thread) stackString() string {
	s := ""
	for fr := t.top; fr != nil; fr = fr.caller {
		if s != "" {
			s += " < "
		}
		s += fr.where()
	}
	return s
}

// run executes t until it blocks at a visible operation or ends.
func (e *Engine) run(t *thread) {
	prev := e.cur
	e.cur = t
	for t.pending == nil && !t.done {
		e.runSome(t)
	}
	e.cur = prev
}

func (e *Engine) runSome(t *thread) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				e.startPanic(t, gp.val, gp.rtErr)
				return
			}
			if ab, ok := r.(*abortPath); ok {
				panic(ab)
			}
			if re, ok := r.(interface{ RuntimeError() }); ok {
				_ = re
				panic(&abortPath{abInternal, fmt.Sprintf("engine error at %s: %v%s", t.stackString(), r, engineStack())})
			}
			panic(r)
		}
	}()
	for t.pending == nil && !t.done {
		e.step(t)
	}
}

func (e *Engine) startPanic(t *thread, v value, rtErr bool) {
	fr := t.top
	p := &panicRec{val: v, rtErr: rtErr, pos: t.stackString()}
	fr.pan = p
	fr.mode = 2
	e.continueDefers(t, fr)
}

// continueDefers runs the next deferred call of fr or finishes.
func (e *Engine) continueDefers(t *thread, fr *frame) {
	for {
		if fr.mode == 2 && fr.pan.recovered {
			// recovered: run remaining defers as in a normal exit, then return
			if fr.defers == nil {
				fr.mode = 0
				fr.pan = nil
				if fr.fn.recover >= 0 {
					fr.block, fr.pc = fr.fn.recover, 0
					return
				}
				var res value
				switch len(fr.fn.results) {
				case 0:
				case 1:
					res = fr.fn.results[0].mkZero()
				default:
					tp := make(tuple, len(fr.fn.results))
					for i, r := range fr.fn.results {
						tp[i] = r.mkZero()
					}
					res = tp
				}
				e.ret(t, fr, res)
				return
			}
		} else if fr.defers == nil {
			if fr.mode == 1 {
				fr.mode = 0
				return // pc already advanced past RunDefers
			}
			// unwinding
			p := fr.pan
			caller := fr.caller
			if caller == nil {
				t.uncaught = p
				t.done = true
				t.top = fr
				return
			}
			t.top = caller
			if fr.deferrer != nil {
				// panic out of a deferred call: replaces the panic of the deferrer
				d := fr.deferrer
				d.pan = p
				d.mode = 2
				fr = d
				continue
			}
			caller.pan = p
			caller.mode = 2
			fr = caller
			continue
		}
		d := fr.defers
		fr.defers = d.next
		k := cont{kind: kDefer, fr: fr}
		if d.builtin != "" {
			e.callBuiltinDeferred(t, fr, d, k)
			if t.pending != nil {
				return
			}
			continue
		}
		var cl *closure
		if d.fnv != nil {
			cl, _ = d.fnv.(*closure)
		}
		if cl == nil {
			panic(goPanic{val: iface{e.p.errStr, "invalid memory address or nil pointer dereference"}, rtErr: true})
		}
		e.invoke(t, cl, d.args, k)
		return
	}
}

func (e *Engine) callBuiltinDeferred(t *thread, fr *frame, d *deferRec, k cont) {
	c := &ci{builtin: d.builtin, t: d.bt}
	switch d.builtin {
	case "close":
		e.doClose(t, d.args[0], k)
	case "recover":
		// recover called directly by defer is a no-op in practice
	default:
		e.builtin(t, fr, c, d.args)
	}
}

// deliver hands the result of a finished call to its continuation.
func (e *Engine) deliver(t *thread, k cont, v value) {
	switch k.kind {
	case kInstr:
		if k.dst >= 0 {
			k.fr.env[k.dst] = v
		}
	case kDefer:
		e.continueDefers(t, k.fr)
	case kEnd:
		t.result = v
		t.done = true
	}
}

func (e *Engine) ret(t *thread, fr *frame, v value) {
	t.top = fr.caller
	if fr.caller == nil && fr.k.kind == kInstr {
		panic("ret without caller")
	}
	e.deliver(t, fr.k, v)
}

func (e *Engine) invoke(t *thread, cl *closure, args []value, k cont) {
	fn := cl.fn
	if fn.intr != nil {
		v, st := fn.intr(e, t, args, k)
		if st == stDone {
			e.deliver(t, k, v)
		}
		return
	}
	if fn.isInit && fn.f.Pkg != nil && e.skipInit(fn.f.Pkg) {
		e.deliver(t, k, nil)
		return
	}
	if len(fn.f.Blocks) == 0 {
		e.unsupported("no body for %s", fn.name)
	}
	if !fn.compiled {
		e.p.ensure(fn)
	}
	if !fn.covered && e.inRepo(fn.f) {
		fn.covered = true
	}
	if e.inRepo(fn.f) {
		e.encoded[fn] = true
	}
	fr := &frame{fn: fn, env: make([]value, fn.nslots), caller: t.top, k: k}
	if k.kind == kDefer {
		fr.deferrer = k.fr
	}
	copy(fr.env, args)
	copy(fr.env[fn.params:], cl.env)
	t.top = fr
	e.depth(fr)
}

func (e *Engine) depth(fr *frame) {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
		if n > 20000 {
			e.abort(abBound, "call depth")
		}
		if n&0xff != 0 {
			continue
		}
	}
}

func (e *Engine) jump(fr *frame, succ int) {
	b := &fr.fn.blocks[fr.block]
	to := b.succs[succ]
	from := fr.block
	fr.block, fr.pc = to, 0
	nb := &fr.fn.blocks[to]
	if len(nb.phis) > 0 {
		// with duplicate preds (both If edges to one block) any matching index is fine only
		// if the edge values agree; pick by position of the edge.
		pi := -1
		cnt := 0
		for i, p := range nb.preds {
			if p == from {
				if pi < 0 {
					pi = i
				}
				cnt++
			}
		}
		if cnt > 1 && succ == 1 {
			for i := len(nb.preds) - 1; i >= 0; i-- {
				if nb.preds[i] == from {
					pi = i
					break
				}
			}
		}
		if len(nb.phis) == 1 {
			fr.env[nb.phis[0].dst] = fr.get(e, &nb.phis[0].edges[pi])
		} else {
			var buf [8]value
			tmp := buf[:0]
			for i := range nb.phis {
				tmp = append(tmp, fr.get(e, &nb.phis[i].edges[pi]))
			}
			for i := range nb.phis {
				fr.env[nb.phis[i].dst] = tmp[i]
			}
		}
	}
	if to <= from {
		e.loopTick()
	}
}

func (e *Engine) callArgs(fr *frame, c *ci) []value {
	args := make([]value, len(c.args))
	for i := range c.args {
		args[i] = fr.get(e, &c.args[i])
	}
	return args
}

// resolve returns the closure and full arguments of a call instruction.
func (e *Engine) resolve(fr *frame, c *ci) (*closure, []value) {
	if c.method != nil {
		recv := fr.get(e, &c.x)
		itf, ok := recv.(iface)
		if !ok {
			e.unsupported("invoke on %T", recv)
		}
		if itf.t == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]value, len(c.args)+1)
		args[0] = itf.v
		for i := range c.args {
			args[i+1] = fr.get(e, &c.args[i])
		}
		if rv, ok := itf.v.(rtypev); ok {
			return &closure{fn: e.rtypeMethod(rv, c.method.Name())}, args
		}
		return &closure{fn: e.findMethod(itf.t, c.method)}, args
	}
	args := e.callArgs(fr, c)
	if c.fn != nil {
		return &closure{fn: c.fn}, args
	}
	v := fr.get(e, &c.x)
	cl, ok := v.(*closure)
	if !ok {
		e.unsupported("call of %T", v)
	}
	if cl == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	return cl, args
}

type methKey struct {
	t *rtype
	m string
}

func (e *Engine) findMethod(t *rtype, m *types.Func) *cfn {
	k := methKey{t, m.Id()}
	if f, ok := e.p.methods.Load(k); ok {
		return f.(*cfn)
	}
	e.p.mu.Lock()
	f := e.p.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	e.p.mu.Unlock()
	if f == nil {
		e.unsupported("method %s of %s", m.Name(), t.t)
	}
	c := e.p.fn(f)
	e.p.methods.Store(k, c)
	return c
}

func (e *Engine) findMethodByName(t *rtype, name string) *cfn {
	e.p.mu.Lock()
	ms := e.p.prog.MethodSets.MethodSet(t.t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = e.p.prog.MethodValue(ms.At(i))
		}
	}
	e.p.mu.Unlock()
	if f == nil {
		return nil
	}
	return e.p.fn(f)
}

func (e *Engine) step(t *thread) {
	fr := t.top
	b := &fr.fn.blocks[fr.block]
	c := &b.code[fr.pc]
	e.steps++
	if e.steps > e.maxSteps {
		e.abort(abBound, "step budget of %d instructions per path", e.maxSteps)
	}
	if e.steps&0xfff == 0 {
		if memFull.Load() {
			e.noMem = true
			e.abort(abBound, "memory limit")
		}
		e.timeCheck()
	}
	switch c.op {
	case cAlloc:
		p := new(value)
		*p = c.t.mkZero()
		fr.env[c.dst] = p
	case cBin:
		fr.env[c.dst] = e.binop(c.tok, c.t, c.t2, fr.get(e, &c.x), fr.get(e, &c.y))
	case cUn:
		fr.env[c.dst] = e.unop(c.tok, c.t, fr.get(e, &c.x))
	case cLoad:
		p, ok := fr.get(e, &c.x).(*value)
		if !ok {
			e.unsupported("load through %T", fr.get(e, &c.x))
		}
		if p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		if e.multi && c.n == 0 {
			e.access(t, p, false)
		}
		if c.flag {
			fr.env[c.dst] = copyVal(*p)
		} else {
			fr.env[c.dst] = *p
		}
	case cStore:
		p, ok := fr.get(e, &c.x).(*value)
		if !ok {
			e.unsupported("store through %T", fr.get(e, &c.x))
		}
		if p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		if e.multi && c.n == 0 {
			e.access(t, p, true)
		}
		v := fr.get(e, &c.y)
		if c.flag {
			storeInto(p, v)
		} else {
			*p = v
		}
	case cRecv:
		fr.pc++
		ch, _ := fr.get(e, &c.x).(*chanv)
		e.visRecv(t, ch, c.commaOk, cont{kInstr, fr, c.dst}, c.t)
		return
	case cSend:
		fr.pc++
		ch, _ := fr.get(e, &c.x).(*chanv)
		e.visSend(t, ch, copyVal(fr.get(e, &c.y)), cont{kInstr, fr, -1})
		return
	case cSelect:
		fr.pc++
		e.visSelect(t, fr, c)
		return
	case cCall:
		if c.builtin != "" {
			if c.builtin == "close" {
				fr.pc++
				e.doClose(t, fr.get(e, &c.args[0]), cont{kInstr, fr, -1})
				return
			}
			v := e.builtin(t, fr, c, e.callArgs(fr, c))
			if c.dst >= 0 {
				fr.env[c.dst] = v
			}
			break
		}
		cl, args := e.resolve(fr, c)
		fr.pc++
		e.invoke(t, cl, args, cont{kInstr, fr, c.dst})
		return
	case cGo:
		if c.builtin != "" {
			e.unsupported("go builtin")
		}
		cl, args := e.resolve(fr, c)
		fr.pc++
		e.spawn(t, cl, args)
		return
	case cDefer:
		d := &deferRec{next: fr.defers}
		if c.builtin != "" {
			d.builtin = c.builtin
			d.bt = c.t
			d.args = e.callArgs(fr, c)
		} else if c.method == nil && c.fn == nil {
			d.fnv = fr.get(e, &c.x)
			d.args = e.callArgs(fr, c)
		} else {
			cl, args := e.resolve(fr, c)
			d.fnv, d.args = cl, args
		}
		fr.defers = d
	case cRunDefers:
		fr.pc++
		fr.mode = 1
		e.continueDefers(t, fr)
		return
	case cReturn:
		var v value
		switch len(c.args) {
		case 0:
		case 1:
			v = fr.get(e, &c.args[0])
		default:
			tp := make(tuple, len(c.args))
			for i := range c.args {
				tp[i] = fr.get(e, &c.args[i])
			}
			v = tp
		}
		e.ret(t, fr, v)
		return
	case cPanic:
		v := fr.get(e, &c.x)
		e.startPanic(t, v, false)
		return
	case cIf:
		var taken bool
		switch v := fr.get(e, &c.x).(type) {
		case bool:
			taken = v
		case *Term:
			taken = e.branch(v)
		default:
			e.unsupported("if on %T", v)
		}
		if taken {
			e.jump(fr, 0)
		} else {
			e.jump(fr, 1)
		}
		return
	case cJump:
		e.jump(fr, 0)
		return
	case cMapUpdate:
		m, _ := fr.get(e, &c.x).(*mapv)
		if m == nil {
			panic(goPanic{val: iface{e.p.errStr, "assignment to entry in nil map"}, rtErr: true})
		}
		if e.multi {
			e.access(t, &m.shadow, true)
		}
		e.checkHashable(fr.get(e, &c.y))
		e.mapSet(m, fr.get(e, &c.y), fr.get(e, &c.z))
	case cMove:
		fr.env[c.dst] = fr.get(e, &c.x)
	case cConvert:
		fr.env[c.dst] = e.convert(c.t, c.t2, fr.get(e, &c.x))
	case cMakeIface:
		fr.env[c.dst] = iface{c.t, copyVal(fr.get(e, &c.x))}
	case cMakeClosure:
		cl := &closure{fn: c.fn, env: make([]value, len(c.args))}
		for i := range c.args {
			cl.env[i] = fr.get(e, &c.args[i])
		}
		fr.env[c.dst] = cl
	case cMakeChan:
		n := e.concInt(fr.get(e, &c.x), "channel capacity")
		if n < 0 || n > 1<<20 {
			e.rtPanic("makechan: size out of range")
		}
		fr.env[c.dst] = e.newChan(int(n), c.t.elem)
	case cMakeMap:
		fr.env[c.dst] = newMap(c.t.elem)
	case cMakeSlice:
		n := e.concInt(fr.get(e, &c.x), "slice length")
		cp := e.concInt(fr.get(e, &c.y), "slice capacity")
		if n < 0 {
			e.rtPanic("makeslice: len out of range")
		}
		if cp < n {
			e.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<24 {
			e.abort(abBound, "make of %d elements", cp)
		}
		s := make([]value, cp)
		if c.t.elem.agg {
			for i := range s {
				s[i] = c.t.elem.mkZero()
			}
		} else {
			z := c.t.elem.zero
			for i := range s {
				s[i] = z
			}
		}
		fr.env[c.dst] = s[:n]
	case cSlice:
		fr.env[c.dst] = e.slice(fr.get(e, &c.x), fr.get(e, &c.y), fr.get(e, &c.z), fr.get(e, &c.w))
	case cFieldAddr:
		p, ok := fr.get(e, &c.x).(*value)
		if !ok {
			e.unsupported("field address through %T", fr.get(e, &c.x))
		}
		if p == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			e.unsupported("field of %T", *p)
		}
		fr.env[c.dst] = &s[c.n]
	case cField:
		s, ok := fr.get(e, &c.x).(structure)
		if !ok {
			e.unsupported("field of %T", fr.get(e, &c.x))
		}
		fr.env[c.dst] = s[c.n]
	case cIndexAddr:
		var s []value
		switch x := fr.get(e, &c.x).(type) {
		case []value:
			s = x
		case *value:
			if x == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
			}
			s = []value((*x).(array))
		default:
			e.unsupported("index address of %T", x)
		}
		i := e.index(fr.get(e, &c.y), len(s))
		fr.env[c.dst] = &s[i]
	case cIndex:
		switch x := fr.get(e, &c.x).(type) {
		case array:
			fr.env[c.dst] = x[e.index(fr.get(e, &c.y), len(x))]
		case string:
			fr.env[c.dst] = uint64(x[e.index(fr.get(e, &c.y), len(x))])
		case *symStr:
			fr.env[c.dst] = x.b[e.index(fr.get(e, &c.y), len(x.b))]
		default:
			e.unsupported("index of %T", x)
		}
	case cLookup:
		x := fr.get(e, &c.x)
		switch x := x.(type) {
		case string:
			fr.env[c.dst] = uint64(x[e.index(fr.get(e, &c.y), len(x))])
		case *symStr:
			fr.env[c.dst] = x.b[e.index(fr.get(e, &c.y), len(x.b))]
		case *mapv:
			var v value
			ok := false
			key := fr.get(e, &c.y)
			e.checkHashable(key)
			if x != nil {
				if e.multi {
					e.access(t, &x.shadow, false)
				}
				if i := e.mapFind(x, key); i >= 0 {
					v, ok = copyVal(x.ents[i].v), true
				}
			}
			if !ok {
				v = c.t.elem.mkZero()
			}
			if c.commaOk {
				fr.env[c.dst] = tuple{v, ok}
			} else {
				fr.env[c.dst] = v
			}
		default:
			e.unsupported("lookup in %T", x)
		}
	case cRange:
		switch x := fr.get(e, &c.x).(type) {
		case string:
			fr.env[c.dst] = &iter{s: x, isS: true}
		case *symStr:
			fr.env[c.dst] = &iter{sy: x, isS: true}
		case *mapv:
			it := &iter{m: x}
			if x != nil {
				if e.multi {
					e.access(t, &x.shadow, false)
				}
				it.rev = e.mapRev
				it.end = len(x.ents)
				if it.rev {
					it.pos = len(x.ents) - 1
				}
			}
			fr.env[c.dst] = it
		default:
			e.unsupported("range over %T", x)
		}
	case cNext:
		fr.env[c.dst] = e.next(t, fr.get(e, &c.x).(*iter), c)
	case cTypeAssert:
		fr.env[c.dst] = e.typeAssert(fr.get(e, &c.x), c)
	case cExtract:
		fr.env[c.dst] = fr.get(e, &c.x).(tuple)[c.n]
	default:
		e.unsupported("instruction %T %s", c.ins, c.ins)
	}
	fr.pc++
}

func (e *Engine) next(t *thread, it *iter, c *ci) value {
	if it.isS {
		if it.sy != nil {
			if it.pos >= len(it.sy.b) {
				return tuple{false, int64(0), int64(0)}
			}
			p := it.pos
			it.pos++
			return tuple{true, int64(p), e.convert(rt(types.Typ[types.Uint8]), rt(types.Typ[types.Int32]), it.sy.b[p])}
		}
		if it.pos >= len(it.s) {
			return tuple{false, int64(0), int64(0)}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.pos:])
		p := it.pos
		it.pos += n
		return tuple{true, int64(p), int64(r)}
	}
	kt := c.t.elems
	if it.m != nil {
		if e.multi {
			e.access(t, &it.m.shadow, false)
		}
		if it.rev {
			for it.pos >= 0 {
				en := &it.m.ents[it.pos]
				it.pos--
				if !en.deleted {
					return tuple{true, copyVal(en.k), copyVal(en.v)}
				}
			}
		} else {
			for it.pos < len(it.m.ents) {
				en := &it.m.ents[it.pos]
				it.pos++
				if !en.deleted {
					return tuple{true, copyVal(en.k), copyVal(en.v)}
				}
			}
		}
	}
	z := func(i int) value {
		if b, ok := kt[i].t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return kt[i].mkZero()
	}
	return tuple{false, z(1), z(2)}
}

func (e *Engine) implements(t *rtype, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.implCache[k]; ok {
		return v
	}
	e.p.mu.Lock()
	r := types.Implements(t.t, it)
	e.p.mu.Unlock()
	e.implCache[k] = r
	return r
}

func (e *Engine) typeAssert(x value, c *ci) value {
	itf, ok := x.(iface)
	if !ok {
		e.unsupported("type assertion on %T", x)
	}
	ok = false
	var v value
	if it, isI := c.t.t.Underlying().(*types.Interface); isI {
		if itf.t != nil {
			if _, isRT := itf.v.(rtypev); isRT {
				ok = true
			} else {
				ok = e.implements(itf.t, it)
			}
		}
		if ok {
			v = itf
		} else {
			v = iface{}
		}
	} else {
		ok = itf.t == c.t
		if ok {
			v = copyVal(itf.v)
		} else {
			v = c.t.mkZero()
		}
	}
	if c.commaOk {
		return tuple{v, ok}
	}
	if !ok {
		if itf.t == nil {
			e.rtPanic("interface conversion: interface is nil, not " + c.t.t.String())
		}
		e.rtPanic("interface conversion: interface is " + itf.t.t.String() + ", not " + c.t.t.String())
	}
	return v
}

func (e *Engine) checkHashable(k value) {
	if i, ok := k.(iface); ok && i.t != nil {
		switch i.v.(type) {
		case []value, *mapv, *closure:
			e.rtPanic("hash of unhashable type " + i.t.t.String())
		}
	}
}

// index checks bounds and returns a concrete index (forking if symbolic).
func (e *Engine) index(v value, n int) int {
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case uint64:
		if x >= uint64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Term:
		ts := e.ts
		in := ts.and(ts.le(ts.cint(0), x), ts.lt(x, ts.cint(int64(n))))
		if !e.branch(in) {
			e.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		k := e.concretize(x, "index")
		return int(k.Int64())
	}
	e.unsupported("index %T", v)
	return 0
}

// concInt makes v concrete, forking over its feasible values.
func (e *Engine) concInt(v value, what string) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case uint64:
		if x > 1<<62 {
			return 1 << 62
		}
		return int64(x)
	case *Term:
		k := e.concretize(x, what)
		if !k.IsInt64() {
			return 1 << 62
		}
		return k.Int64()
	}
	e.unsupported("%s of type %T", what, v)
	return 0
}

func (e *Engine) slice(x, lo, hi, max value) value {
	var n, cp int
	var s []value
	var str string
	var sy *symStr
	switch v := x.(type) {
	case string:
		str = v
		n, cp = len(v), len(v)
	case *symStr:
		sy = v
		n, cp = len(v.b), len(v.b)
	case []value:
		s = v
		n, cp = len(v), cap(v)
	case *value:
		if v == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		s = []value((*v).(array))
		n, cp = len(s), len(s)
	default:
		e.unsupported("slice of %T", x)
	}
	isStr := s == nil && (sy != nil || fmt.Sprintf("%T", x) == "string")
	bound := func(v value, dflt int) value {
		if v == nil {
			return int64(dflt)
		}
		return v
	}
	ts := e.ts
	l, h, m := bound(lo, 0), bound(hi, n), bound(max, cp)
	lim := cp
	if isStr {
		lim = n
	}
	// 0 <= l <= h <= m <= lim
	okc := func(a, b value) {
		switch r := e.binop(token.LEQ, rt(types.Typ[types.Int]), rt(types.Typ[types.Int]), asSigned(a), asSigned(b)).(type) {
		case bool:
			if !r {
				e.rtPanic("slice bounds out of range")
			}
		case *Term:
			if !e.branch(r) {
				e.rtPanic("slice bounds out of range")
			}
		}
	}
	_ = ts
	okc(int64(0), l)
	okc(l, h)
	okc(h, m)
	okc(m, int64(lim))
	li, hi2, mi := int(e.concInt(l, "slice bound")), int(e.concInt(h, "slice bound")), int(e.concInt(m, "slice bound"))
	if sy != nil {
		return normStr(&symStr{sy.b[li:hi2]})
	}
	if isStr {
		return str[li:hi2]
	}
	return s[li:hi2:mi]
}

func asSigned(v value) value {
	if u, ok := v.(uint64); ok {
		if u > 1<<63-1 {
			return int64(1<<63 - 1)
		}
		return int64(u)
	}
	return v
}

func normStr(s *symStr) value {
	bs := make([]byte, len(s.b))
	for i, b := range s.b {
		u, ok := b.(uint64)
		if !ok {
			return s
		}
		bs[i] = byte(u)
	}
	return string(bs)
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		out := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *symStr:
		return s.b
	}
	return nil
}

func (e *Engine) builtin(t *thread, fr *frame, c *ci, args []value) value {
	switch c.builtin {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst, _ := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		case string, *symStr:
			src = strBytes(s)
		default:
			e.unsupported("append of %T", s)
		}
		if e.multi {
			for i := range src {
				e.access(t, &src[i], false)
			}
		}
		if len(src) == 0 {
			return dst
		}
		var out []value
		if len(dst)+len(src) <= cap(dst) {
			out = dst[:len(dst)+len(src)]
			for i, v := range src {
				p := &out[len(dst)+i]
				if e.multi {
					e.access(t, p, true)
				}
				*p = copyVal(v)
			}
		} else {
			if e.multi {
				for i := range dst {
					e.access(t, &dst[i], false)
				}
			}
			nc := growCap(cap(dst), len(dst)+len(src))
			out = make([]value, len(dst)+len(src), nc)
			for i, v := range dst {
				out[i] = copyVal(v)
			}
			for i, v := range src {
				out[len(dst)+i] = copyVal(v)
			}
			full := out[:nc]
			z := c.t.elem
			for i := len(out); i < nc; i++ {
				full[i] = z.mkZero()
			}
		}
		return out
	case "copy":
		dst, _ := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		case string, *symStr:
			src = strBytes(s)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n == 0 {
			return int64(0)
		}
		if e.multi {
			for i := 0; i < n; i++ {
				e.access(t, &src[i], false)
				e.access(t, &dst[i], true)
			}
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		return int64(n)
	case "delete":
		m, _ := args[0].(*mapv)
		if m != nil && e.multi {
			e.access(t, &m.shadow, true)
		}
		e.checkHashable(args[1])
		e.mapDel(m, args[1])
		return nil
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *symStr:
			return int64(len(x.b))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *mapv:
			if x == nil {
				return int64(0)
			}
			if e.multi {
				e.access(t, &x.shadow, false)
			}
			return int64(x.n)
		case *chanv:
			if x == nil {
				return int64(0)
			}
			e.unsupported("len of channel")
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "print", "println":
		return nil
	case "recover":
		// valid only in a deferred call run directly by a panicking frame
		if d := fr.deferrer; d != nil && d.mode == 2 && d.pan != nil && !d.pan.recovered {
			d.pan.recovered = true
			if v, ok := d.pan.val.(iface); ok {
				return v
			}
			return iface{}
		}
		return iface{}
	case "min", "max":
		r := args[0]
		tok := token.LSS
		if c.builtin == "max" {
			tok = token.GTR
		}
		for _, a := range args[1:] {
			if c.t.num.isFloat {
				e.unsupported("min/max of floats")
			}
			if e.truth(e.binop(tok, c.t, c.t, a, r)) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				if e.multi {
					e.access(t, &x.shadow, true)
				}
				for i := range x.ents {
					x.ents[i].deleted = true
				}
				x.idx = map[any]int{}
				x.n, x.symKeys = 0, 0
			}
		case []value:
			for i := range x {
				if e.multi {
					e.access(t, &x[i], true)
				}
				storeInto(&x[i], c.t.elem.mkZero())
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			e.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "real", "imag", "complex":
		e.unsupported("complex builtins")
	}
	e.unsupported("builtin %s(%T)", c.builtin, args[0])
	return nil
}

func growCap(old, need int) int {
	if old == 0 {
		if need < 4 {
			// Go rounds up to size classes; the exact capacity is unspecified
			return need
		}
		return need
	}
	nc := old * 2
	if old >= 256 {
		nc = old + (old+768)/4
	}
	if nc < need {
		nc = need
	}
	return nc
}

// truth turns a bool value into a concrete decision.
func (e *Engine) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return e.branch(v)
	}
	e.unsupported("truth of %T", v)
	return false
}

var _ = constant.MakeBool
var _ = big.NewInt
var _ = reflect.Int
