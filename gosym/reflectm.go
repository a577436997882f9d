package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// A model of the parts of package reflect that operate on values.

func (e *Engine) typeIface(t *rtype) value {
	if t == nil {
		return iface{}
	}
	return iface{e.p.rtypeT, rtypev{t}}
}

func (e *Engine) rvGet(v rvalue) value {
	if v.addr != nil {
		if e.multi && e.cur != nil {
			e.access(e.cur, v.addr, false)
		}
		return *v.addr
	}
	return v.v
}

func (e *Engine) refPanic(format string, a ...any) {
	panic(goPanic{val: iface{e.p.strT, fmt.Sprintf("reflect: "+format, a...)}})
}

func (e *Engine) rvalueOf(v value) rvalue {
	i, ok := v.(iface)
	if !ok {
		e.unsupported("reflect.ValueOf(%T)", v)
	}
	if i.t == nil {
		return rvalue{}
	}
	return rvalue{t: i.t, v: i.v}
}

func (e *Engine) rv(v value) rvalue {
	r, ok := v.(rvalue)
	if !ok {
		e.unsupported("reflect.Value represented as %T", v)
	}
	return r
}

func (e *Engine) need(v rvalue, m string) rvalue {
	if v.t == nil {
		e.refPanic("call of reflect.Value.%s on zero Value", m)
	}
	return v
}

func (e *Engine) rvIface(v rvalue) value {
	x := e.rvGet(v)
	if v.t.kind == reflect.Interface {
		return x
	}
	return iface{v.t, copyVal(x)}
}

// assign converts x for storing in a location of type to.
func (e *Engine) assign(to *rtype, x rvalue, m string) value {
	if x.t == nil {
		e.refPanic("%s: call of reflect.Value.%s on zero Value", m, m)
	}
	v := e.rvGet(x)
	if to == x.t {
		return copyVal(v)
	}
	if to.kind == reflect.Interface {
		if x.t.kind == reflect.Interface {
			return v
		}
		if e.implements(x.t, to.t.Underlying().(*types.Interface)) {
			return iface{x.t, copyVal(v)}
		}
	}
	if types.AssignableTo(x.t.t, to.t) {
		return copyVal(v)
	}
	e.refPanic("%s: value of type %s is not assignable to type %s", m, x.t.t, to.t)
	return nil
}

func (e *Engine) rvLen(v rvalue) value {
	e.need(v, "Len")
	switch x := e.rvGet(v).(type) {
	case []value:
		return int64(len(x))
	case array:
		return int64(len(x))
	case string:
		return int64(len(x))
	case *symStr:
		return int64(len(x.b))
	case *mapv:
		if x == nil {
			return int64(0)
		}
		return int64(x.n)
	case *chanv:
		if x == nil {
			return int64(0)
		}
		e.unsupported("reflect Len of a channel")
	}
	e.refPanic("call of reflect.Value.Len on %s Value", v.t.kind)
	return nil
}

func (e *Engine) appendTo(s rvalue, m string, els []value) rvalue {
	e.need(s, m)
	if s.t.kind != reflect.Slice {
		e.refPanic("call of %s on %s Value", m, s.t.kind)
	}
	old, _ := e.rvGet(s).([]value)
	var src []value = els
	c := &ci{builtin: "append", t: s.t}
	r := e.builtin(e.cur, nil, c, []value{old, src})
	return rvalue{t: s.t, v: r}
}

func regReflect(reg func(string, intrinsic)) {
	f := func(name string, fn func(e *Engine, a []value) value) {
		reg(name, func(e *Engine, t *thread, a []value, k cont) (value, status) { return fn(e, a), stDone })
	}
	f("reflect.ValueOf", func(e *Engine, a []value) value { return e.rvalueOf(a[0]) })
	f("reflect.TypeOf", func(e *Engine, a []value) value { return e.typeIface(a[0].(iface).t) })
	f("internal/reflectlite.TypeOf", func(e *Engine, a []value) value { return e.typeIface(a[0].(iface).t) })
	f("reflect.Zero", func(e *Engine, a []value) value {
		t := a[0].(iface).v.(rtypev).t
		return rvalue{t: t, v: t.mkZero()}
	})
	f("reflect.New", func(e *Engine, a []value) value {
		t := a[0].(iface).v.(rtypev).t
		p := new(value)
		*p = t.mkZero()
		return rvalue{t: rt(types.NewPointer(t.t)), v: p}
	})
	f("reflect.MakeSlice", func(e *Engine, a []value) value {
		t := a[0].(iface).v.(rtypev).t
		n, c := e.concInt(a[1], "length"), e.concInt(a[2], "capacity")
		if n < 0 || c < n || c > 1<<20 {
			e.refPanic("MakeSlice: bad length or capacity")
		}
		s := make([]value, c)
		for i := range s {
			s[i] = t.elem.mkZero()
		}
		return rvalue{t: t, v: s[:n]}
	})
	f("reflect.SliceOf", func(e *Engine, a []value) value {
		return e.typeIface(rt(types.NewSlice(a[0].(iface).v.(rtypev).t.t)))
	})
	ptrTo := func(e *Engine, a []value) value {
		return e.typeIface(rt(types.NewPointer(a[0].(iface).v.(rtypev).t.t)))
	}
	f("reflect.PtrTo", ptrTo)
	f("reflect.PointerTo", ptrTo)
	f("reflect.Indirect", func(e *Engine, a []value) value {
		v := e.rv(a[0])
		if v.t != nil && v.t.kind == reflect.Ptr {
			return e.rvElem(v)
		}
		return v
	})
	f("reflect.Append", func(e *Engine, a []value) value {
		s := e.need(e.rv(a[0]), "Append")
		xs, _ := a[1].([]value)
		var els []value
		for _, x := range xs {
			els = append(els, e.assign(s.t.elem, e.rv(x), "Append"))
		}
		return e.appendTo(s, "Append", els)
	})
	f("reflect.AppendSlice", func(e *Engine, a []value) value {
		s, x := e.need(e.rv(a[0]), "AppendSlice"), e.need(e.rv(a[1]), "AppendSlice")
		if x.t.kind == reflect.String && s.t.elem != nil && s.t.elem.num != nil && s.t.elem.num.bits == 8 {
			return e.appendTo(s, "AppendSlice", strBytes(e.rvGet(x)))
		}
		if s.t.kind != reflect.Slice || x.t.kind != reflect.Slice || !types.Identical(s.t.elem.t, x.t.elem.t) {
			e.refPanic("AppendSlice: %s and %s", s.t.t, x.t.t)
		}
		els, _ := e.rvGet(x).([]value)
		return e.appendTo(s, "AppendSlice", els)
	})
	f("reflect.Copy", func(e *Engine, a []value) value {
		d, s := e.need(e.rv(a[0]), "Copy"), e.need(e.rv(a[1]), "Copy")
		dst, _ := e.rvGet(d).([]value)
		if ar, ok := e.rvGet(d).(array); ok {
			dst = []value(ar)
		}
		var src value = e.rvGet(s)
		if ar, ok := src.(array); ok {
			src = []value(ar)
		}
		return e.builtin(e.cur, nil, &ci{builtin: "copy"}, []value{dst, src})
	})
	f("reflect.DeepEqual", func(e *Engine, a []value) value { return e.deepEqual(a[0], a[1]) })
	reg("reflect.Select", func(e *Engine, t *thread, a []value, k cont) (value, status) {
		cases, _ := a[0].([]value)
		o := &visOp{kind: opSelect}
		idx := []int{}
		dflt := -1
		for i := range cases {
			if e.multi {
				e.access(t, &cases[i], false)
			}
			c := cases[i].(structure)
			dir := e.concInt(c[0], "select dir")
			ch, snd := c[1].(rvalue), c[2].(rvalue)
			if dir == 3 {
				if dflt >= 0 {
					e.refPanic("Select: multiple default cases")
				}
				dflt = i
				o.dflt = true
				continue
			}
			sc := selCase{send: dir == 1}
			if ch.t != nil {
				if ch.t.kind != reflect.Chan {
					e.refPanic("Select: not a channel")
				}
				sc.ch, _ = e.rvGet(ch).(*chanv)
				if sc.send {
					sc.v = e.assign(ch.t.elem, snd, "Select")
				}
			}
			o.cases = append(o.cases, sc)
			idx = append(idx, i)
		}
		o.finish = func(cas int, v value, ok bool) {
			if cas < 0 {
				e.deliver(t, k, tuple{int64(dflt), rvalue{}, false})
				return
			}
			c := o.cases[cas]
			r := rvalue{}
			if !c.send {
				r = rvalue{t: c.ch.elem, v: v}
			}
			e.deliver(t, k, tuple{int64(idx[cas]), r, ok})
		}
		e.pend(t, o)
		return nil, stPending
	})

	m := func(name string, fn func(e *Engine, v rvalue, a []value) value) {
		reg("(reflect.Value)."+name, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			return fn(e, e.rv(a[0]), a[1:]), stDone
		})
	}
	m("Elem", func(e *Engine, v rvalue, a []value) value { return e.rvElem(v) })
	m("Kind", func(e *Engine, v rvalue, a []value) value {
		if v.t == nil {
			return uint64(0)
		}
		return uint64(v.t.kind)
	})
	m("IsValid", func(e *Engine, v rvalue, a []value) value { return v.t != nil })
	m("CanSet", func(e *Engine, v rvalue, a []value) value { return v.addr != nil })
	m("CanAddr", func(e *Engine, v rvalue, a []value) value { return v.addr != nil })
	m("CanInterface", func(e *Engine, v rvalue, a []value) value { e.need(v, "CanInterface"); return true })
	m("Addr", func(e *Engine, v rvalue, a []value) value {
		if v.addr == nil {
			e.refPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvalue{t: rt(types.NewPointer(v.t.t)), v: v.addr}
	})
	m("Type", func(e *Engine, v rvalue, a []value) value { return e.typeIface(e.need(v, "Type").t) })
	m("Len", func(e *Engine, v rvalue, a []value) value { return e.rvLen(v) })
	m("Cap", func(e *Engine, v rvalue, a []value) value {
		switch x := e.rvGet(e.need(v, "Cap")).(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *chanv:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
		e.refPanic("call of reflect.Value.Cap on %s Value", v.t.kind)
		return nil
	})
	m("Interface", func(e *Engine, v rvalue, a []value) value { return e.rvIface(e.need(v, "Interface")) })
	m("IsNil", func(e *Engine, v rvalue, a []value) value {
		switch x := e.rvGet(e.need(v, "IsNil")).(type) {
		case []value:
			return x == nil
		case *value:
			return x == nil
		case *mapv:
			return x == nil
		case *chanv:
			return x == nil
		case *closure:
			return x == nil
		case iface:
			return x.t == nil
		}
		e.refPanic("call of reflect.Value.IsNil on %s Value", v.t.kind)
		return nil
	})
	m("IsZero", func(e *Engine, v rvalue, a []value) value {
		e.need(v, "IsZero")
		return e.equalT(v.t, e.rvGet(v), v.t.mkZero())
	})
	m("Set", func(e *Engine, v rvalue, a []value) value {
		e.need(v, "Set")
		if v.addr == nil {
			e.refPanic("reflect.Value.Set using unaddressable value")
		}
		x := e.assign(v.t, e.rv(a[0]), "Set")
		if e.multi {
			e.access(e.cur, v.addr, true)
		}
		storeInto(v.addr, x)
		return nil
	})
	setv := func(e *Engine, v rvalue, x value) value {
		if v.addr == nil {
			e.refPanic("set using unaddressable value")
		}
		if e.multi {
			e.access(e.cur, v.addr, true)
		}
		storeInto(v.addr, x)
		return nil
	}
	m("SetInt", func(e *Engine, v rvalue, a []value) value { return setv(e, v, a[0]) })
	m("SetUint", func(e *Engine, v rvalue, a []value) value { return setv(e, v, a[0]) })
	m("SetBool", func(e *Engine, v rvalue, a []value) value { return setv(e, v, a[0]) })
	m("SetString", func(e *Engine, v rvalue, a []value) value { return setv(e, v, a[0]) })
	m("SetFloat", func(e *Engine, v rvalue, a []value) value { return setv(e, v, a[0]) })
	m("SetLen", func(e *Engine, v rvalue, a []value) value {
		s, _ := e.rvGet(v).([]value)
		n := e.concInt(a[0], "length")
		if n < 0 || int(n) > cap(s) {
			e.refPanic("slice length out of range in SetLen")
		}
		return setv(e, v, s[:n])
	})
	m("Slice", func(e *Engine, v rvalue, a []value) value {
		e.need(v, "Slice")
		switch v.t.kind {
		case reflect.Array:
			if v.addr == nil {
				e.refPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			return rvalue{t: rt(types.NewSlice(v.t.elem.t)), v: e.slice(v.addr, a[0], a[1], nil)}
		case reflect.Slice, reflect.String:
			return rvalue{t: v.t, v: e.slice(e.rvGet(v), a[0], a[1], nil)}
		}
		e.refPanic("call of reflect.Value.Slice on %s Value", v.t.kind)
		return nil
	})
	m("Slice3", func(e *Engine, v rvalue, a []value) value {
		if v.t.kind == reflect.Slice {
			return rvalue{t: v.t, v: e.slice(e.rvGet(v), a[0], a[1], a[2])}
		}
		e.unsupported("Slice3")
		return nil
	})
	m("Index", func(e *Engine, v rvalue, a []value) value {
		e.need(v, "Index")
		switch x := e.rvGet(v).(type) {
		case []value:
			i := e.index(a[0], len(x))
			return rvalue{t: v.t.elem, addr: &x[i]}
		case array:
			i := e.index(a[0], len(x))
			if v.addr != nil {
				return rvalue{t: v.t.elem, addr: &(*v.addr).(array)[i]}
			}
			return rvalue{t: v.t.elem, v: x[i]}
		case string, *symStr:
			b := strBytes(x)
			return rvalue{t: rt(types.Typ[types.Uint8]), v: b[e.index(a[0], len(b))]}
		}
		e.refPanic("call of reflect.Value.Index on %s Value", v.t.kind)
		return nil
	})
	get := func(e *Engine, v rvalue, a []value) value { return e.rvGet(e.need(v, "get")) }
	m("Int", get)
	m("Uint", get)
	m("Bool", get)
	m("Float", get)
	m("String", func(e *Engine, v rvalue, a []value) value {
		if v.t == nil {
			return "<invalid Value>"
		}
		if v.t.kind == reflect.String {
			return e.rvGet(v)
		}
		return "<" + v.t.t.String() + " Value>"
	})
	m("NumField", func(e *Engine, v rvalue, a []value) value { return int64(len(v.t.elems)) })
	m("Field", func(e *Engine, v rvalue, a []value) value {
		i := e.concInt(a[0], "field")
		if v.addr != nil {
			return rvalue{t: v.t.elems[i], addr: &(*v.addr).(structure)[i]}
		}
		return rvalue{t: v.t.elems[i], v: e.rvGet(v).(structure)[i]}
	})
	chanOp := func(name string, mk func(e *Engine, t *thread, v rvalue, ch *chanv, a []value, k cont) *visOp) {
		reg("(reflect.Value)."+name, func(e *Engine, t *thread, a []value, k cont) (value, status) {
			v := e.need(e.rv(a[0]), name)
			ch, ok := e.rvGet(v).(*chanv)
			if !ok {
				e.refPanic("call of reflect.Value.%s on %s Value", name, v.t.kind)
			}
			e.pend(t, mk(e, t, v, ch, a[1:], k))
			return nil, stPending
		})
	}
	recv := func(dflt bool) func(e *Engine, t *thread, v rvalue, ch *chanv, a []value, k cont) *visOp {
		return func(e *Engine, t *thread, v rvalue, ch *chanv, a []value, k cont) *visOp {
			return &visOp{kind: opSelect, dflt: dflt, cases: []selCase{{ch: ch}}, finish: func(cas int, x value, ok bool) {
				if cas < 0 {
					e.deliver(t, k, tuple{rvalue{}, false})
					return
				}
				e.deliver(t, k, tuple{rvalue{t: v.t.elem, v: x}, ok})
			}}
		}
	}
	chanOp("Recv", recv(false))
	chanOp("TryRecv", recv(true))
	chanOp("Send", func(e *Engine, t *thread, v rvalue, ch *chanv, a []value, k cont) *visOp {
		return &visOp{kind: opSelect, cases: []selCase{{ch: ch, send: true, v: e.assign(v.t.elem, e.rv(a[0]), "Send")}}, finish: func(cas int, x value, ok bool) { e.deliver(t, k, nil) }}
	})
	chanOp("Close", func(e *Engine, t *thread, v rvalue, ch *chanv, a []value, k cont) *visOp {
		return &visOp{kind: opClose, cases: []selCase{{ch: ch}}, k: k}
	})
}

func (e *Engine) rvElem(v rvalue) rvalue {
	e.need(v, "Elem")
	switch v.t.kind {
	case reflect.Ptr:
		p, _ := e.rvGet(v).(*value)
		if p == nil {
			return rvalue{}
		}
		return rvalue{t: v.t.elem, addr: p}
	case reflect.Interface:
		return e.rvalueOf(e.rvGet(v))
	}
	e.refPanic("call of reflect.Value.Elem on %s Value", v.t.kind)
	return rvalue{}
}

func (e *Engine) deepEqual(x, y value) value {
	switch a := x.(type) {
	case iface:
		b, ok := y.(iface)
		if !ok || a.t != b.t {
			return false
		}
		if a.t == nil {
			return true
		}
		return e.deepEqual(a.v, b.v)
	case []value:
		b := y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		return e.deepAgg(a, b)
	case array:
		return e.deepAgg(a, y.(array))
	case structure:
		return e.deepAgg(a, y.(structure))
	case *value:
		b := y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return e.deepEqual(*a, *b)
	case *mapv:
		e.unsupported("DeepEqual of maps")
	}
	return e.equal(x, y)
}

func (e *Engine) deepAgg(a, b []value) value {
	r := e.ts.tTrue
	for i := range a {
		r = e.ts.and(r, e.liftB(e.deepEqual(a[i], b[i])))
	}
	return lowerB(r)
}

func (e *Engine) rtypeMethod(rv rtypev, name string) *cfn {
	return &cfn{name: "reflect.Type." + name, compiled: true, intr: func(e *Engine, t *thread, a []value, k cont) (value, status) {
		r := a[0].(rtypev).t
		arg := func(i int) *rtype { return a[i].(iface).v.(rtypev).t }
		switch name {
		case "Elem":
			if r.elem == nil {
				e.refPanic("Elem of invalid type %s", r.t)
			}
			return e.typeIface(r.elem), stDone
		case "Key":
			return e.typeIface(r.key), stDone
		case "Kind":
			return uint64(r.kind), stDone
		case "String":
			return types.TypeString(r.t, func(p *types.Package) string { return p.Name() }), stDone
		case "Name":
			if n, ok := r.t.(*types.Named); ok {
				return n.Obj().Name(), stDone
			}
			if b, ok := r.t.(*types.Basic); ok {
				return b.Name(), stDone
			}
			return "", stDone
		case "Len":
			return int64(r.alen), stDone
		case "Comparable":
			return types.Comparable(r.t), stDone
		case "AssignableTo":
			return types.AssignableTo(r.t, arg(1).t), stDone
		case "Implements":
			return e.implements(r, arg(1).t.Underlying().(*types.Interface)), stDone
		case "NumField":
			return int64(len(r.elems)), stDone
		}
		e.unsupported("reflect.Type.%s", name)
		return nil, stDone
	}}
}
