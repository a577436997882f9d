package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"
)

const (
	tokADD = token.ADD
	tokAND = token.AND
	tokOR  = token.OR
	tokLSS = token.LSS
)

func parseFloat(s string) float64 {
	switch s {
	case "NaN":
		return keyFloat(true, 0, false)
	case "-0":
		return keyFloat(false, 0, true)
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

// sprintf follows fmt.Sprintf for the verbs and values used here. Symbolic
// numbers are rendered as their term text: the texts are not compared with
// anything but for containing a concrete part.
// vbuf collects a text that may have symbolic bytes.
type vbuf struct {
	b []value
	n int
}

func (s *vbuf) add(v value) {
	if x, ok := v.(*symStr); ok {
		s.b = append(s.b, x.b...)
		return
	}
	s.b = append(s.b, strBytes(v)...)
}

func (s *vbuf) elem(v value) {
	if s.n > 0 {
		s.WriteByte(' ')
	}
	s.n++
	s.add(v)
}

func (s *vbuf) WriteByte(c byte) error { s.b = append(s.b, uint64(c)); return nil }
func (s *vbuf) WriteString(t string)   { s.add(t) }
func (s *vbuf) value() value           { return normStr(&symStr{s.b}) }
func (s *vbuf) wrap(open, cl string) value {
	var r vbuf
	r.add(open)
	r.add(s.value())
	r.add(cl)
	return r.value()
}

func (e *Engine) sprintf(fv value, args []value) value {
	var f []value
	if x, ok := fv.(*symStr); ok {
		f = x.b
	} else {
		f = strBytes(fv)
	}
	var sb vbuf
	// is tells whether character i of the format is c
	is := func(i int, c byte) bool {
		switch x := f[i].(type) {
		case uint64:
			return byte(x) == c
		case *Term:
			return e.branch(e.ts.eq(x, e.ts.cnst(big.NewInt(int64(c)))))
		}
		e.unsupported("format of %T", f[i])
		return false
	}
	n := 0
	for i := 0; i < len(f); i++ {
		if !is(i, '%') {
			sb.b = append(sb.b, f[i])
			continue
		}
		i++
		flags := ""
		for i < len(f) {
			fl := false
			for _, c := range []byte("+-# 0123456789.") {
				if is(i, c) {
					flags += string(rune(c))
					fl = true
					break
				}
			}
			if !fl {
				break
			}
			i++
		}
		if i >= len(f) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		if is(i, '%') {
			sb.WriteByte('%')
			continue
		}
		if n >= len(args) {
			sb.WriteString("%!")
			sb.b = append(sb.b, f[i])
			sb.WriteString("(MISSING)")
			continue
		}
		verb := byte(0)
		switch x := f[i].(type) {
		case uint64:
			verb = byte(x)
		case *Term:
			verb = byte(e.concretize(x, "the verb of a format").Uint64())
		}
		sb.add(e.fmtVal(args[n], verb, flags, 0))
		n++
	}
	if n < len(args) {
		sb.WriteString("%!(EXTRA ")
		for i, a := range args[n:] {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.add(e.fmtVal(a, 'T', "", 0))
			sb.WriteByte('=')
			sb.add(e.fmtVal(a, 'v', "", 0))
		}
		sb.WriteByte(')')
	}
	return sb.value()
}

func (e *Engine) sprint(args []value, ln bool) value {
	var sb vbuf
	prevStr := true
	for i, a := range args {
		isStr := false
		if x, ok := a.(iface); ok && x.t != nil {
			isStr = x.t.kind == reflect.String
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			sb.WriteByte(' ')
		}
		sb.add(e.fmtVal(a, 'v', "", 0))
		prevStr = isStr
	}
	if ln {
		sb.WriteByte('\n')
	}
	return sb.value()
}

func (e *Engine) fmtVal(v value, verb byte, flags string, depth int) value {
	i, ok := v.(iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if i.t == nil {
		if verb == 'v' || verb == 'T' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return i.t.t.String()
	}
	if depth == 0 && (verb == 'v' || verb == 's') && !strings.Contains(flags, "#") {
		for _, m := range []string{"Error", "String"} {
			fn := e.findMethodByName(i.t, m)
			if fn == nil {
				continue
			}
			sg := fn.f.Signature
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
				continue
			}
			return e.nestedCall(&closure{fn: fn}, []value{i.v})
		}
	}
	return e.fmtRaw(i.v, i.t, verb, flags, depth)
}

func (e *Engine) fmtRaw(v value, t *rtype, verb byte, flags string, depth int) value {
	switch x := v.(type) {
	case *Term:
		return "<" + x.String() + ">"
	case *fsym, *fint:
		return "<float>"
	case *symStr:
		if verb == 'q' {
			return e.strText(x)
		}
		return x
	case bool, int64, uint64, float64, complex128, string:
		if f, ok := v.(float64); ok && t.num != nil && t.num.bits == 32 {
			return fmt.Sprintf("%"+flags+string(verb), float32(f))
		}
		return fmt.Sprintf("%"+flags+string(verb), v)
	case []value:
		if t.elem != nil && t.elem.num != nil && t.elem.num.bits == 8 && !t.elem.num.signed && (verb == 's' || verb == 'q' || verb == 'x') {
			return normStr(&symStr{x})
		}
		var s vbuf
		for _, y := range x {
			s.elem(e.fmtElem(y, t.elem, verb, depth))
		}
		return s.wrap("[", "]")
	case array:
		var s vbuf
		for _, y := range x {
			s.elem(e.fmtElem(y, t.elem, verb, depth))
		}
		return s.wrap("[", "]")
	case structure:
		var s vbuf
		for j, y := range x {
			s.elem(e.fmtElem(y, t.elems[j], verb, depth))
		}
		return s.wrap("{", "}")
	case *value:
		if x == nil {
			return "<nil>"
		}
		return "0xc000010000"
	}
	return fmt.Sprintf("<%T>", v)
}

func (e *Engine) fmtElem(v value, t *rtype, verb byte, depth int) value {
	if i, ok := v.(iface); ok {
		return e.fmtVal(i, verb, "", depth)
	}
	return e.fmtVal(iface{t, v}, verb, "", depth)
}

// ---- input values of a path ----

// inputValues evaluates the inputs of the current path under the current model.
func (e *Engine) inputValues() map[string]string {
	out := map[string]string{}
	for _, in := range e.inputs {
		out[in.name] = e.evalStr(in.v)
	}
	return out
}

func (e *Engine) evalStr(v value) string {
	m := e.model
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case *Term:
		if x.isBool() {
			return strconv.FormatBool(m.evalB(x))
		}
		return m.evalI(x).String()
	case float64:
		return fmtFloat(x)
	case *fint:
		f, _ := new(big.Float).SetInt(m.evalI(x.t)).Float64()
		return fmtFloat(f)
	case *fsym:
		nan, key, nz := false, int64(0), false
		b := func(v value) bool {
			if t, ok := v.(*Term); ok {
				return m.evalB(t)
			}
			return v.(bool)
		}
		nan, nz = b(x.nan), b(x.nz)
		if t, ok := x.key.(*Term); ok {
			key = m.evalI(t).Int64()
		} else {
			key = x.key.(int64)
		}
		return fmtFloat(keyFloat(nan, key, nz))
	case string:
		return x
	case *symStr:
		var bs []byte
		for _, c := range x.b {
			switch c := c.(type) {
			case uint64:
				bs = append(bs, byte(c))
			case *Term:
				bs = append(bs, byte(m.evalI(c).Uint64()))
			}
		}
		return string(bs)
	}
	return fmt.Sprint(v)
}

func fmtFloat(f float64) string {
	if f != f {
		return "NaN"
	}
	if f == 0 && 1/f < 0 {
		return "-0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}
