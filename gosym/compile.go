package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The SSA of each function is pre-resolved to slot-indexed operands. Nothing
// is interpreted here: this is a change of representation only.

type opnd struct {
	kind uint8 // 0 slot, 1 constant, 2 global
	i    int
	c    value
}

type opcode uint8

const (
	cAlloc opcode = iota
	cBin
	cUn
	cLoad
	cRecv
	cCall
	cGo
	cDefer
	cRunDefers
	cReturn
	cPanic
	cIf
	cJump
	cStore
	cMapUpdate
	cSend
	cSelect
	cMove // ChangeType / ChangeInterface
	cConvert
	cMakeIface
	cMakeClosure
	cMakeChan
	cMakeMap
	cMakeSlice
	cSlice
	cFieldAddr
	cField
	cIndexAddr
	cIndex
	cLookup
	cRange
	cNext
	cTypeAssert
	cExtract
	cSlice2Arr
	cUnsupported
)

type ci struct {
	op      opcode
	dst     int
	x, y, z opnd
	w       opnd
	args    []opnd
	tok     token.Token
	t, t2   *rtype
	n       int
	flag    bool
	commaOk bool
	fn      *cfn
	method  *types.Func
	builtin string
	states  []selState
	ins     ssa.Instruction
}

type selState struct {
	dir      types.ChanDir
	ch, send opnd
}

type phi struct {
	dst   int
	edges []opnd
}

type cblock struct {
	phis  []phi
	code  []ci
	preds []int
	succs []int
}

type cfn struct {
	f        *ssa.Function
	name     string
	nslots   int
	blocks   []cblock
	recover  int
	intr     intrinsic
	compiled bool
	mu       sync.Mutex
	params   int
	results  []*rtype
	isInit   bool
	covered  bool
}

type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*cfn
	globals  map[*ssa.Global]int
	gtypes   []*rtype
	gpkgs    []*ssa.Package
	model    *ssa.Package
	harness  *ssa.Package
	methods  sync.Map
	errStr   *rtype
	strT     *rtype
	rtypeT   *rtype
	redirect map[string]*ssa.Function
	repoPfx  string
	subst    map[string]int64 // "pkg.const" replacement, see constSubst
	pkgInit  map[*ssa.Package]*cfn
}

func (p *Program) fn(f *ssa.Function) *cfn {
	p.mu.Lock()
	if len(p.redirect) > 0 && f.Pkg != nil {
		if r := p.redirect[f.String()]; r != nil {
			f = r
		}
	}
	c, ok := p.fns[f]
	if !ok {
		c = &cfn{f: f, name: funcName(f), recover: -1}
		c.intr = intrinsics[c.name]
		if f.Name() == "init" && f.Synthetic == "package initializer" {
			c.isInit = true
		}
		p.fns[f] = c
	}
	p.mu.Unlock()
	return c
}

func (p *Program) ensure(c *cfn) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.compiled {
		p.compile(c)
		c.compiled = true
	}
}

func (p *Program) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = len(p.gtypes)
		p.globals[g] = i
		p.gtypes = append(p.gtypes, rt(g.Type().Underlying().(*types.Pointer).Elem()))
		p.gpkgs = append(p.gpkgs, g.Pkg)
	}
	return i
}

func constValue(c *ssa.Const) value {
	r := rt(c.Type())
	if c.Value == nil {
		return r.mkZero()
	}
	n := r.num
	if n == nil {
		if _, ok := c.Type().Underlying().(*types.Interface); ok {
			return iface{}
		}
		return opaque{"const of type " + c.Type().String()}
	}
	switch {
	case n.isBool:
		return constant.BoolVal(c.Value)
	case n.isStr:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case n.isInt && n.signed:
		return c.Int64()
	case n.isInt:
		return c.Uint64()
	case n.isFloat:
		f := c.Float64()
		if n.bits == 32 {
			f = float64(float32(f))
		}
		return f
	case n.isCplx:
		return c.Complex128()
	}
	return opaque{"const"}
}

var _ = big.NewInt

func (p *Program) compile(c *cfn) {
	f := c.f
	slots := map[ssa.Value]int{}
	n := 0
	newSlot := func(v ssa.Value) int {
		slots[v] = n
		n++
		return n - 1
	}
	for _, x := range f.Params {
		newSlot(x)
	}
	c.params = len(f.Params)
	for _, x := range f.FreeVars {
		newSlot(x)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				newSlot(v)
			}
		}
	}
	c.nslots = n
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.results = append(c.results, rt(res.At(i).Type()))
	}
	var op func(v ssa.Value) opnd
	op = func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{kind: 1}
		case *ssa.Const:
			cv := constValue(v)
			return opnd{kind: 1, c: cv}
		case *ssa.Global:
			return opnd{kind: 2, i: p.global(v)}
		case *ssa.Function:
			return opnd{kind: 1, c: &closure{fn: p.fn(v)}}
		case *ssa.Builtin:
			return opnd{kind: 1, c: opaque{"builtin"}}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v.Name(), f))
		}
		return opnd{kind: 0, i: s}
	}
	isAggT := func(t types.Type) bool { return rt(t).agg }
	call := func(k *ci, cc *ssa.CallCommon) {
		for _, a := range cc.Args {
			k.args = append(k.args, op(a))
		}
		if cc.IsInvoke() {
			k.method = cc.Method
			k.x = op(cc.Value)
			return
		}
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			k.builtin = v.Name()
			if len(cc.Args) > 0 {
				k.t = rt(cc.Args[0].Type())
			}
			if len(cc.Args) > 1 {
				k.t2 = rt(cc.Args[1].Type())
			}
		case *ssa.Function:
			k.fn = p.fn(v)
		default:
			k.x = op(v)
		}
	}
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
	c.blocks = make([]cblock, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &c.blocks[bi]
		for _, pr := range b.Preds {
			cb.preds = append(cb.preds, pr.Index)
		}
		for _, su := range b.Succs {
			cb.succs = append(cb.succs, su.Index)
		}
		for _, ins := range b.Instrs {
			k := ci{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				k.dst = slots[v]
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := phi{dst: k.dst}
				for _, ed := range x.Edges {
					ph.edges = append(ph.edges, op(ed))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				k.op = cAlloc
				k.t = rt(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				k.op = cBin
				k.tok = x.Op
				k.x, k.y = op(x.X), op(x.Y)
				k.t = rt(x.X.Type())
				k.t2 = rt(x.Y.Type())
			case *ssa.UnOp:
				k.x = op(x.X)
				k.tok = x.Op
				k.t = rt(x.X.Type())
				k.commaOk = x.CommaOk
				switch x.Op {
				case token.MUL:
					k.op = cLoad
					if a, ok := x.X.(*ssa.Alloc); ok && !a.Heap {
						k.n = 1
					}
					k.flag = isAggT(x.Type())
					k.t = rt(x.Type())
				case token.ARROW:
					k.op = cRecv
				default:
					k.op = cUn
				}
			case *ssa.Call:
				k.op = cCall
				call(&k, &x.Call)
			case *ssa.Go:
				k.op = cGo
				call(&k, &x.Call)
			case *ssa.Defer:
				k.op = cDefer
				call(&k, &x.Call)
				if x.DeferStack != nil {
					k.op = cUnsupported
				}
			case *ssa.RunDefers:
				k.op = cRunDefers
			case *ssa.Return:
				k.op = cReturn
				for _, r := range x.Results {
					k.args = append(k.args, op(r))
				}
			case *ssa.Panic:
				k.op = cPanic
				k.x = op(x.X)
			case *ssa.If:
				k.op = cIf
				k.x = op(x.Cond)
			case *ssa.Jump:
				k.op = cJump
			case *ssa.Store:
				k.op = cStore
				if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
					k.n = 1
				}
				k.x, k.y = op(x.Addr), op(x.Val)
				k.flag = isAggT(x.Val.Type())
			case *ssa.MapUpdate:
				k.op = cMapUpdate
				k.x, k.y, k.z = op(x.Map), op(x.Key), op(x.Value)
			case *ssa.Send:
				k.op = cSend
				k.x, k.y = op(x.Chan), op(x.X)
			case *ssa.Select:
				k.op = cSelect
				k.flag = x.Blocking
				for _, st := range x.States {
					s := selState{dir: st.Dir, ch: op(st.Chan)}
					if st.Dir == types.SendOnly {
						s.send = op(st.Send)
					}
					k.states = append(k.states, s)
				}
				k.t = rt(x.Type())
			case *ssa.ChangeType:
				k.op = cMove
				k.x = op(x.X)
			case *ssa.ChangeInterface:
				k.op = cMove
				k.x = op(x.X)
			case *ssa.Convert:
				k.op = cConvert
				k.x = op(x.X)
				k.t, k.t2 = rt(x.X.Type()), rt(x.Type())
			case *ssa.MultiConvert:
				k.op = cUnsupported
			case *ssa.MakeInterface:
				k.op = cMakeIface
				k.x = op(x.X)
				k.t = rt(x.X.Type())
			case *ssa.MakeClosure:
				k.op = cMakeClosure
				k.fn = p.fn(x.Fn.(*ssa.Function))
				for _, bd := range x.Bindings {
					k.args = append(k.args, op(bd))
				}
			case *ssa.MakeChan:
				k.op = cMakeChan
				k.x = op(x.Size)
				k.t = rt(x.Type())
			case *ssa.MakeMap:
				k.op = cMakeMap
				k.t = rt(x.Type())
			case *ssa.MakeSlice:
				k.op = cMakeSlice
				k.x, k.y = op(x.Len), op(x.Cap)
				k.t = rt(x.Type())
			case *ssa.Slice:
				k.op = cSlice
				k.x = op(x.X)
				k.y, k.z, k.w = op(x.Low), op(x.High), op(x.Max)
				k.t = rt(x.X.Type())
			case *ssa.FieldAddr:
				k.op = cFieldAddr
				k.x = op(x.X)
				k.n = x.Field
			case *ssa.Field:
				k.op = cField
				k.x = op(x.X)
				k.n = x.Field
			case *ssa.IndexAddr:
				k.op = cIndexAddr
				k.x, k.y = op(x.X), op(x.Index)
				k.t = rt(x.X.Type())
			case *ssa.Index:
				k.op = cIndex
				k.x, k.y = op(x.X), op(x.Index)
				k.t = rt(x.X.Type())
			case *ssa.Lookup:
				k.op = cLookup
				k.x, k.y = op(x.X), op(x.Index)
				k.commaOk = x.CommaOk
				k.t = rt(x.X.Type())
			case *ssa.Range:
				k.op = cRange
				k.x = op(x.X)
			case *ssa.Next:
				k.op = cNext
				k.x = op(x.Iter)
				k.flag = x.IsString
				k.t = rt(x.Type())
			case *ssa.TypeAssert:
				k.op = cTypeAssert
				k.x = op(x.X)
				k.t = rt(x.AssertedType)
				k.commaOk = x.CommaOk
			case *ssa.Extract:
				k.op = cExtract
				k.x = op(x.Tuple)
				k.n = x.Index
			case *ssa.SliceToArrayPointer:
				k.op = cUnsupported
			default:
				k.op = cUnsupported
			}
			cb.code = append(cb.code, k)
		}
	}
	if p.subst != nil {
		p.substConsts(c)
	}
}

// constant substitution is applied at source level (see load.go); nothing here.
func (p *Program) substConsts(c *cfn) {}
