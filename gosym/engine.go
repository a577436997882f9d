package main

import (
	"fmt"
	"go/types"
	"math/big"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type status uint8

const (
	stDone    status = iota // value is the result
	stPending               // t.pending was set; completion delivers
	stPushed                // a frame was pushed; it delivers to k
)

type intrinsic func(e *Engine, t *thread, args []value, k cont) (value, status)

func engineStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return "\n" + s
}

// ---- decisions ----

type decKind uint8

const (
	dBranch decKind = iota
	dChoose
	dSched
)

type decision struct {
	kind decKind
	// dBranch
	cond     *Term
	val      bool
	hasAlt   bool
	altModel *Model
	cval     *big.Int
	// dChoose
	n, i int
	// dSched
	enabled   []trans
	backtrack []trans
	done      []trans
	sleep     []trans
	cur       trans
	evIdx     int // index of the event executed from here
	last, pre int // the thread that ran before, preemptions before this decision
}

type Stats struct {
	Paths, Steps, Nodes, Redundant, Events int64
	Branches, Forced, Cached               int64
	Bound, Unsup, Unknown                  int64
	RaceQueries                            int64
}

// Engine explores all paths of one harness instance.
type Engine struct {
	p         *Program
	ts        *Terms
	sol       *Solver
	cur       *thread
	multi     bool
	steps     int
	maxSteps  int
	noMem     bool
	halt      func() bool // time is up
	mapRev    bool
	mapOrd    bool
	implCache any0
	encoded   map[*cfn]bool
	stats     Stats

	// configuration of the instance
	params   map[string]int64
	noDPOR   bool
	preempt  int // if positive: at most preempt-1 preemptions
	prePre   int // of the current path
	maxPaths int64

	// exploration
	dec    []*decision
	pos    int
	qcache map[string]qres
	varMem map[*Term][]*Term

	// current path
	pc              []*Term
	model           *Model
	vars            []*Term
	varSet          map[*Term]bool
	names           map[string]int
	inputs          []inputRec
	threads         []*thread
	byName          map[string]int // persistent: thread name -> stable id
	stable          []*thread      // by stable id, current path
	globals         []*value
	stdGlob         []*value
	initDone        map[*ssa.Package]int // 1 running 2 done (std, persistent)
	pathInit        map[*ssa.Package]int
	nextObj         int
	mus             map[*value]*mutexState
	wgs             map[*value]*wgState
	conds           map[*value]*condState
	atoms           map[*value]*atomState
	shadow          map[*value]*shadowCell
	events          []*event
	curSleep        []trans
	sleepSet        bool
	newFrom         int
	procs           int64
	reached         map[string]bool
	observed        []string
	schedLog        []string
	violated        string
	raceMsg         string
	reachAll        map[string]int64
	unsupMsg        map[string]int64
	boundMsg        map[string]int64
	replaySched     []string
	wantSched       bool
	forcedInputs    map[string]string
	lastThread      int
	drained         bool
	hashMem         map[any]*Term
	curRuntimeNames map[string]int
	maxDepth        int
	obs             []obsRec
	notes           map[string][][]value
	chans           int
	wmm             map[*value]*value
}

type any0 = map[implKey]bool

type implKey struct {
	t  *rtype
	it *types.Interface
}

type inputRec struct {
	name string
	kind string // int, bool, float, fint, choose
	v    value
	n    int
	sgn  bool
}

type qres struct {
	r Result
	m *Model
}

func newEngine(p *Program, sol *Solver) *Engine {
	return &Engine{p: p, ts: newTerms(), sol: sol, maxSteps: 60000000,
		implCache: any0{}, encoded: map[*cfn]bool{}, params: map[string]int64{},
		qcache: map[string]qres{}, varMem: map[*Term][]*Term{}, byName: map[string]int{},
		initDone: map[*ssa.Package]int{}, reachAll: map[string]int64{}, unsupMsg: map[string]int64{}, boundMsg: map[string]int64{}}
}

// varsOf lists the variables occurring in t, in id order.
func (e *Engine) varsOf(t *Term) []*Term {
	if v, ok := e.varMem[t]; ok {
		return v
	}
	var out []*Term
	switch t.op {
	case OpVar, OpBVar:
		out = []*Term{t}
	case OpConst, OpTrue, OpFalse:
	default:
		seen := map[*Term]bool{}
		add := func(a *Term) {
			for _, v := range e.varsOf(a) {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
		for _, a := range t.args {
			add(a)
		}
		for _, m := range t.lin {
			add(m.t)
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	}
	e.varMem[t] = out
	return out
}

// query decides whether the path condition and c are satisfiable together. Only
// the constraints connected to c by shared variables are sent; the others are
// satisfied by the current model.
func (e *Engine) query(c *Term) (Result, *Model) {
	in := map[*Term]bool{}
	for _, v := range e.varsOf(c) {
		in[v] = true
	}
	used := make([]bool, len(e.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range e.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range e.varsOf(p) {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range e.varsOf(p) {
					in[v] = true
				}
			}
		}
	}
	var sl []*Term
	var ids []int
	for i, u := range used {
		if u {
			sl = append(sl, e.pc[i])
			ids = append(ids, e.pc[i].id)
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	kb.WriteString(strconv.Itoa(c.id))
	for _, i := range ids {
		kb.WriteByte(',')
		kb.WriteString(strconv.Itoa(i))
	}
	key := kb.String()
	vars := make([]*Term, 0, len(in))
	for v := range in {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	r, ok := e.qcache[key]
	if !ok {
		for _, v := range vars {
			if v.op == OpVar {
				sl = append(sl, e.ts.rangeOf(v))
			}
		}
		e.timeCheck()
		res, m := e.sol.Check(sl, c, vars)
		r = qres{res, m}
		e.qcache[key] = r
	} else {
		e.stats.Cached++
	}
	if r.r != Sat {
		return r.r, nil
	}
	m := newModel()
	for v, k := range e.model.ints {
		m.ints[v] = k
	}
	for v, k := range e.model.bools {
		m.bools[v] = k
	}
	for _, v := range vars {
		if v.op == OpBVar {
			m.bools[v] = r.m.bools[v]
		} else {
			m.ints[v] = r.m.evalI(v)
		}
	}
	return Sat, m
}

func (e *Engine) branch(c *Term) bool { return e.branchV(c, nil) }

func (e *Engine) branchV(c *Term, cval *big.Int) bool {
	switch c.op {
	case OpTrue:
		return true
	case OpFalse:
		return false
	}
	if e.pos < len(e.dec) {
		d := e.dec[e.pos]
		if d.kind != dBranch || d.cond != c {
			e.abort(abInternal, "nondeterministic replay: branch %s at %s", c, e.cur.where())
		}
		e.pos++
		if d.hasAlt {
			e.pushPC(c, d.val)
		}
		return d.val
	}
	e.stats.Branches++
	v := e.model.evalB(c)
	other := c
	if v {
		other = e.ts.not(c)
	}
	res, m := e.query(other)
	d := &decision{kind: dBranch, cond: c, val: v, cval: cval}
	switch res {
	case Sat:
		d.hasAlt = true
		d.altModel = m
	case Unsat:
		e.stats.Forced++
	default:
		e.stats.Unknown++
		e.boundMsg["solver gave no answer: branch side not explored at "+e.cur.where()]++
		d.hasAlt = true // the constraint matters, but there is no other side to explore
	}
	e.dec = append(e.dec, d)
	e.pos++
	if d.hasAlt {
		e.pushPC(c, v)
	}
	return v
}

func (e *Engine) pushPC(c *Term, v bool) {
	if !v {
		c = e.ts.not(c)
	}
	e.pc = append(e.pc, c)
}

// concretize returns a value of t; the other feasible values are explored on other paths.
func (e *Engine) concretize(t *Term, what string) *big.Int {
	if t.op == OpConst {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 5000 {
			e.abort(abBound, "more than 5000 values of %s at %s", what, e.cur.where())
		}
		var v *big.Int
		if e.pos < len(e.dec) {
			v = e.dec[e.pos].cval
			if v == nil {
				e.abort(abInternal, "nondeterministic replay: concretize")
			}
		} else {
			v = e.model.evalI(t)
		}
		c := e.ts.eq(t, e.ts.cnst(v))
		if c.op == OpTrue {
			return v
		}
		if e.branchV(c, v) {
			return v
		}
	}
}

// choose explores all of 0..n-1.
func (e *Engine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e.pos < len(e.dec) {
		d := e.dec[e.pos]
		if d.kind != dChoose || d.n != n {
			e.abort(abInternal, "nondeterministic replay: choose")
		}
		e.pos++
		return d.i
	}
	e.dec = append(e.dec, &decision{kind: dChoose, n: n, altModel: e.model})
	e.pos++
	return 0
}

// assume restricts the path; infeasible paths are abandoned.
func (e *Engine) assume(v value) {
	switch v := v.(type) {
	case bool:
		if !v {
			e.abort(abInfeasible, "assumption")
		}
	case *Term:
		if !e.branch(v) {
			e.abort(abInfeasible, "assumption")
		}
	}
}

// backtrack moves to the next unexplored alternative; false when none is left.
func (e *Engine) backtrack() bool {
	for len(e.dec) > 0 {
		d := e.dec[len(e.dec)-1]
		switch d.kind {
		case dBranch:
			if d.hasAlt && d.altModel != nil {
				d.val = !d.val
				e.model = d.altModel
				d.altModel = nil
				return true
			}
		case dChoose:
			if d.i+1 < d.n {
				d.i++
				e.model = d.altModel
				return true
			}
		case dSched:
			d.done = append(d.done, d.cur)
			for _, tr := range d.backtrack {
				if !hasTrans(d.done, tr) && !hasTrans(d.sleep, tr) && e.affordable(d, tr) {
					d.cur = tr
					e.model = d.altModel
					return true
				}
			}
		}
		e.dec[len(e.dec)-1] = nil
		e.dec = e.dec[:len(e.dec)-1]
	}
	return false
}

// ---- globals ----

func (e *Engine) inRepo(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil {
		if f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if pk == nil {
			return false
		}
	}
	return e.p.isRepo(pk)
}

func (p *Program) isRepo(pk *ssa.Package) bool {
	path := pk.Pkg.Path()
	return (path == p.repoPfx || strings.HasPrefix(path, p.repoPfx+"/")) && !strings.Contains(path, "/zz_verif")
}

func (p *Program) isHarness(pk *ssa.Package) bool {
	return strings.Contains(pk.Pkg.Path(), "/zz_verif")
}

func (e *Engine) globalAddr(i int) value {
	p := e.p
	p.mu.Lock()
	r, pk, n := p.gtypes[i], p.gpkgs[i], len(p.gtypes)
	p.mu.Unlock()
	tab := &e.stdGlob
	own := pk != nil && (p.isRepo(pk) || p.isHarness(pk))
	if own {
		tab = &e.globals
	}
	for len(*tab) < n {
		*tab = append(*tab, nil)
	}
	if !own && pk != nil && e.initDone[pk] == 0 {
		e.stdInit(pk)
		for len(e.stdGlob) < n {
			e.stdGlob = append(e.stdGlob, nil)
		}
	}
	if own && e.pathInit[pk] == 0 {
		e.ownInit(pk)
	}
	if (*tab)[i] == nil {
		c := new(value)
		*c = r.mkZero()
		(*tab)[i] = c
	}
	return (*tab)[i]
}

// stdInit runs the initialiser of a library package, once per engine, when one of
// its globals is first touched. What it cannot execute is left at its zero value.
func (e *Engine) stdInit(pk *ssa.Package) {
	e.initDone[pk] = 1
	init := pk.Func("init")
	if init == nil {
		return
	}
	sm, ss, sc := e.multi, e.steps, e.cur
	e.multi = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*abortPath); ok {
					return
				}
				if _, ok := r.(goPanic); ok {
					return
				}
				panic(r)
			}
		}()
		e.nestedCall(&closure{fn: e.p.fn(init)}, nil)
	}()
	e.multi, e.steps, e.cur = sm, ss, sc
	e.initDone[pk] = 2
}

func (e *Engine) ownInit(pk *ssa.Package) {
	e.pathInit[pk] = 1
	init := pk.Func("init")
	sm := e.multi
	e.multi = false
	e.nestedCall(&closure{fn: e.p.fn(init)}, nil)
	e.multi = sm
	e.pathInit[pk] = 2
}

// skipInit tells whether a call of pk's initialiser (from another initialiser) is
// skipped; library packages are initialised on first use instead.
func (e *Engine) skipInit(pk *ssa.Package) bool {
	if e.p.isRepo(pk) || e.p.isHarness(pk) {
		if e.pathInit[pk] == 0 {
			e.pathInit[pk] = 1
			return false
		}
		return e.pathInit[pk] != 1 || e.initRunning(pk)
	}
	return !(e.initDone[pk] == 1 && !e.initRunning(pk))
}

// initRunning reports whether the initialiser of pk is already on the stack.
func (e *Engine) initRunning(pk *ssa.Package) bool {
	if e.cur == nil {
		return false
	}
	for fr := e.cur.top; fr != nil; fr = fr.caller {
		if fr.fn.isInit && fr.fn.f.Pkg == pk {
			return true
		}
	}
	return false
}

// nestedCall runs cl to completion on the current thread (it must not block).
func (e *Engine) nestedCall(cl *closure, args []value) value {
	nt := &thread{id: 0, name: "nested", nested: true, vc: VC{1}}
	if e.cur != nil {
		nt.id, nt.name, nt.vc, nt.hb = e.cur.id, e.cur.name, e.cur.vc, e.cur.hb
	}
	prev := e.cur
	e.cur = nt
	e.invoke(nt, cl, args, cont{kind: kEnd})
	e.run(nt)
	e.cur = prev
	if nt.pending != nil {
		e.unsupported("blocking operation in a nested call of %s", cl.fn.name)
	}
	if nt.uncaught != nil {
		panic(goPanic{val: nt.uncaught.val, rtErr: nt.uncaught.rtErr})
	}
	return nt.result
}

func (e *Engine) loopTick() {}

// ---- running one path ----

type pathResult struct {
	kind string // ok, violation, bound, unsupported, infeasible, redundant
	msg  string
}

func (e *Engine) resetPath() {
	e.pc = e.pc[:0]
	e.vars, e.varSet = nil, map[*Term]bool{}
	e.names = map[string]int{}
	e.inputs = nil
	e.threads = nil
	for i := range e.stable {
		e.stable[i] = nil
	}
	e.globals = nil
	e.pathInit = map[*ssa.Package]int{}
	e.nextObj = 0
	e.mus, e.wgs, e.conds, e.atoms = map[*value]*mutexState{}, map[*value]*wgState{}, map[*value]*condState{}, map[*value]*atomState{}
	e.shadow = map[*value]*shadowCell{}
	e.events = e.events[:0]
	e.curSleep = nil
	e.pos = 0
	e.steps = 0
	e.multi = false
	e.procs = 2
	e.mapRev, e.mapOrd = false, false
	e.reached = map[string]bool{}
	e.obs = nil
	e.notes = map[string][][]value{}
	e.drained = false
	e.schedLog = nil
	e.violated = ""
	e.cur = nil
	e.lastThread, e.prePre = 0, 0
	e.hashMem = nil
	e.chans = 0
}

func (e *Engine) runPath(h *ssa.Function) (res pathResult) {
	e.resetPath()
	e.stats.Paths++
	defer func() {
		e.stats.Steps += int64(e.steps)
		if r := recover(); r != nil {
			ab, ok := r.(*abortPath)
			if !ok {
				if gp, ok := r.(goPanic); ok {
					res = pathResult{"unsupported", "panic outside a thread: " + e.valString(gp.val)}
					return
				}
				panic(r)
			}
			switch ab.kind {
			case abUnsupported, abUnknown:
				e.stats.Unsup++
				e.unsupMsg[ab.msg]++
				res = pathResult{"unsupported", ab.msg}
			case abBound:
				e.stats.Bound++
				e.boundMsg[ab.msg]++
				res = pathResult{"bound", ab.msg}
			case abInfeasible:
				res = pathResult{"infeasible", ab.msg}
			case abRedundant:
				e.stats.Redundant++
				res = pathResult{"redundant", ""}
			case abViolation:
				res = pathResult{"violation", ab.msg}
			default:
				res = pathResult{"internal", ab.msg}
			}
		}
	}()
	main := e.newThread("m", nil)
	e.cur = main
	e.invoke(main, &closure{fn: e.p.fn(h)}, nil, cont{kind: kEnd})
	e.schedule(main)
	for k := range e.reached {
		e.reachAll[k]++
	}
	return pathResult{kind: "ok"}
}

// timeCheck gives up the current path, and with it the instance, when time is up.
func (e *Engine) timeCheck() {
	if e.halt != nil && e.halt() {
		e.noMem = true
		e.abort(abBound, "time limit of the instance (solver)")
	}
}

// explore runs all paths (or until a limit); onViolation is called for each violating path.
func (e *Engine) explore(h *ssa.Function, stop func() bool, onPath func(pathResult) bool) (complete bool) {
	e.model = newModel()
	e.dec = nil
	for {
		r := e.runPath(h)
		if !onPath(r) {
			return false
		}
		if !e.backtrack() {
			return true
		}
		if stop() || e.noMem {
			return false
		}
	}
}

func (e *Engine) valString(v value) string {
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t.t, e.valString(x.v))
	case string:
		return strconv.Quote(x)
	case structure:
		var s []string
		for _, f := range x {
			s = append(s, e.valString(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	case *Term:
		return x.String()
	case *value:
		if x == nil {
			return "nil"
		}
		return "&" + e.valString(*x)
	}
	return fmt.Sprintf("%v", v)
}
