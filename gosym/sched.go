package main

import (
	"fmt"
	"strings"
)

// ---- vector clocks ----

type VC []uint32

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) copy() VC { return append(VC(nil), v...) }

func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

func (t *thread) acquire(o VC) { t.vc = t.vc.join(o) }
func (t *thread) inc()         { t.vc[t.id]++ }

// ---- bit sets ----

type bitset []uint64

func (b bitset) has(i int) bool { return i>>6 < len(b) && b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b bitset) set(i int) bitset {
	for len(b) <= i>>6 {
		b = append(b, 0)
	}
	b[i>>6] |= 1 << (uint(i) & 63)
	return b
}
func (b bitset) or(o bitset) bitset {
	for len(b) < len(o) {
		b = append(b, 0)
	}
	for i, w := range o {
		b[i] |= w
	}
	return b
}
func (b bitset) copy() bitset { return append(bitset(nil), b...) }
func (b bitset) count() int {
	n := 0
	for _, w := range b {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n
}

// ---- operations ----

type opKind uint8

const (
	opLock opKind = iota
	opLockWait
	opRLock
	opWGWait
	opWGAdd
	opCondWait
	opCondBlocked
	opSignal
	opBroadcast
	opSelect
	opClose
	opAtomic
	opDrain
	opYield
)

var opNames = [...]string{"Lock", "LockWait", "RLock", "WaitGroup.Wait", "WaitGroup.Add", "Cond.Wait", "Cond.blocked", "Signal", "Broadcast", "select", "close", "atomic", "Drain", "yield"}

type selCase struct {
	ch   *chanv
	send bool
	v    value
}

type visOp struct {
	kind   opKind
	cell   *value // mutex, waitgroup, cond, atomic cell
	cases  []selCase
	dflt   bool
	write  bool
	once   bool // idempotent close
	delta  int64
	apply  func() value                    // opAtomic
	store  bool                            // opAtomic: a plain store
	sval   any                             // its value if concrete
	finish func(cas int, v value, ok bool) // opSelect
	k      cont
	chk    int
	fresh  bool
	what   string
}

type mutexState struct {
	writer    *thread
	announced bool
	readers   int
	vc, rvc   VC
	relHB     bitset // of unlocks
	rrelHB    bitset // of runlocks
}
type wgState struct {
	n     int64
	vc    VC
	relHB bitset
}
type condWaiter struct {
	t        *thread
	signaled bool
	vc       VC
	hb       bitset
}
type condState struct {
	waiters []*condWaiter
}
type atomState struct {
	vc   VC
	last any
}

func (e *Engine) mu(p *value) *mutexState {
	m := e.mus[p]
	if m == nil {
		m = &mutexState{}
		e.mus[p] = m
	}
	return m
}
func (e *Engine) wg(p *value) *wgState {
	m := e.wgs[p]
	if m == nil {
		m = &wgState{}
		e.wgs[p] = m
	}
	return m
}
func (e *Engine) cd(p *value) *condState {
	m := e.conds[p]
	if m == nil {
		m = &condState{}
		e.conds[p] = m
	}
	return m
}

// ---- transitions and events ----

type trans struct {
	t, cas  int
	q, qcas int
}

func hasTrans(l []trans, x trans) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (x trans) involves(t int) bool { return x.t == t || x.q == t }

type accMode uint8

const (
	amLock accMode = iota
	amRLock
	amAdd
	amWait
	amCondWait
	amSignal
	amSend
	amRecv
	amClose
	amLoad
	amStore
)

type acc struct {
	obj  any
	mode accMode
	xfer bool
	sval any  // the value of a plain atomic store, if concrete
	seq  int  // nonzero: only case of an operation on a buffered channel; its number if positive
	cap  int  // of that channel
	blk  bool // receive with one case that does not end because the channel is closed
}

func conflict(a, b acc) bool {
	if a.obj != b.obj {
		return false
	}
	if a.sval != nil && a.sval == b.sval {
		return false // stores of the same value commute
	}
	if a.blk && b.mode == amClose || b.blk && a.mode == amClose {
		return false // they commute, or the receive is enabled by the close
	}
	switch a.mode {
	case amRLock, amAdd, amWait, amLoad, amSignal:
		return a.mode != b.mode
	case amSend, amRecv:
		if a.seq != 0 && b.seq != 0 && a.mode != b.mode && (b.mode == amSend || b.mode == amRecv) {
			// a send and a receive commute or are never enabled at the same time;
			// they are ordered if the first one enables the second one
			if a.seq < 0 || b.seq < 0 {
				return false
			}
			if a.mode == amSend { // later send
				return b.seq <= a.seq-a.cap
			}
			return b.seq <= a.seq
		}
		return !(a.mode == b.mode && !(a.xfer && b.xfer))
	}
	return true
}

func conflicts(as, bs []acc) bool {
	for _, a := range as {
		for _, b := range bs {
			if conflict(a, b) {
				return true
			}
		}
	}
	return false
}

type event struct {
	idx  int
	tr   trans
	ths  []int // stable ids
	accs []acc
	hb   bitset
	node int
}

// pendingAccs lists what the pending operation of t may touch; for a select all
// cases may transfer.
func (e *Engine) pendingAccs(t *thread) []acc { return e.opAccs(t.pending, -2) }

// opAccs: chosen case cas transfers; -2: every case may.
func (e *Engine) opAccs(o *visOp, cas int) []acc {
	switch o.kind {
	case opLock, opLockWait:
		return []acc{{o.cell, amLock, true, nil, 0, 0, false}}
	case opRLock:
		return []acc{{o.cell, amRLock, true, nil, 0, 0, false}}
	case opWGWait:
		return []acc{{o.cell, amWait, true, nil, 0, 0, false}}
	case opWGAdd:
		return []acc{{o.cell, amAdd, true, nil, 0, 0, false}}
	case opCondWait:
		return []acc{{o.cell, amCondWait, true, nil, 0, 0, false}}
	case opCondBlocked:
		return []acc{{e.condL(o.cell), amLock, true, nil, 0, 0, false}}
	case opSignal:
		return []acc{{o.cell, amCondWait, true, nil, 0, 0, false}}
	case opBroadcast:
		return []acc{{o.cell, amSignal, true, nil, 0, 0, false}}
	case opClose:
		return []acc{{o.cases[0].ch, amClose, true, nil, 0, 0, false}}
	case opAtomic:
		m := amLoad
		if o.write {
			m = amStore
		}
		return []acc{{o.cell, m, true, o.sval, 0, 0, false}}
	case opSelect:
		var as []acc
		for i, c := range o.cases {
			if c.ch == nil {
				continue
			}
			m := amRecv
			if c.send {
				m = amSend
			}
			x := cas == -2 || cas == i
			if x && cas == i && !c.send && c.ch.closed && len(c.ch.buf) == 0 {
				x = false
			}
			seq := 0
			if len(o.cases) == 1 && !o.dflt && c.ch.cap > 0 {
				seq = -1
			}
			blk := len(o.cases) == 1 && !o.dflt && !c.send
			as = append(as, acc{c.ch, m, x, nil, seq, c.ch.cap, blk})
		}
		return as
	}
	return nil
}

func (e *Engine) transAccs(tr trans) []acc {
	as := e.opAccs(e.stable[tr.t].pending, tr.cas)
	if tr.q >= 0 {
		as = append(as, e.opAccs(e.stable[tr.q].pending, tr.qcas)...)
	}
	return as
}

func (e *Engine) independent(a, b trans) bool {
	if a.involves(b.t) || (b.q >= 0 && a.involves(b.q)) {
		return false
	}
	return !conflicts(e.transAccs(a), e.transAccs(b))
}

// ---- threads ----

func (e *Engine) newThread(name string, parent *thread) *thread {
	sid, ok := e.byName[name]
	if !ok {
		sid = len(e.byName)
		e.byName[name] = sid
	}
	for len(e.stable) <= sid {
		e.stable = append(e.stable, nil)
	}
	t := &thread{id: len(e.threads), sid: sid, name: name}
	if parent != nil {
		t.vc = parent.vc.copy()
		t.hb = parent.hb.copy()
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	e.threads = append(e.threads, t)
	e.stable[sid] = t
	return t
}

func (e *Engine) spawn(t *thread, cl *closure, args []value) {
	if t.nested {
		e.unsupported("go statement in a nested call")
	}
	if cl == nil {
		e.rtPanic("go of nil func value")
	}
	n := t.nchild
	t.nchild++
	if len(e.threads) > 4000 {
		e.abort(abBound, "more than 4000 goroutines")
	}
	c := e.newThread(fmt.Sprintf("%s.%d", t.name, n), t)
	t.inc()
	e.multi = true
	prev := e.cur
	e.cur = c
	e.invoke(c, cl, args, cont{kind: kEnd})
	e.cur = prev
	e.run(c)
	e.ended(c)
}

func (e *Engine) ended(c *thread) {
	if c.done && c.uncaught != nil {
		e.violation("panic", "goroutine %s panics: %s (at %s)", c.name, e.panicString(c.uncaught.val), c.uncaught.pos)
	}
}

func (e *Engine) violation(kind, format string, args ...any) {
	e.violated = kind
	e.abort(abViolation, "%s: %s", kind, fmt.Sprintf(format, args...))
}

func (e *Engine) panicString(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		}
	}
	return e.valString(v)
}

func (e *Engine) pend(t *thread, o *visOp) {
	if t.nested {
		e.unsupported("visible operation %s in a nested call", opNames[o.kind])
	}
	o.fresh = true
	o.chk = 0
	t.pending = o
}

// ---- channels ----

func (e *Engine) newChan(n int, elem *rtype) *chanv {
	e.chans++
	return &chanv{id: e.chans, cap: n, elem: elem}
}

func (e *Engine) doClose(t *thread, ch value, k cont) {
	c, _ := ch.(*chanv)
	if c == nil {
		panic(goPanic{val: iface{e.p.errStr, "close of nil channel"}, rtErr: true})
	}
	e.pend(t, &visOp{kind: opClose, cases: []selCase{{ch: c}}, k: k})
}

func (e *Engine) visRecv(t *thread, ch *chanv, commaOk bool, k cont, r *rtype) {
	e.pend(t, &visOp{kind: opSelect, cases: []selCase{{ch: ch}}, finish: func(_ int, v value, ok bool) {
		if commaOk {
			e.deliver(t, k, tuple{v, ok})
		} else {
			e.deliver(t, k, v)
		}
	}})
}

func (e *Engine) visSend(t *thread, ch *chanv, v value, k cont) {
	e.pend(t, &visOp{kind: opSelect, cases: []selCase{{ch: ch, send: true, v: v}}, finish: func(_ int, _ value, _ bool) {
		e.deliver(t, k, nil)
	}})
}

func (e *Engine) visSelect(t *thread, fr *frame, c *ci) {
	o := &visOp{kind: opSelect, dflt: !c.flag}
	for i := range c.states {
		s := &c.states[i]
		ch, _ := fr.get(e, &s.ch).(*chanv)
		sc := selCase{ch: ch, send: s.dir == 1}
		if sc.send {
			sc.v = copyVal(fr.get(e, &s.send))
		}
		o.cases = append(o.cases, sc)
	}
	dst := c.dst
	elems := c.t.elems
	o.finish = func(cas int, v value, ok bool) {
		tp := make(tuple, len(elems))
		tp[0] = int64(cas)
		tp[1] = ok
		n := 2
		for i := range o.cases {
			if o.cases[i].send {
				continue
			}
			if i == cas {
				tp[n] = v
			} else {
				tp[n] = elems[n].mkZero()
			}
			n++
		}
		e.deliver(t, cont{kInstr, fr, dst}, tp)
	}
	e.pend(t, o)
}

// ---- enabledness ----

func (e *Engine) enabledOf(p *thread, out []trans) []trans {
	o := p.pending
	one := trans{p.sid, 0, -1, 0}
	switch o.kind {
	case opLock:
		m := e.mu(o.cell)
		if m.writer == nil && !m.announced && (o.write || m.readers == 0) {
			out = append(out, one)
		}
	case opLockWait:
		if e.mu(o.cell).readers == 0 {
			out = append(out, one)
		}
	case opRLock:
		m := e.mu(o.cell)
		if m.writer == nil && !m.announced {
			out = append(out, one)
		}
	case opWGWait:
		if e.wg(o.cell).n == 0 {
			out = append(out, one)
		}
	case opCondBlocked:
		for _, w := range e.cd(o.cell).waiters {
			if w.t == p && w.signaled {
				m := e.mu(e.condL(o.cell))
				if m.writer == nil && !m.announced && m.readers == 0 {
					out = append(out, one)
				}
			}
		}
	case opDrain:
	case opSelect:
		sure := false
		n0 := len(out)
		for i, c := range o.cases {
			ch := c.ch
			if ch == nil {
				continue
			}
			if c.send {
				if ch.closed || len(ch.buf) < ch.cap {
					out = append(out, trans{p.sid, i, -1, 0})
					sure = true
					continue
				}
				for _, q := range e.threads {
					if q == p || q.pending == nil || q.pending.kind != opSelect || (q.pending.dflt && o.dflt) {
						continue
					}
					if ch.cap > 0 {
						continue
					}
					for j, d := range q.pending.cases {
						if d.ch == ch && !d.send {
							out = append(out, trans{p.sid, i, q.sid, j})
						}
					}
				}
			} else if len(ch.buf) > 0 || ch.closed {
				out = append(out, trans{p.sid, i, -1, 0})
				sure = true
			}
		}
		_ = n0
		if o.dflt && !sure {
			out = append(out, trans{p.sid, -1, -1, 0})
		}
	default:
		out = append(out, one)
	}
	return out
}

func (e *Engine) enabledAll() []trans {
	var out []trans
	for _, t := range e.threads {
		if t.pending != nil && !t.done {
			out = e.enabledOf(t, out)
		}
	}
	return out
}

// ---- the scheduler loop ----

func (e *Engine) quiet() (*thread, bool) {
	var live *thread
	for _, t := range e.threads {
		if !t.done {
			if live != nil {
				return nil, false
			}
			live = t
		}
	}
	if live == nil {
		return nil, false
	}
	if len(e.events) > 0 && live.hb.count() != len(e.events) {
		return nil, false
	}
	if e.multi {
		for _, t := range e.threads {
			if t != live && live.vc.at(t.id) < t.vc.at(t.id) {
				return live, true
			}
		}
		e.multi = false
		e.shadow = map[*value]*shadowCell{}
	}
	return live, true
}

func (e *Engine) schedule(main *thread) {
	e.run(main)
	for {
		if main.done {
			if main.uncaught != nil {
				e.violation("panic", "the harness panics: %s (at %s)", e.panicString(main.uncaught.val), main.uncaught.pos)
			}
			e.checkNew()
			return
		}
		_, q := e.quiet()
		if q {
			// every event so far happened before what the only live thread does next
			e.events = e.events[:0]
			main.hb = main.hb[:0]
			for _, t := range e.threads {
				t.hb = t.hb[:0]
				if t.pending != nil {
					t.pending.chk = 0
				}
			}
			for _, m := range e.mus {
				m.relHB, m.rrelHB = nil, nil
			}
			for _, m := range e.wgs {
				m.relHB = nil
			}
		} else {
			e.checkNew()
		}
		en := e.enabledAll()
		if len(en) == 0 {
			if main.pending.kind == opDrain {
				o := main.pending
				for _, t := range e.threads {
					if t != main {
						main.acquire(t.vc)
					}
				}
				main.pending = nil
				e.drained = true
				e.schedLog = append(e.schedLog, "m/Drain")
				e.deliver(main, o.k, nil)
				e.run(main)
				continue
			}
			e.violation("deadlock", "%s", e.blockedString())
		}
		if q {
			tr := en[0]
			if len(en) > 1 {
				n := e.choose(len(en))
				if n > 0 || true {
					e.noteModel()
				}
				tr = en[n]
			}
			e.execute(tr, -1)
			continue
		}
		node, tr := e.pick(en)
		e.execute(tr, node)
	}
}

func (e *Engine) noteModel() {}

func (e *Engine) blockedString() string {
	var sb strings.Builder
	sb.WriteString("no goroutine can proceed:")
	for _, t := range e.threads {
		if !t.done {
			w := "?"
			if t.pending != nil {
				w = opNames[t.pending.kind]
			}
			fmt.Fprintf(&sb, " [%s: %s at %s]", t.name, w, t.repoWhere(e))
		}
	}
	return sb.String()
}

// repoWhere is the innermost position of t inside the repository.
func (t *thread) repoWhere(e *Engine) string {
	for fr := t.top; fr != nil; fr = fr.caller {
		if e.inRepo(fr.fn.f) {
			return fr.where()
		}
	}
	return t.where()
}

func (e *Engine) pick(en []trans) (int, trans) {
	if e.pos < len(e.dec) {
		d := e.dec[e.pos]
		if d.kind != dSched || !hasTrans(en, d.cur) {
			e.abort(abInternal, "nondeterministic replay: schedule")
		}
		e.pos++
		e.setSleep(d)
		e.prePre = d.pre + d.cost(d.cur)
		return e.pos - 1, d.cur
	}
	d := &decision{kind: dSched, enabled: en, sleep: e.curSleep, altModel: e.model, last: e.lastThread, pre: e.prePre}
	e.stats.Nodes++
	var first trans
	found := false
	if e.wantSched {
		if len(e.replaySched) == 0 {
			e.abort(abRedundant, "schedule exhausted")
		}
		w := e.replaySched[0]
		for _, tr := range en {
			if e.transString(tr) == w {
				first, found = tr, true
			}
		}
		if !found {
			e.abort(abRedundant, "schedule diverges: %s", w)
		}
		e.replaySched = e.replaySched[1:]
	}
	if !found {
		for _, tr := range en {
			if tr.involves(e.lastThread) && !hasTrans(d.sleep, tr) {
				first, found = tr, true
				break
			}
		}
	}
	if !found {
		for _, tr := range en {
			if !hasTrans(d.sleep, tr) && e.affordable(d, tr) {
				first, found = tr, true
				break
			}
		}
	}
	if !found {
		e.abort(abRedundant, "sleep")
	}
	e.prePre = d.pre + d.cost(first)
	d.cur = first
	if e.noDPOR {
		d.backtrack = en
		d.sleep = nil
	} else if len(en) > 1 && !e.wantSched {
		d.include(first)
	}
	e.dec = append(e.dec, d)
	e.pos++
	e.setSleep(d)
	return e.pos - 1, first
}

// cost is 1 if tr preempts a thread that could continue.
func (d *decision) cost(tr trans) int {
	if tr.involves(d.last) {
		return 0
	}
	for _, x := range d.enabled {
		if x.t == d.last {
			return 1
		}
	}
	return 0
}

func (e *Engine) affordable(d *decision, tr trans) bool {
	return e.preempt == 0 || d.pre+d.cost(tr) < e.preempt
}

// setSleep computes the sleep set after executing d.cur.
func (e *Engine) setSleep(d *decision) {
	if e.noDPOR {
		e.curSleep = nil
		return
	}
	var ns []trans
	for _, l := range [][]trans{d.sleep, d.done} {
		for _, tr := range l {
			if tr != d.cur && !hasTrans(ns, tr) && e.independent(tr, d.cur) {
				ns = append(ns, tr)
			}
		}
	}
	e.curSleep = ns
}

// checkNew compares pending operations with the trace and adds backtracking points.
func (e *Engine) checkNew() {
	if e.noDPOR || len(e.events) == 0 {
		return
	}
	fresh := e.pos >= len(e.dec)
	n := len(e.events)
	for _, t := range e.threads {
		o := t.pending
		if o == nil || t.done {
			continue
		}
		if fresh && o.chk < n {
			as := e.pendingAccs(t)
			for ai := range as {
				for i := n - 1; i >= o.chk; i-- {
					ev := e.events[i]
					if t.hb.has(i) {
						continue
					}
					if conflicts(as[ai:ai+1], ev.accs) {
						e.addBacktrack(ev, t)
						break
					}
				}
			}
		}
		o.chk = n
	}
}

// include adds tr to the transitions to explore, with all that compete for its threads.
func (d *decision) include(tr trans) {
	if hasTrans(d.backtrack, tr) {
		return
	}
	d.backtrack = append(d.backtrack, tr)
	for _, x := range d.enabled {
		if x.involves(tr.t) || tr.q >= 0 && x.involves(tr.q) {
			d.include(x)
		}
	}
}

func (e *Engine) addBacktrack(ev *event, p *thread) {
	if ev.node < 0 {
		return
	}
	if e.preempt > 0 {
		// the preemption may only be affordable where the thread of ev was switched to
		i := ev.idx
		for i > 0 && e.events[i-1].tr.t == ev.tr.t {
			i--
		}
		if i != ev.idx {
			e.addBacktrackAt(e.events[i], p)
		}
	}
	e.addBacktrackAt(ev, p)
}

func (e *Engine) addBacktrackAt(ev *event, p *thread) {
	if ev.node < 0 {
		return
	}
	d := e.dec[ev.node]
	add := d.include
	any := false
	for _, tr := range d.enabled {
		if tr.involves(p.sid) {
			add(tr)
			any = true
		}
	}
	if any {
		return
	}
	for _, tr := range d.enabled {
		in := func(q int) bool {
			for j := ev.idx + 1; j < len(e.events); j++ {
				if !p.hb.has(j) {
					continue
				}
				for _, x := range e.events[j].ths {
					if x == q {
						return true
					}
				}
			}
			return false
		}
		if in(tr.t) || (tr.q >= 0 && in(tr.q)) {
			add(tr)
			any = true
		}
	}
	if any {
		return
	}
	for _, tr := range d.enabled {
		add(tr)
	}
}

func (e *Engine) transString(tr trans) string {
	p := e.stable[tr.t]
	s := fmt.Sprintf("%s/%s", p.name, opNames[p.pending.kind])
	if p.pending.kind == opSelect {
		s += fmt.Sprintf("#%d", tr.cas)
	}
	if tr.q >= 0 {
		s += fmt.Sprintf(">%s#%d", e.stable[tr.q].name, tr.qcas)
	}
	return s
}

// execute performs the transition and runs its threads to their next visible operation.
func (e *Engine) execute(tr trans, node int) {
	p := e.stable[tr.t]
	o := p.pending
	e.schedLog = append(e.schedLog, e.transString(tr))
	var q *thread
	if tr.q >= 0 {
		q = e.stable[tr.q]
	}
	if node >= 0 {
		e.stats.Events++
		if len(e.events) >= maxEvents {
			e.abort(abBound, "more than %d operations on one path", maxEvents)
		}
		ev := &event{idx: len(e.events), tr: tr, ths: []int{tr.t}, accs: e.transAccs(tr), node: node}
		for i, a := range ev.accs {
			if a.seq != 0 || a.blk {
				ch := a.obj.(*chanv)
				switch {
				case ch.closed && (a.mode == amSend || len(ch.buf) == 0):
					ev.accs[i].seq = 0
					ev.accs[i].blk = false
				case ch.cap == 0:
				case a.mode == amSend:
					ev.accs[i].seq = ch.nsend + 1
				default:
					ev.accs[i].seq = len(ch.recvVC) + 1
				}
			}
		}
		ev.hb = p.hb.copy()
		if q != nil {
			ev.ths = append(ev.ths, tr.q)
			ev.hb = ev.hb.or(q.hb)
		}
		for i := len(e.events) - 1; i >= 0; i-- {
			x := e.events[i]
			if ev.hb.has(i) {
				continue
			}
			if conflicts(ev.accs, x.accs) {
				ev.hb = ev.hb.or(x.hb).set(i)
			}
		}
		switch o.kind {
		case opLock, opLockWait:
			ev.hb = ev.hb.or(e.mu(o.cell).relHB).or(e.mu(o.cell).rrelHB)
		case opRLock:
			ev.hb = ev.hb.or(e.mu(o.cell).relHB)
		case opWGWait:
			ev.hb = ev.hb.or(e.wg(o.cell).relHB)
		case opCondBlocked:
			m := e.mu(e.condL(o.cell))
			ev.hb = ev.hb.or(m.relHB).or(m.rrelHB)
			for _, w := range e.cd(o.cell).waiters {
				if w.t == p {
					ev.hb = ev.hb.or(w.hb)
				}
			}
		}
		e.events = append(e.events, ev)
		p.hb = ev.hb.copy().set(ev.idx)
		if q != nil {
			q.hb = p.hb.copy()
		}
	}
	e.lastThread = tr.t
	prev := e.cur
	e.cur = p
	p.pending = nil
	e.catch(p, func() { e.perform(p, o, tr, q) })
	e.cur = prev
	if p.pending == nil && !p.done {
		e.run(p)
	}
	e.ended(p)
	if q != nil {
		if q.pending == nil && !q.done {
			e.run(q)
		}
		e.ended(q)
	}
}

// catch turns a Go-level panic raised by an operation into a panic of t.
func (e *Engine) catch(t *thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				e.startPanic(t, gp.val, gp.rtErr)
				return
			}
			panic(r)
		}
	}()
	f()
}

func (e *Engine) perform(p *thread, o *visOp, tr trans, q *thread) {
	switch o.kind {
	case opLock:
		m := e.mu(o.cell)
		if m.readers > 0 {
			m.announced = true
			e.pend(p, &visOp{kind: opLockWait, cell: o.cell, k: o.k})
			return
		}
		m.writer = p
		p.acquire(m.vc)
		p.acquire(m.rvc)
		e.deliver(p, o.k, nil)
	case opLockWait:
		m := e.mu(o.cell)
		m.announced = false
		m.writer = p
		p.acquire(m.vc)
		p.acquire(m.rvc)
		e.deliver(p, o.k, nil)
	case opRLock:
		m := e.mu(o.cell)
		m.readers++
		p.acquire(m.vc)
		e.deliver(p, o.k, nil)
	case opWGWait:
		p.acquire(e.wg(o.cell).vc)
		e.deliver(p, o.k, nil)
	case opWGAdd:
		e.wgAdd(p, o.cell, o.delta)
		e.deliver(p, o.k, nil)
	case opCondWait:
		c := e.cd(o.cell)
		c.waiters = append(c.waiters, &condWaiter{t: p})
		e.unlock(p, e.condL(o.cell))
		e.pend(p, &visOp{kind: opCondBlocked, cell: o.cell, k: o.k})
	case opCondBlocked:
		c := e.cd(o.cell)
		for i, w := range c.waiters {
			if w.t == p {
				p.acquire(w.vc)
				c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
				break
			}
		}
		m := e.mu(e.condL(o.cell))
		m.writer = p
		p.acquire(m.vc)
		p.acquire(m.rvc)
		e.deliver(p, o.k, nil)
	case opSignal, opBroadcast:
		for _, w := range e.cd(o.cell).waiters {
			if !w.signaled {
				w.signaled = true
				w.vc = p.vc.copy()
				w.hb = p.hb.copy()
				if o.kind == opSignal {
					break
				}
			}
		}
		p.inc()
		e.deliver(p, o.k, nil)
	case opClose:
		ch := o.cases[0].ch
		if ch.closed {
			if o.once {
				e.deliver(p, o.k, nil)
				return
			}
			panic(goPanic{val: iface{e.p.errStr, "close of closed channel"}, rtErr: true})
		}
		ch.closed = true
		ch.clVC = p.vc.copy()
		p.inc()
		e.deliver(p, o.k, nil)
	case opAtomic:
		a := e.atoms[o.cell]
		if a == nil {
			a = &atomState{}
			e.atoms[o.cell] = a
		}
		if !o.store {
			p.acquire(a.vc)
		}
		v := o.apply()
		if o.write {
			if o.sval != nil && o.sval == a.last {
				a.vc = a.vc.join(p.vc) // a load may observe either store
			} else {
				a.vc = p.vc.copy()
			}
			a.last = o.sval
			p.inc()
		}
		e.deliver(p, o.k, v)
	case opYield:
		e.deliver(p, o.k, nil)
	case opSelect:
		if tr.cas < 0 {
			o.finish(-1, nil, false)
			return
		}
		c := o.cases[tr.cas]
		ch := c.ch
		if q != nil {
			qo := q.pending
			q.pending = nil
			p.acquire(q.vc)
			q.acquire(p.vc)
			p.inc()
			q.inc()
			o.finish(tr.cas, nil, false)
			qo.finish(tr.qcas, copyVal(c.v), true)
			return
		}
		if c.send {
			if ch.closed {
				panic(goPanic{val: iface{e.p.errStr, "send on closed channel"}, rtErr: true})
			}
			if ch.nsend >= ch.cap {
				p.acquire(ch.recvVC[ch.nsend-ch.cap])
			}
			ch.nsend++
			ch.buf = append(ch.buf, c.v)
			ch.bufVC = append(ch.bufVC, p.vc.copy())
			p.inc()
			o.finish(tr.cas, nil, false)
			return
		}
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			p.acquire(ch.bufVC[0])
			ch.buf, ch.bufVC = ch.buf[1:], ch.bufVC[1:]
			ch.recvVC = append(ch.recvVC, p.vc.copy())
			p.inc()
			o.finish(tr.cas, v, true)
			return
		}
		p.acquire(ch.clVC)
		o.finish(tr.cas, ch.elem.mkZero(), false)
	default:
		panic("perform")
	}
}

func (e *Engine) fatal(t *thread, msg string) {
	e.violation("fatal", "%s at %s", msg, t.repoWhere(e))
}

func (e *Engine) unlock(t *thread, cell *value) {
	m := e.mu(cell)
	if m.writer == nil {
		e.fatal(t, "unlock of unlocked mutex")
	}
	m.writer = nil
	m.vc = t.vc.copy()
	m.rvc = nil
	m.relHB = m.relHB.or(t.hb)
	t.inc()
}

func (e *Engine) runlock(t *thread, cell *value) {
	m := e.mu(cell)
	if m.readers == 0 {
		e.fatal(t, "RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.rvc = m.rvc.join(t.vc)
	m.rrelHB = m.rrelHB.or(t.hb)
	t.inc()
}

func (e *Engine) wgAdd(t *thread, cell *value, d int64) {
	w := e.wg(cell)
	w.n += d
	if w.n < 0 {
		panic(goPanic{val: iface{e.p.strT, "sync: negative WaitGroup counter"}})
	}
	if d < 0 {
		w.vc = w.vc.join(t.vc)
		w.relHB = w.relHB.or(t.hb)
		t.inc()
	}
}

// condL returns the cell of the mutex of the Cond at cell.
func (e *Engine) condL(cell *value) *value {
	s := (*cell).(structure)
	for _, f := range s {
		if i, ok := f.(iface); ok && i.t != nil {
			if p, ok := i.v.(*value); ok {
				return p
			}
		}
	}
	e.unsupported("Cond with this Locker")
	return nil
}

// ---- data races ----

type epoch struct {
	t  int32
	c  uint32
	at *ci
	fn *cfn
}

type shadowCell struct {
	w, aw epoch
	r     []epoch
	ar    []epoch
}

func (e *Engine) access(t *thread, p *value, write bool) {
	switch v := (*p).(type) {
	case structure:
		for i := range v {
			e.access(t, &v[i], write)
		}
		return
	case array:
		for i := range v {
			e.access(t, &v[i], write)
		}
		return
	}
	e.access1(t, p, write, false)
}

func (e *Engine) access1(t *thread, p *value, write, atomic bool) {
	if t == nil || t.nested && e.cur == nil {
		return
	}
	s := e.shadow[p]
	if s == nil {
		s = &shadowCell{w: epoch{t: -1}, aw: epoch{t: -1}}
		e.shadow[p] = s
	}
	me := int32(t.id)
	chk := func(x epoch, xw bool) {
		if x.t >= 0 && x.t != me && t.vc.at(int(x.t)) < x.c {
			e.race(t, x, write, xw)
		}
	}
	chk(s.w, true)
	if !atomic {
		chk(s.aw, true)
	}
	if write {
		for _, x := range s.r {
			chk(x, false)
		}
		if !atomic {
			for _, x := range s.ar {
				chk(x, false)
			}
		}
	}
	fr := t.top
	ep := epoch{t: me, c: t.vc[me]}
	if fr != nil {
		b := &fr.fn.blocks[fr.block]
		if fr.pc < len(b.code) {
			ep.at, ep.fn = &b.code[fr.pc], fr.fn
		}
	}
	upd := func(l []epoch) []epoch {
		for i := range l {
			if l[i].t == me {
				l[i] = ep
				return l
			}
		}
		return append(l, ep)
	}
	switch {
	case write && atomic:
		s.aw = ep
	case write:
		s.w = ep
		s.r, s.ar = s.r[:0], s.ar[:0]
	case atomic:
		s.ar = upd(s.ar)
	default:
		s.r = upd(s.r)
	}
}

func (x epoch) where() string {
	if x.at == nil {
		return "?"
	}
	if p := x.at.ins.Pos(); p.IsValid() {
		pp := x.fn.f.Prog.Fset.Position(p)
		return fmt.Sprintf("%s:%d", shortPath(pp.Filename), pp.Line)
	}
	return x.fn.name
}

func (e *Engine) race(t *thread, x epoch, write, xw bool) {
	rw := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	o := "?"
	if int(x.t) < len(e.threads) {
		o = e.threads[x.t].name
	}
	e.violation("race", "data race: %s by %s at %s and %s by %s at %s", rw(write), t.name, t.stackString(), rw(xw), o, x.where())
}
