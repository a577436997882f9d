//go:build go1.21

package h

import (
	"context"
	"sync"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/sym"
)

// node kinds of Setup besides nFin..nLim
const (
	uKeep = 6 // node of the user program
	uDrop = 7 // node of the user program whose Begin returns false
	wOrd  = 8 // NewNode(Ordered)
	wPar  = 9 // NewNode(Parallel)
)

// protoSource is a Source that checks how it is called.
type protoSource struct {
	s         *setupRun
	size, n   int
	prepared  bool
	pending   bool
	exhausted bool
	next      int
	decoy     bool
	err       error
}

func (src *protoSource) Err() error {
	return src.err
}

func (src *protoSource) Prepare(ctx context.Context) int {
	sym.Assert(!src.decoy, "only the source that was set last is used")
	sym.Assert(!src.prepared, "Prepare is called once")
	sym.Assert(src.s.filters == 0 && src.s.begun == 0, "Prepare is called before filters and Begin are")
	sym.Assert(ctx == src.s.ctx, "Prepare gets the context of the run")
	src.prepared = true
	return src.size
}

func (src *protoSource) Fetch(size int) int {
	s := src.s
	sym.Assert(!src.decoy, "only the source that was set last is used")
	sym.Assert(src.prepared, "Fetch is called after Prepare")
	sym.Assert(size > 0, "a positive number of elements is requested")
	sym.Assert(!src.exhausted, "Fetch is not called again after it has returned 0")
	sym.Assert(s.filters == s.nfilters && s.begun == s.nuser, "all filters and Begin methods are called before the first Fetch")
	sym.Assert(!src.pending, "Data is called after Fetch")
	if src.next == src.n {
		src.exhausted = true
		return 0
	}
	src.next++
	src.pending = true
	return 1
}

func (src *protoSource) Data() interface{} {
	sym.Assert(src.pending, "Data is called once after a successful Fetch")
	src.pending = false
	return []int{src.next - 1}
}

type setupRun struct {
	p        pipeline.Pipeline
	ctx      context.Context
	size     int // as expected by the next filter
	filters  int // called
	nfilters int
	begun    int // nodes of the user program
	nuser    int
	ended    int // finalizers and End methods
	nend     int
	mu       sync.Mutex
	seen     [][]int // stage, batch
	allSeq   bool
	n        int
	bad      bool // the Begin of a filter sets an error
	canc     int
}

func (s *setupRun) resize(k int) int {
	if sym.Bool("set" + itoa(k)) {
		s.size = sym.Int("size" + itoa(k))
	}
	return s.size
}

func (s *setupRun) pass(st, seq int, data interface{}) {
	d, ok := data.([]int)
	sym.Assert(ok && len(d) == 1 && d[0] == seq, "a batch reaches the node after FeedForward with its data and sequence number")
	s.mu.Lock()
	for i := 0; i < st; i++ {
		sym.Assert(s.seen[i][seq] == 1, "a batch passes nodes and receivers in the order in which they were added")
	}
	sym.Assert(s.seen[st][seq] == 0, "a batch passes a node once")
	s.seen[st][seq]++
	s.mu.Unlock()
}

func (s *setupRun) stage() int {
	s.seen = append(s.seen, make([]int, s.n))
	return len(s.seen) - 1
}

func (s *setupRun) finalizer() pipeline.Finalizer {
	e := s.nend
	s.nend++
	return func() {
		sym.Assert(s.ended == e, "finalizers and End methods are called once, in order")
		s.ended++
	}
}

// filter makes a filter: what 0: receiver and finalizer, 1: receiver, 2: finalizer, 3: neither
func (s *setupRun) filter(kind, what int) pipeline.Filter {
	k := s.nfilters
	s.nfilters++
	var rec pipeline.Receiver
	var fin pipeline.Finalizer
	if what < 2 {
		st := s.stage()
		rec = func(seq int, data interface{}) interface{} {
			s.pass(st, seq, data)
			return data
		}
	}
	if what%2 == 0 {
		fin = s.finalizer()
	}
	return func(p *pipeline.Pipeline, nk pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
		sym.Assert(p == &s.p, "a filter gets its pipeline")
		sym.Assert(s.filters == k, "filters are called once, in the order in which they were added")
		s.filters++
		sym.Assert(p.Context() == s.ctx, "Context returns the context of the run")
		switch kind {
		case nPar, nLim, wPar:
			sym.Assert(nk == pipeline.Parallel, "a filter gets the kind of its node")
		case nOrd, nStrict, wOrd:
			sym.Assert(nk == pipeline.Ordered, "a filter gets the kind of its node")
		default:
			sym.Assert(nk == pipeline.Sequential || !s.allSeq && nk == pipeline.Ordered, "a filter gets the kind of its node")
		}
		sym.Assert(*size == s.size, "a filter gets the size announced by the source and the filters before it")
		*size = s.resize(k)
		return rec, fin
	}
}

// setupNode is a node of a user program.
type setupNode struct {
	s            *setupRun
	k, st        int
	drop         bool
	begun, ended bool
	end          pipeline.Finalizer
}

func (u *setupNode) TryMerge(pipeline.Node) bool { return false }

func (u *setupNode) Begin(p *pipeline.Pipeline, index int, size *int) bool {
	s := u.s
	sym.Assert(p == &s.p && index >= 0, "Begin gets the pipeline and an index")
	sym.Assert(!u.begun, "Begin is called once")
	sym.Assert(s.filters == u.k, "Begin is called after the filters of earlier nodes and before those of later ones")
	sym.Assert(*size == s.size, "Begin gets the size announced by the source and the filters before it")
	*size = s.resize(100 + s.begun)
	u.begun = true
	s.begun++
	return !u.drop
}

func (u *setupNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	sym.Assert(u.begun && !u.drop && !u.ended, "Feed is called between Begin and End, unless Begin returned false")
	sym.Assert(p == &u.s.p, "Feed gets the pipeline")
	u.s.pass(u.st, seqNo, data)
	p.FeedForward(index, seqNo, data)
}

func (u *setupNode) End() {
	sym.Assert(u.begun && !u.drop && !u.ended, "End is called once, unless Begin returned false")
	u.ended = true
	u.end()
}

// Setup: how a pipeline calls its source, its filters and its nodes (C33).
// add: 0 all nodes in one call, 1 one after the other, 2 first one, then the others
func Setup() {
	s := &setupRun{n: sym.P("n"), allSeq: true}
	var l []pipeline.Node
	for pos, k := range digits(sym.P("nodes")) {
		if k != nSeq && k != nFin {
			s.allSeq = false
		}
		switch k {
		case uKeep:
			l = append(l, &setupNode{s: s, k: s.nfilters, st: s.stage(), end: s.finalizer()})
			s.nuser++
			continue
		case uDrop:
			l = append(l, &setupNode{s: s, k: s.nfilters, drop: true})
			s.nuser++
			continue
		}
		var fs []pipeline.Filter
		what := [...][]int{{0}, {3}, {2, 1}, {1, 3, 0}, {2}}[(sym.P("shape")+pos)%5]
		if k == nFin {
			what = []int{2}
		}
		for _, w := range what {
			fs = append(fs, s.filter(k, w))
		}
		switch k {
		case nOrd:
			l = append(l, pipeline.Ord(fs...))
		case nSeq, nFin:
			l = append(l, pipeline.Seq(fs...))
		case nStrict:
			l = append(l, pipeline.StrictOrd(fs...))
		case nPar:
			l = append(l, pipeline.Par(fs...))
		case nLim:
			l = append(l, pipeline.LimitedPar(2, fs...))
		case wOrd:
			l = append(l, pipeline.NewNode(pipeline.Ordered, fs...))
		case wPar:
			l = append(l, pipeline.NewNode(pipeline.Parallel, fs...))
		}
	}
	s.size = sym.Int("size")
	src := &protoSource{s: s, size: s.size, n: s.n}
	if sym.P("add") > 0 {
		s.p.Source(&protoSource{s: s, decoy: true})
	}
	switch sym.P("add") {
	case 0:
		s.p.Add(l...)
	case 1:
		for _, x := range l {
			s.p.Add(x)
		}
	case 2:
		s.p.Add(l[0])
		s.p.Add()
		s.p.Add(l[1:]...)
	}
	s.p.Source(src)
	ctx, cancel := context.WithCancel(context.Background())
	s.ctx = ctx
	s.p.RunWithContext(ctx, func() { s.canc++; cancel() })
	sym.Assert(s.canc == 0 && ctx.Err() == nil, "a run that is not cancelled leaves its context alone")
	sym.Assert(s.p.Err() == nil, "a run without an error leaves Err() == nil")
	sym.Assert(s.filters == s.nfilters && s.begun == s.nuser, "all filters and Begin methods are called")
	sym.Assert(s.ended == s.nend, "all finalizers and End methods are called")
	stages := len(s.seen) > 0
	for i := range s.seen {
		for q := 0; q < s.n; q++ {
			sym.Assert(s.seen[i][q] == 1, "every batch passes every node")
		}
	}
	sym.Assert(!stages || src.exhausted, "the source is read until it is exhausted")
	s.p.Cancel()
	sym.Assert(s.canc == 1 && ctx.Err() != nil, "Cancel calls the cancel function of the run")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("ran")
}

// Compose: ComposeFilters (C33).
func Compose() {
	s := &setupRun{n: 1, allSeq: true}
	m := sym.P("m")
	kind := pipeline.NodeKind(sym.P("kind"))
	var fs []pipeline.Filter
	var recs, fins []int // the expected functions
	for i := 0; i < m; i++ {
		i := i
		hasR, hasF := sym.Bool("r"+itoa(i)), sym.Bool("f"+itoa(i))
		fs = append(fs, func(p *pipeline.Pipeline, k pipeline.NodeKind, size *int) (rec pipeline.Receiver, fin pipeline.Finalizer) {
			sym.Assert(p == &s.p && k == kind, "a filter gets the given arguments")
			sym.Assert(s.filters == i, "filters are called once, in order")
			s.filters++
			sym.Assert(*size == s.size, "a filter gets the size left by the previous one")
			*size = s.resize(i)
			if hasR {
				recs = append(recs, i)
				rec = func(seq int, data interface{}) interface{} { return 10*seq + i }
			}
			if hasF {
				fins = append(fins, i)
				fin = func() { s.ended = i }
			}
			return
		})
	}
	size := sym.Int("size")
	s.size = size
	r, f := pipeline.ComposeFilters(&s.p, kind, &size, fs)
	sym.Assert(s.filters == m && size == s.size, "filters are called once, in order")
	sym.Assert(len(r) == len(recs) && len(f) == len(fins), "nil receivers and finalizers are left out, others are not")
	for i := range r {
		sym.Assert(r[i] != nil && r[i](7, nil) == 70+recs[i], "receivers are returned in order")
	}
	for i := range f {
		s.ended = -1
		f[i]()
		sym.Assert(s.ended == fins[i], "finalizers are returned in order")
	}
	rec, fin := pipeline.Identity(&s.p, kind, &size)
	sym.Assert(rec == nil && fin == nil && size == s.size, "Identity adds nothing and changes no size")
	sym.Reach("composed")
}

// shuffleNode is a node of a user program that holds its batches back and passes
// them on in another order when it has got all of them, or when it ends.
type shuffleNode struct {
	n, order  int
	p         *pipeline.Pipeline
	index     int
	at        []int
	data      []interface{}
	forwarded bool
}

func (*shuffleNode) TryMerge(pipeline.Node) bool { return false }

func (*shuffleNode) Begin(_ *pipeline.Pipeline, _ int, _ *int) bool { return true }

func (u *shuffleNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	u.p, u.index = p, index
	u.at = append(u.at, seqNo)
	u.data = append(u.data, data)
	if len(u.at) == u.n && u.order%2 == 0 {
		u.forward()
	}
}

func (u *shuffleNode) forward() {
	u.forwarded = true
	n := len(u.at)
	pass := func(i int) { u.p.FeedForward(u.index, u.at[i], u.data[i]) }
	switch u.order / 2 {
	case 0: // reversed
		for i := n - 1; i >= 0; i-- {
			pass(i)
		}
	case 1: // the first one last
		for i := 1; i <= n; i++ {
			pass(i % n)
		}
	case 2: // odd ones first
		for i := 1; i < n; i += 2 {
			pass(i)
		}
		for i := 0; i < n; i += 2 {
			pass(i)
		}
	case 3: // rotated by any distance
		k := sym.Choose("rot", n)
		for i := 0; i < n; i++ {
			pass((i + k) % n)
		}
	case 4: // any two exchanged
		a, b := sym.Choose("a", n), sym.Choose("b", n)
		for i := 0; i < n; i++ {
			switch i {
			case a:
				pass(b)
			case b:
				pass(a)
			default:
				pass(i)
			}
		}
	case 5: // the last one first, in blocks of three
		for i := 0; i < n; i += 3 {
			for j := i + 2; j >= i; j-- {
				if j < n {
					pass(j)
				}
			}
		}
	}
}

func (u *shuffleNode) End() {
	if len(u.at) > 0 && !u.forwarded {
		u.forward()
	}
}

// Shuffle: many batches overtake each other (C22).
// what 0: Ord, 1: Ord with two filters, 2: Limit and Ord, 3: Skip, 4: Ord, a second shuffle, Ord
func Shuffle() {
	n, what := sym.P("n"), sym.P("what")
	var p pipeline.Pipeline
	p.Source(upto(n))
	p.NofBatches(n)
	var got []int
	nextSeq := 0
	ended := false
	rec := pipeline.Receive(func(seq int, data interface{}) interface{} {
		sym.Assert(seq == nextSeq, "an ordered node receives batches in encounter order, without gaps")
		nextSeq++
		if data != nil {
			got = append(got, data.([]int)...)
		}
		return data
	})
	fin := pipeline.Finalize(func() { ended = true })
	lo, hi := 0, n
	next2 := 0
	second := pipeline.Receive(func(seq int, data interface{}) interface{} {
		sym.Assert(seq == next2, "an ordered node receives batches in encounter order, without gaps")
		next2++
		return data
	})
	p.Add(&shuffleNode{n: n, order: sym.P("order")})
	switch what {
	case 0:
		p.Add(pipeline.Ord(rec, fin))
		next2 = n
	case 1:
		p.Add(pipeline.Ord(rec, fin, second))
	case 2:
		hi = sym.Choose("limit", n+1)
		p.Add(pipeline.Limit(hi, false), pipeline.Ord(second, rec, fin))
	case 3:
		lo = sym.Choose("skip", n+1)
		p.Add(pipeline.Skip(lo), pipeline.Ord(rec), pipeline.Ord(fin, second))
	case 4:
		p.Add(pipeline.Ord(rec, fin), &shuffleNode{n: n, order: sym.P("order") / 2 * 2}, pipeline.Ord(second))
	}
	p.Run()
	sym.Assert(ended && nextSeq == n && next2 == n, "every batch is passed to every receiver before Run returns")
	sym.Assert(len(got) == hi-lo, "every element is delivered once")
	for i, x := range got {
		sym.Assert(x == lo+i, "an ordered node receives the data in encounter order")
	}
	sym.Reach("ran")
}
