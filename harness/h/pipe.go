//go:build go1.21

package h

import (
	"context"
	"errors"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/sym"
)

// node kinds, as digits of the parameter "nodes"
const (
	nFin    = iota // Seq with a finalizer only
	nOrd           // Ord
	nSeq           // Seq
	nStrict        // StrictOrd
	nPar           // Par
	nLim           // LimitedPar(2)
	eOrd           // Ord, Par, StrictOrd, LimitedPar without receivers and finalizers
	ePar
	eStrict
	eLim
)

// bt is a batch after the first receiver.
type bt struct {
	lo, n, seq, stage int
}

// prun is one run of a pipeline and what its receivers see. The fields are not
// synchronized: the pipeline has to order the accesses.
type prun struct {
	p     pipeline.Pipeline
	n     int     // elements
	kinds []int   // of the stages (filters with a receiver)
	node  []int   // of the stages
	seen  [][]int // stage, batch: number of calls
	lo    []int   // batch: first element
	cnt   []int   // batch: number of elements
	next  []int   // stage: next batch of an ordered node
	busy  []bool  // node: a call is going on
	fin   []int   // finalizers called
	nfin  int     // finalizers expected
	ret   bool    // Run has returned
	calm  bool    // no cancellation, no error
	maxB  int
	hook  func(stage, seq int, end bool)
	fhook func(stage int)
}

func digits(d int) (r []int) {
	if d >= 10 {
		r = digits(d / 10)
	}
	return append(r, d%10)
}

func (r *prun) isOrd(s int) bool { return r.kinds[s] == nOrd || r.kinds[s] == nStrict }
func (r *prun) isSeq(s int) bool { return r.isOrd(s) || r.kinds[s] == nSeq }

func (r *prun) receive(s int) pipeline.Receiver {
	return func(seq int, data interface{}) interface{} {
		sym.Assert(!r.ret, "no receiver is called after Run has returned")
		sym.Assert(seq >= 0 && seq < r.maxB, "a sequence number is valid")
		b := &bt{seq: seq, stage: s + 1}
		if s == 0 {
			d, ok := data.([]int)
			sym.Assert(ok && len(d) > 0, "the first receiver gets the data of the source")
			b.lo, b.n = d[0], len(d)
			for i := range d {
				sym.Assert(d[i] == b.lo+i, "a batch holds successive elements of the source")
			}
			r.lo[seq], r.cnt[seq] = b.lo, b.n
		} else {
			a, ok := data.(*bt)
			sym.Assert(ok && a.stage == s, "a receiver gets what the previous receiver returned")
			sym.Assert(a.seq == seq, "all receivers of a batch see the same sequence number")
			b.lo, b.n = a.lo, a.n
		}
		sym.Assert(r.seen[s][seq] == 0, "a batch is passed to a receiver once")
		r.seen[s][seq]++
		if r.isOrd(s) {
			sym.Assert(seq == r.next[s], "an ordered node receives batches in encounter order, without gaps")
			r.next[s]++
		}
		if r.isSeq(s) {
			sym.Assert(!r.busy[r.node[s]], "calls of a sequential node do not overlap")
			r.busy[r.node[s]] = true
		}
		if r.hook != nil {
			r.hook(s, seq, false)
		}
		if r.isSeq(s) {
			r.busy[r.node[s]] = false
		}
		return b
	}
}

func (r *prun) finalize(f, s int) pipeline.Finalizer {
	r.nfin++
	return func() {
		sym.Assert(!r.ret, "finalizers are called before Run returns")
		sym.Assert(len(r.fin) == f, "finalizers are called once, in the order in which nodes were added")
		r.fin = append(r.fin, f)
		if r.calm {
			r.checkSeen(s)
		}
		// reading what the receivers wrote: they have to be done
		for i := 0; i < s; i++ {
			for q := 0; q < r.maxB; q++ {
				sym.Assert(r.seen[i][q] <= 1, "a batch is passed to a receiver once")
			}
		}
		if r.fhook != nil {
			r.fhook(f)
		}
	}
}

// checkSeen asserts that every element has passed the first s stages.
func (r *prun) checkSeen(s int) {
	if s == 0 {
		return
	}
	pos, q := 0, 0
	for pos < r.n {
		sym.Assert(q < r.maxB && r.seen[0][q] == 1, "every element is passed to every receiver before finalizers are called and Run returns")
		sym.Assert(r.lo[q] == pos && r.cnt[q] > 0, "batch k holds the data that directly follows batch k-1")
		for i := 1; i < s; i++ {
			sym.Assert(r.seen[i][q] == 1, "every element is passed to every receiver before finalizers are called and Run returns")
		}
		pos += r.cnt[q]
		q++
	}
	sym.Assert(pos == r.n, "batch k holds the data that directly follows batch k-1")
	for ; q < r.maxB; q++ {
		for i := 0; i < s; i++ {
			sym.Assert(r.seen[i][q] == 0, "a batch is passed to a receiver once")
		}
	}
}

// build makes the pipeline for the nodes with n elements.
func build(nodes, n int) *prun {
	r := &prun{n: n, calm: true, maxB: n + 2}
	var l []pipeline.Node
	shape := sym.P("shape")
	for pos, k := range digits(nodes) {
		var fs []pipeline.Filter
		switch {
		case k == nFin:
			fs = append(fs, pipeline.Finalize(r.finalize(r.nfin, len(r.kinds))))
		case k < eOrd:
			// the filters of the node: x receiver and finalizer, r receiver, f finalizer, i none
			filters := [...]string{"x", "xix", "rfff", "frixf", "rr"}[shape]
			s, end := len(r.kinds), len(r.kinds)
			for _, c := range filters {
				if c == 'x' || c == 'r' {
					end++
				}
			}
			for _, c := range filters {
				switch c {
				case 'x':
					fs = append(fs, pipeline.ReceiveAndFinalize(r.receive(s), r.finalize(r.nfin, end)))
				case 'r':
					fs = append(fs, pipeline.Receive(r.receive(s)))
				case 'f':
					fs = append(fs, pipeline.Finalize(r.finalize(r.nfin, end)))
				case 'i':
					fs = append(fs, pipeline.Identity)
				}
				if c == 'x' || c == 'r' {
					s++
					r.kinds = append(r.kinds, k)
					r.node = append(r.node, pos)
				}
			}
		default:
			fs = append(fs, pipeline.Identity)
		}
		switch k {
		case nOrd, eOrd:
			l = append(l, pipeline.Ord(fs...))
		case nSeq, nFin:
			l = append(l, pipeline.Seq(fs...))
		case nStrict, eStrict:
			l = append(l, pipeline.StrictOrd(fs...))
		case nPar, ePar:
			l = append(l, pipeline.Par(fs...))
		case nLim, eLim:
			l = append(l, pipeline.LimitedPar(2, fs...))
		}
	}
	if u := sym.P("user"); u > 0 {
		l = append(l[:u-1:u-1], append([]pipeline.Node{&userNode{}}, l[u-1:]...)...)
	}
	m := len(r.kinds)
	r.seen = make([][]int, m)
	for i := range r.seen {
		r.seen[i] = make([]int, r.maxB)
	}
	r.lo, r.cnt = make([]int, r.maxB), make([]int, r.maxB)
	r.next, r.busy = make([]int, m), make([]bool, len(digits(nodes)))
	r.p.Add(l...)
	return r
}

// userNode is a node of a user program that passes the data on.
type userNode struct {
	begun, ended bool
}

func (*userNode) TryMerge(pipeline.Node) bool { return false }

func (u *userNode) Begin(_ *pipeline.Pipeline, _ int, _ *int) bool {
	sym.Assert(!u.begun, "Begin is called once")
	u.begun = true
	return true
}

func (u *userNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	sym.Assert(u.begun && !u.ended, "Feed is called between Begin and End")
	p.FeedForward(index, seqNo, data)
}

func (u *userNode) End() {
	sym.Assert(u.begun && !u.ended, "End is called once")
	u.ended = true
}

func upto(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// source sets the source, with symbolic batch sizes for batches 0: 0 slice, 1 function of unknown size, 2 function with
// batches of any size, 3 channel
func (r *prun) source(kind, batches int) {
	switch kind {
	case 0:
		r.p.Source(upto(r.n))
		r.nofBatches(batches)
	case 1, 2:
		i := 0
		r.p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			sym.Assert(size > 0, "a positive number of elements is requested")
			if size > r.n-i {
				size = r.n - i
			}
			if kind == 2 && size > 1 {
				size = sym.Concrete(sym.IntIn("size"+itoa(i), 1, sym.Concrete(size)))
			}
			d := make([]int, size)
			for k := range d {
				d[k] = i + k
			}
			i += size
			return d, size, nil
		}))
		r.batchSize(batches)
	case 3:
		c := make(chan int, r.n)
		for i := 0; i < r.n; i++ {
			c <- i
		}
		close(c)
		r.p.Source(c)
		r.batchSize(batches)
	}
}

func (r *prun) nofBatches(b int) {
	if b == 0 {
		b = sym.Int("batches")
	}
	r.p.NofBatches(b)
}

func (r *prun) batchSize(b int) {
	if b == 0 {
		r.p.SetVariableBatchSize(sym.Int("inc"), sym.Int("max"))
		return
	}
	r.p.SetVariableBatchSize(1, b)
}

func (r *prun) run() {
	r.p.Run()
	r.ret = true
}

// Pipe: a run without cancellation (C21, C22, C23, C24, C25).
func Pipe() {
	r := build(sym.P("nodes"), sym.P("n"))
	r.source(sym.P("src"), sym.P("b"))
	r.run()
	r.checkSeen(len(r.kinds))
	sym.Assert(len(r.fin) == r.nfin, "every finalizer is called")
	sym.Assert(r.p.Err() == nil, "a run without an error leaves Err() == nil")
	for s := range r.kinds {
		sym.Assert(!r.busy[r.node[s]], "Run waits for receivers")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("ran")
}

var errStop = errors.New("stop")

// PipeCancel: a run that is stopped (C24, C25).
//
//	how 0: Cancel, 1: SetErr, 2: the context given to RunWithContext is cancelled, 3: its parent is
//	who 0: a receiver, 1: a finalizer, 2: the source, 3: another goroutine, 4: a filter, before the run, 5: the context is cancelled already
func PipeCancel() {
	how, who := sym.P("how"), sym.P("who")
	r := build(sym.P("nodes"), sym.P("n"))
	r.calm = false
	ctx, cancel := context.WithCancel(context.Background())
	pcancel := cancel
	if how == 3 {
		ctx, cancel = context.WithCancel(ctx)
	}
	first := false
	stop := func() {
		switch how {
		case 0:
			r.p.Cancel()
		case 1:
			first = r.p.SetErr(errStop)
		case 2:
			cancel()
		case 3:
			pcancel()
		}
	}
	m := len(r.kinds)
	switch who {
	case 0:
		at := sym.Choose("stage", m)
		sq := sym.Choose("batch", r.n)
		r.hook = func(s, seq int, end bool) {
			if s == at && seq == sq {
				stop()
			}
		}
	case 1:
		at := sym.Choose("finalizer", r.nfin)
		r.fhook = func(f int) {
			if f == at {
				stop()
			}
		}
	}
	r.source(sym.P("src"), sym.P("b"))
	if who == 2 {
		at := sym.Choose("fetch", r.n+1)
		i, k := 0, 0
		r.p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
			if k == at {
				stop()
			}
			k++
			if i == r.n {
				return nil, 0, nil
			}
			i++
			return []int{i - 1}, 1, nil
		}))
	}
	// the last node has a filter that is called before any goroutine of a later node
	r.p.Add(pipeline.Ord(func(*pipeline.Pipeline, pipeline.NodeKind, *int) (_ pipeline.Receiver, _ pipeline.Finalizer) {
		switch who {
		case 3:
			go stop()
		case 4:
			stop()
		}
		return
	}))
	if who == 5 {
		if how == 2 {
			cancel()
		} else {
			pcancel()
		}
	}
	if how >= 2 {
		r.p.RunWithContext(ctx, cancel)
	} else {
		r.p.Run()
	}
	if how != 1 {
		r.ret = true
		sym.Assert(len(r.fin) == r.nfin, "every finalizer is called, also in a cancelled run")
		sym.Assert(r.p.Err() == nil, "a run without an error leaves Err() == nil")
		for s := range r.kinds {
			sym.Assert(!r.busy[r.node[s]], "Run waits for receivers")
			for q := 0; q < r.maxB; q++ {
				sym.Assert(r.seen[s][q] <= 1, "a batch is passed to a receiver once")
			}
		}
	}
	if how >= 2 {
		cancel()
		pcancel()
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	if how == 1 {
		// now every call of stop has returned
		sym.Assert(r.p.Err() == nil || r.p.Err() == errStop, "Err returns the error that was set first")
		sym.Assert(!first || r.p.Err() == errStop, "Err returns the error that was set first")
		sym.Assert(first || who != 3, "the first SetErr call returns true")
		sym.Assert(!first || r.p.Context().Err() != nil, "the first error cancels the context")
	}
	sym.Reach("stopped")
}
