//go:build go1.21

package h

import (
	"context"
	"errors"
	"io"
	"runtime"
	"strings"

	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/zz_verif/sym"
)

// makeNode makes a node of a kind.
func makeNode(k int, fs ...pipeline.Filter) pipeline.Node {
	switch k {
	case nOrd:
		return pipeline.Ord(fs...)
	case nSeq:
		return pipeline.Seq(fs...)
	case nStrict:
		return pipeline.StrictOrd(fs...)
	case nPar:
		return pipeline.Par(fs...)
	case nLim:
		return pipeline.LimitedPar(2, fs...)
	case 6:
		return pipeline.LimitedPar(1, fs...)
	case 7:
		return pipeline.NewNode(pipeline.Ordered, fs...)
	case 8:
		return pipeline.NewNode(pipeline.Sequential, fs...)
	case 9:
		return pipeline.NewNode(pipeline.Parallel, fs...)
	}
	panic("makeNode")
}

func kindIsOrdered(k int) bool { return k == nOrd || k == nStrict || k == 7 }

// intSource sets a source with the elements 0..n-1.
//
//	0 slice, 1 function of unknown size with growing batches, 2 function of unknown
//	size with batches of any size, 3 channel, 4 function of known size with batches
//	of any size up to the requested one, 5 array, 6 function with batches of one
//	element whose arrays continue
//
// The result checks that the source is unmodified.
func intSource(p *pipeline.Pipeline, kind, n, b int) (same func()) {
	same = nop
	nof := func() {
		if b == 0 {
			p.NofBatches(sym.Int("batches"))
		} else {
			p.NofBatches(b)
		}
	}
	variable := func() {
		if b == 0 {
			p.SetVariableBatchSize(sym.Int("inc"), sym.Int("max"))
		} else {
			p.SetVariableBatchSize(1, b)
		}
	}
	switch kind {
	case 0:
		all := upto(n)
		p.Source(all)
		nof()
		same = func() {
			for i, x := range all {
				sym.Assert(x == i, "the source is not modified")
			}
		}
	case 6:
		all := make([]int, 2*n)
		for i := range all {
			all[i] = i / 2
			if i%2 == 1 {
				all[i] = -9
			}
		}
		variable()
		i := 0
		p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
			if i == n {
				return nil, 0, nil
			}
			i++
			return all[2*i-2 : 2*i-1], 1, nil
		}))
		same = func() {
			for i := 0; i < n; i++ {
				sym.Assert(all[2*i] == i && all[2*i+1] == -9, "batches are not modified")
			}
		}
	case 5:
		switch n {
		case 0:
			p.Source([0]int{})
		case 1:
			p.Source([1]int{0})
		case 2:
			p.Source([2]int{0, 1})
		case 3:
			p.Source([3]int{0, 1, 2})
		case 4:
			p.Source([4]int{0, 1, 2, 3})
		case 5:
			p.Source([5]int{0, 1, 2, 3, 4})
		}
		nof()
	case 1, 2, 4:
		i := 0
		sz := -1
		if kind == 4 {
			sz = n
			nof()
		} else {
			variable()
		}
		p.Source(pipeline.NewFunc(sz, func(size int) (interface{}, int, error) {
			sym.Assert(size > 0, "a positive number of elements is requested")
			if size > n-i {
				size = n - i
			}
			if kind != 1 && size > 1 {
				size = sym.Concrete(sym.IntIn("size"+itoa(i), 1, sym.Concrete(size)))
			}
			d := make([]int, size)
			for k := range d {
				d[k] = i + k
			}
			i += size
			return d, size, nil
		}))
	case 3:
		c := make(chan int, n)
		for i := 0; i < n; i++ {
			c <- i
		}
		close(c)
		p.Source(c)
		variable()
	}
	return
}

// tail collects what arrives at the end.
type tail struct {
	size  int // announced
	got   []int
	str   string
	next  int
	began bool
}

func (t *tail) filter(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
	t.size = *size
	t.began = true
	return func(seq int, data interface{}) interface{} {
		sym.Assert(seq == t.next, "an ordered node receives batches in encounter order, without gaps")
		t.next++
		switch d := data.(type) {
		case nil:
		case []int:
			t.got = append(t.got, d...)
		case string:
			t.str += d
		default:
			sym.Fail("a batch has another type than the data of the source")
		}
		return data
	}, nil
}

// Prefix: Limit and Skip (C31).
//
//	ops: digits 1 Limit, 2 Skip, 3 a parallel node that passes the data on
//	cancel: Limit cancels when it is reached
//	str: the source is a string
func Prefix() {
	n := sym.P("n")
	var p pipeline.Pipeline
	if sym.P("str") == 1 {
		p.Source("abcdefghij"[:n])
		if b := sym.P("b"); b == 0 {
			p.NofBatches(sym.Int("batches"))
		} else {
			p.NofBatches(b)
		}
	} else {
		intSource(&p, sym.P("src"), n, sym.P("b"))
	}
	lo, hi, bad := 0, n, false
	for i, op := range digits(sym.P("ops")) {
		switch op {
		case 1:
			a := sym.Int("a" + itoa(i))
			p.Add(pipeline.Limit(a, sym.P("cancel") == 1))
			if a >= 0 && a < hi-lo {
				hi = lo + sym.Concrete(a)
			}
		case 2:
			a := sym.Int("a" + itoa(i))
			p.Add(pipeline.Skip(a))
			if a < 0 {
				bad = true
			} else if a > hi-lo {
				lo = hi
			} else {
				lo += sym.Concrete(a)
			}
		case 3:
			p.Add(pipeline.Par(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
		}
	}
	var t tail
	p.Add(pipeline.Ord(t.filter))
	p.Run()
	if bad {
		sym.Assert(p.Err() != nil, "a negative skip sets an error")
		sym.Drain()
		sym.Assert(len(t.got) == 0 && t.str == "", "a negative skip passes nothing")
		sym.Assert(t.size <= 0, "the announced size is exact or negative")
		sym.Reach("negative")
		return
	}
	sym.Assert(p.Err() == nil, "a run without an error leaves Err() == nil")
	sym.Assert(t.began, "the pipeline runs")
	if sym.P("str") == 1 {
		sym.Assert(t.str == "abcdefghij"[lo:hi], "exactly the elements between Skip and Limit arrive, in encounter order")
	} else {
		sym.Assert(len(t.got) == hi-lo, "exactly the elements between Skip and Limit arrive")
		for i, x := range t.got {
			sym.Assert(x == lo+i, "exactly the elements between Skip and Limit arrive, in encounter order")
		}
	}
	sym.Assert(t.size < 0 || t.size == hi-lo, "the announced size is exact or negative")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("ran")
}

// pre adds what comes before a collecting filter: digits 1 Limit, 2 Skip, 3 Par,
// 4 a receiver that drops batches (for unknown sizes); window of what arrives.
func pre(p *pipeline.Pipeline, ops, n int) (lo, hi int) {
	hi = n
	for i, op := range digits(ops) {
		switch op {
		case 1, 2:
			a := sym.Concrete(sym.IntIn("a"+itoa(i), 0, n+1))
			if op == 1 {
				p.Add(pipeline.Limit(a, false))
				if a < hi-lo {
					hi = lo + a
				}
			} else {
				p.Add(pipeline.Skip(a))
				lo += a
				if lo > hi {
					lo = hi
				}
			}
		case 3:
			p.Add(pipeline.Par(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
		}
	}
	return
}

// Collect: Slice and Count (C30).
func Collect() {
	n, kind := sym.P("n"), sym.P("kind")
	var p pipeline.Pipeline
	same := intSource(&p, sym.P("src"), n, sym.P("b"))
	lo, hi := pre(&p, sym.P("ops"), n)
	// the batches, as they arrive at the filters
	first := make([]int, n+2)
	size := make([]int, n+2)
	p.Add(makeNode(kind, pipeline.Receive(func(seq int, data interface{}) interface{} {
		if data != nil {
			if d := data.([]int); len(d) > 0 {
				first[seq], size[seq] = d[0], len(d)
			}
		}
		return data
	})))
	res := []int{-7, -8}[:sym.Choose("old", 3)]
	old := append([]int{}, res...)
	cnt := sym.Int("count")
	switch sym.P("what") {
	case 0:
		p.Add(makeNode(kind, pipeline.Slice(&res)))
	case 1:
		p.Add(makeNode(kind, pipeline.Count(&cnt)))
	case 2:
		p.Add(makeNode(kind, pipeline.Slice(&res), pipeline.Count(&cnt)))
	}
	var t tail
	p.Add(pipeline.Ord(t.filter))
	p.Run()
	same()
	sym.Assert(p.Err() == nil, "a run without an error leaves Err() == nil")
	sym.Assert(len(t.got) == hi-lo, "the filters pass the data on")
	for i, x := range t.got {
		sym.Assert(x == lo+i, "the filters pass the data on")
	}
	if sym.P("what") != 0 {
		sym.Assert(cnt == hi-lo, "Count sets its result to the number of elements")
	}
	if sym.P("what") != 1 {
		sym.Assert(len(res) == len(old)+hi-lo, "Slice appends exactly the elements")
		for i, x := range old {
			sym.Assert(res[i] == x, "Slice keeps what the slice contains")
		}
		got := res[len(old):]
		if kindIsOrdered(kind) {
			for i, x := range got {
				sym.Assert(x == lo+i, "Slice appends in encounter order")
			}
		} else {
			seen := make([]bool, n+2)
			for i := 0; i < len(got); {
				q := 0
				for q < len(first) && (size[q] == 0 || first[q] != got[i]) {
					q++
				}
				sym.Assert(q < len(first) && !seen[q], "Slice appends whole batches, once")
				seen[q] = true
				for k := 0; k < size[q]; k++ {
					sym.Assert(i < len(got) && got[i] == first[q]+k, "Slice appends whole batches")
					i++
				}
			}
		}
	}
	sym.Reach("ran")
}

// BadSlice: Slice with something that is not a settable slice (C30).
func BadSlice() {
	n, kind := sym.P("n"), sym.P("kind")
	var p pipeline.Pipeline
	intSource(&p, sym.P("src"), n, 2)
	called := 0
	p.Add(makeNode(kind, pipeline.Receive(func(_ int, data interface{}) interface{} { called++; return data })))
	var i int
	var a [4]int
	var s string
	var m map[string]int
	var st struct{ x []int }
	var nilp *[]int
	var f pipeline.Filter
	switch sym.Choose("what", 6) {
	case 0:
		f = pipeline.Slice(&i)
	case 1:
		f = pipeline.Slice(&a)
	case 2:
		f = pipeline.Slice(&s)
	case 3:
		f = pipeline.Slice(&m)
	case 4:
		f = pipeline.Slice(&st)
	case 5:
		f = pipeline.Slice(nilp)
	}
	p.Add(makeNode(kind, f))
	p.Run()
	sym.Assert(p.Err() != nil, "Slice of something else than a slice sets the error")
	sym.Drain()
	sym.Assert(called == 0, "the pipeline does not run")
	sym.Reach("failed")
}

// Quant: Every, NotEvery, Some, NotAny (C29).
func Quant() {
	n, kind, what, cancel := sym.P("n"), sym.P("kind"), sym.P("what"), sym.P("cancel") == 1
	var p pipeline.Pipeline
	intSource(&p, sym.P("src"), n, sym.P("b"))
	vals := make([]bool, n)
	for i := range vals {
		vals[i] = sym.Bool("v" + itoa(i))
	}
	seen := make([]bool, n)
	pred := func(data interface{}) bool {
		d := data.([]int)
		sym.Assert(len(d) == 1, "harness: batches have one element")
		sym.Assert(!seen[d[0]], "a batch is passed to a predicate once")
		seen[d[0]] = true
		return vals[d[0]]
	}
	result := sym.Bool("old")
	var f pipeline.Filter
	switch what {
	case 0:
		f = pipeline.Every(&result, cancel, pred)
	case 1:
		f = pipeline.NotEvery(&result, cancel, pred)
	case 2:
		f = pipeline.Some(&result, cancel, pred)
	case 3:
		f = pipeline.NotAny(&result, cancel, pred)
	}
	if pn := sym.P("pre"); pn != 0 {
		p.Add(makeNode(pn, pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
	}
	p.Add(makeNode(kind, f))
	var t tail
	p.Add(pipeline.Ord(t.filter))
	ctx, cfun := context.WithCancel(context.Background())
	p.RunWithContext(ctx, cfun)
	sym.Assert(p.Err() == nil, "a run without an error leaves Err() == nil")
	cancelled := ctx.Err() != nil
	cfun()
	// what the predicate returned for the batches it has seen
	var ts, fs []bool
	all := true
	for i := range vals {
		if !seen[i] {
			all = false
			continue
		}
		ts = append(ts, vals[i])
		fs = append(fs, !vals[i])
	}
	anyT, anyF := sym.Or(ts...), sym.Or(fs...)
	var exp, known bool
	switch what {
	case 0:
		exp, known = !anyF, anyF
	case 1:
		exp, known = anyF, anyF
	case 2:
		exp, known = anyT, anyT
	case 3:
		exp, known = !anyT, anyT
	}
	sym.Assert(result == exp, "the result is the quantifier over the batches")
	if cancelled {
		sym.Assert(cancel, "the pipeline is cancelled only with cancelWhenKnown")
		sym.Assert(known, "the pipeline is cancelled only if the result is known")
		sym.Reach("cancelled")
	} else {
		sym.Assert(all, "every batch is passed to the predicate")
		sym.Assert(sym.Or(!cancel, !known), "the pipeline is cancelled when the result is known")
		sym.Assert(len(t.got) == n, "the data passes through unmodified")
		for i, x := range t.got {
			sym.Assert(x == i, "the data passes through unmodified")
		}
		sym.Reach("complete")
	}
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
}

// sizeSource reports a size and records what is requested.
type sizeSource struct {
	size  int
	left  int
	max   int // fetches at most
	reqs  []int
	calls int
}

func (s *sizeSource) Err() error                  { return nil }
func (s *sizeSource) Prepare(context.Context) int { return s.size }
func (s *sizeSource) Data() interface{}           { return []int{} }
func (s *sizeSource) Fetch(n int) int {
	s.reqs = append(s.reqs, n)
	if len(s.reqs) > s.max {
		return 0
	}
	return 1
}

func noop(_ int, data interface{}) interface{} { return data }

// Known: batch sizes for a known size (C27).
//
//	mode 0: any size, NofBatches is the parameter nb (0: the default)
//	mode 1: the size is the parameter n, any argument of NofBatches
//	mode 2: as 1, NofBatches is called again with any argument
func Known() {
	sym.SetProcs(sym.P("procs"))
	var p pipeline.Pipeline
	src := &sizeSource{max: 3}
	mode := sym.P("mode")
	nb := sym.P("nb")
	if mode == 0 {
		src.size = sym.Int("size")
		sym.Assume(src.size >= 0)
	} else {
		src.size = sym.P("n")
		nb = sym.Int("nb")
	}
	if mode != 0 || nb != 0 {
		ret := p.NofBatches(nb)
		if nb >= 1 {
			sym.Assert(ret == nb, "NofBatches returns the value that is set")
		} else {
			sym.Assert(ret >= 1, "the default number of batches is positive")
			sym.Assert(p.NofBatches(0) == ret, "NofBatches(0) returns the current value")
			nb = ret
		}
	}
	if mode == 2 {
		k := sym.Int("nb2")
		ret := p.NofBatches(k)
		if k >= 1 {
			nb = k
		}
		sym.Assert(ret == nb, "NofBatches returns the current value")
	}
	p.Source(src)
	p.Add(pipeline.Ord(pipeline.Receive(noop)))
	p.Run()
	if nb < 1 {
		nb = p.NofBatches(0)
		sym.Assert(nb >= 1, "the default number of batches is positive")
	}
	sym.Assert(len(src.reqs) == 4, "harness: four requests")
	r := src.reqs[0]
	for _, x := range src.reqs {
		sym.Assert(x == r, "equal batch sizes are requested")
	}
	sym.Assert(r >= 1, "a positive number of elements is requested")
	if src.size > 0 {
		// ceil(size / r) <= nb
		if mode == 0 {
			k := sym.Concrete(nb)
			// r*k >= size without overflow: (size-1)/k < r
			sym.Assert((src.size-1)/k < r, "at most NofBatches batches are needed")
		} else {
			rr := sym.Concrete(r)
			sym.Assert((src.size-1)/rr < nb, "at most NofBatches batches are needed")
		}
	}
	sym.Reach("ran")
}

// DefaultProcs: the default number of batches is derived from GOMAXPROCS (C27).
func DefaultProcs() {
	sym.SetProcs(sym.P("procs"))
	var p pipeline.Pipeline
	a := p.NofBatches(sym.IntIn("arg", -1<<62, 0))
	sym.Assert(a >= sym.P("procs"), "the default number of batches takes GOMAXPROCS into account")
	sym.Assert(runtime.GOMAXPROCS(0) == sym.P("procs"), "harness: GOMAXPROCS")
	sym.Reach("ran")
}

// Unknown: batch sizes for an unknown size (C27).
func Unknown() {
	var p pipeline.Pipeline
	src := &sizeSource{max: sym.P("fetches"), size: sym.Int("size")}
	sym.Assume(src.size < 0)
	inc, max := 0, 0
	if sym.P("set") == 1 {
		inc, max = sym.Int("inc"), sym.Int("max")
		p.SetVariableBatchSize(inc, max)
	}
	p.Source(src)
	p.Add(pipeline.Ord(pipeline.Receive(noop)))
	p.Run()
	rq := src.reqs
	sym.Assert(len(rq) == src.max+1, "harness: number of requests")
	for i, x := range rq {
		sym.Assert(x >= 1, "a positive number of elements is requested")
		if max >= 1 {
			sym.Assert(x <= max, "the batch size never exceeds maxBatchSize")
		}
		if i == 0 {
			continue
		}
		d := x - rq[i-1]
		sym.Assert(x >= rq[i-1], "batch sizes do not shrink")
		// grows by batchInc unless capped
		if inc >= 1 {
			if max >= 1 {
				sym.Assert(sym.Or(d == inc, x == max), "the batch size grows by batchInc up to maxBatchSize")
			} else {
				sym.Assert(sym.Or(d == inc, i > 1 && rq[i] == rq[len(rq)-1], x == rq[len(rq)-1]), "the batch size grows by batchInc up to the default maximum")
			}
		} else {
			sym.Assert(sym.Or(d == rq[0], x == rq[len(rq)-1]), "the batch size grows by the default increment")
		}
	}
	if inc >= 1 {
		if max >= 1 {
			sym.Assert(rq[0] == sym.Ite(inc < max, inc, max), "the first batch has batchInc elements")
		} else if inc <= 1024 {
			sym.Assert(rq[0] == inc, "the first batch has batchInc elements")
		}
	}
	sym.Reach("ran")
}

// ---- sources (C28) ----

// Direct: Scanner, BytesScanner, Func and SingletonChan called directly.
//
//	src 0 Scanner (words), 1 BytesScanner (words), 2 Func, 3 SingletonChan
func Direct() {
	n := sym.P("n")
	var src pipeline.Source
	word := func(i int) string { return "w" + itoa(i) }
	text := ""
	for i := 0; i < n; i++ {
		text += word(i) + "\n"
	}
	rd := &slowReader{text, sym.P("chunk")}
	single := false
	switch sym.P("src") {
	case 0:
		sc := pipeline.NewScanner(rd)
		if b := sym.P("buf"); b > 0 { // a buffer that is overwritten often
			sc.Buffer(make([]byte, b), 100)
		}
		src = sc
	case 1:
		sc := pipeline.NewBytesScanner(rd)
		if b := sym.P("buf"); b > 0 {
			sc.Buffer(make([]byte, b), 100)
		}
		src = sc
	case 2:
		i := 0
		size := sym.Int("size")
		src = pipeline.NewFunc(size, func(k int) (interface{}, int, error) {
			if k > n-i {
				k = n - i
			}
			d := make([]string, k)
			for j := range d {
				d[j] = word(i + j)
			}
			i += k
			return d, k, nil
		})
		sym.Assert(src.Prepare(context.Background()) == size, "Prepare reports the given size")
	case 3:
		c := make(chan string, n)
		for i := 0; i < n; i++ {
			c <- word(i)
		}
		close(c)
		src = pipeline.NewSingletonChan(c)
		single = true
	}
	if sym.P("src") != 2 {
		sym.Assert(src.Prepare(context.Background()) < 0, "Prepare reports an unknown size")
	}
	var all []interface{}
	pos := 0
	for calls := 0; ; calls++ {
		sym.Assert(calls <= n+1, "Fetch reports 0 when the source is exhausted")
		req := sym.Concrete(sym.IntIn("req", 1, n+1))
		k := src.Fetch(req)
		sym.Assert(k >= 0 && k <= req, "Fetch returns at most the requested number")
		sym.Assert(src.Err() == nil, "there is no error")
		if k == 0 {
			break
		}
		if pos+k > n {
			sym.Fail("nothing is delivered twice or invented")
		}
		if single {
			sym.Assert(k == 1, "SingletonChan fetches one element")
			sym.Assert(src.Data().(string) == word(pos), "the elements are delivered in order")
		}
		all = append(all, src.Data())
		pos += k
		if !single {
			l := 0
			switch d := src.Data().(type) {
			case []string:
				l = len(d)
			case [][]byte:
				l = len(d)
			}
			sym.Assert(l == k, "Fetch returns the length of Data")
		}
	}
	sym.Assert(pos == n, "all elements are delivered")
	sym.Assert(src.Fetch(1) == 0, "an exhausted source stays exhausted")
	// also what was delivered earlier
	i := 0
	for _, b := range all {
		switch d := b.(type) {
		case string:
			sym.Assert(d == word(i), "the elements are delivered in order")
			i++
		case []string:
			for _, x := range d {
				sym.Assert(x == word(i), "the elements are delivered in order")
				i++
			}
		case [][]byte:
			for _, x := range d {
				sym.Assert(string(x) == word(i), "batches are not overwritten by later fetches")
				i++
			}
		}
	}
	sym.Assert(i == n, "all elements are delivered")
	sym.Reach("delivered")
}

// slowReader returns at most chunk bytes at a time.
type slowReader struct {
	s     string
	chunk int
}

func (r *slowReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := r.chunk
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], r.s)
	r.s = r.s[n:]
	return n, nil
}

var errRead = errors.New("read error")

// Reflected: slices, arrays, strings and channels as sources.
//
//	src 0 slice, 1 array, 2 string, 3 buffered channel, 4 channel with a sender, 5 slice of a named type of structs
func Reflected() {
	n, kind := sym.P("n"), sym.P("src")
	var p pipeline.Pipeline
	vals := make([]int, n)
	for i := range vals {
		vals[i] = sym.Int("v" + itoa(i))
	}
	nb := sym.Int("nb")
	known := true
	str := ""
	switch kind {
	case 0:
		p.Source(vals)
	case 1:
		switch n {
		case 0:
			p.Source([0]int{})
		case 1:
			p.Source([1]int{vals[0]})
		case 2:
			p.Source([2]int{vals[0], vals[1]})
		case 3:
			p.Source([3]int{vals[0], vals[1], vals[2]})
		case 4:
			p.Source([4]int{vals[0], vals[1], vals[2], vals[3]})
		default:
			p.Source([5]int{vals[0], vals[1], vals[2], vals[3], vals[4]})
		}
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = sym.ByteIn("c"+itoa(i), 0, 255)
		}
		str = string(b)
		p.Source(str)
	case 3, 4:
		known = false
		c := make(chan int, n*(4-kind))
		send := func() {
			for i := range vals {
				c <- vals[i]
			}
			close(c)
		}
		if kind == 3 {
			send()
		} else {
			go send()
		}
		p.Source(c)
		p.SetVariableBatchSize(sym.Int("inc"), sym.Int("max"))
	case 5:
		d := make(recs, n)
		for i := range d {
			d[i] = rec{vals[i], i}
		}
		p.Source(d)
	}
	if known {
		p.NofBatches(nb)
	}
	size := 0
	var got []interface{}
	p.Add(pipeline.Ord(func(_ *pipeline.Pipeline, _ pipeline.NodeKind, s *int) (pipeline.Receiver, pipeline.Finalizer) {
		size = *s
		return func(seq int, data interface{}) interface{} {
			sym.Assert(seq == len(got), "an ordered node receives batches in encounter order, without gaps")
			got = append(got, data)
			return data
		}, nil
	}))
	p.Run()
	if known {
		sym.Assert(size == n, "Prepare reports the size")
	} else {
		sym.Assert(size < 0, "Prepare reports an unknown size")
	}
	i := 0
	for _, b := range got {
		l := 0
		switch d := b.(type) {
		case []int:
			for _, x := range d {
				sym.Assert(i < n && x == vals[i], "all elements are delivered in order")
				i++
			}
			l = len(d)
		case recs:
			for _, x := range d {
				sym.Assert(i < n && x.key == vals[i] && x.id == i, "all elements are delivered in order")
				i++
			}
			l = len(d)
		case string:
			sym.Assert(i+len(d) <= n && d == str[i:i+len(d)], "all elements are delivered in order")
			i += len(d)
			l = len(d)
		default:
			sym.Fail("a batch has the type of a slice of the source")
		}
		sym.Assert(l > 0, "no empty batch is fetched")
		if known && nb >= 1 {
			sym.Assert(len(got) <= nb, "at most NofBatches batches")
		}
	}
	sym.Assert(i == n, "all elements are delivered")
	sym.Assert(p.Err() == nil, "a run without an error leaves Err() == nil")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("delivered")
}

type recs []rec

// ChanCancel: a channel that is never closed stops to deliver when the context is cancelled.
//
//	single: SingletonChan
func ChanCancel() {
	n := sym.P("n")
	c := make(chan int, n)
	for i := 0; i < n; i++ {
		c <- i
	}
	var p pipeline.Pipeline
	if sym.P("single") == 1 {
		p.Source(pipeline.NewSingletonChan(c))
	} else {
		p.Source(c)
		p.SetVariableBatchSize(1, sym.P("b"))
	}
	next := 0
	at := n // a batch with more than one element may never become full
	if sym.P("b") == 1 {
		at = sym.Choose("at", n+1)
	}
	p.Add(pipeline.Ord(func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
		if at == n {
			go p.Cancel()
		}
		return func(_ int, data interface{}) interface{} {
			d, ok := data.([]int)
			if !ok {
				d = []int{data.(int)}
			}
			for _, x := range d {
				sym.Assert(x == next, "the elements are delivered in order")
				if next == at {
					p.Cancel()
				}
				next++
			}
			return data
		}, nil
	}))
	p.Run()
	sym.Assert(next <= n, "nothing is invented")
	sym.Assert(p.Err() == nil, "a run without an error leaves Err() == nil")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("stopped")
}

// Endless: a cancelled pipeline does not ask an endless source for ever (C25).
func Endless() {
	var p pipeline.Pipeline
	k := 0
	p.Source(pipeline.NewFunc(sym.P("size"), func(size int) (interface{}, int, error) {
		k++
		return []int{k}, 1, nil
	}))
	p.NofBatches(2)
	p.SetVariableBatchSize(1, 1)
	limit := sym.P("limit")
	total := 0
	if pn := sym.P("pre"); pn != 0 {
		p.Add(makeNode(pn, pipeline.Receive(noop)))
	}
	p.Add(pipeline.Limit(limit, true))
	p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data interface{}) interface{} {
		if data != nil {
			total += len(data.([]int))
		}
		return data
	})))
	p.Run()
	sym.Assert(total == limit, "exactly the elements before the limit arrive")
	sym.Drain()
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("stopped")
}

// ---- errors (C26) ----

// Errs: concurrent SetErr calls; the first one wins.
//
//	kind: the node kind of the receivers that call SetErr for every batch
//	n: batches, outside: goroutines that call SetErr
func Errs() {
	n, outside := sym.P("n"), sym.P("outside")
	var p pipeline.Pipeline
	errs := make([]error, n+outside+1)
	won := make([]bool, len(errs))
	for i := range errs {
		errs[i] = errors.New(itoa(i))
	}
	set := func(i int) {
		if p.SetErr(errs[i]) {
			won[i] = true
			// whatever others do meanwhile, the error stays
			sym.Assert(p.Err() == errs[i], "Err returns the error that was set first")
			sym.Assert(p.Context().Err() != nil, "the first error cancels the context")
		} else {
			sym.Assert(p.Err() != nil && p.Err() != errs[i], "SetErr returns false only if there is another error")
		}
	}
	intSource(&p, 0, n, n)
	p.Add(makeNode(sym.P("kind"), func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
		for i := 0; i < outside; i++ {
			i := i
			go set(n + i)
		}
		return func(seq int, data interface{}) interface{} {
			set(seq)
			return data
		}, nil
	}))
	p.Run()
	first := p.Err()
	sym.Drain()
	winner := -1
	for i := range won {
		if won[i] {
			sym.Assert(winner < 0, "exactly one SetErr call returns true")
			winner = i
		}
	}
	if winner >= 0 {
		sym.Assert(p.Err() == errs[winner], "Err returns the error that was set first")
		sym.Assert(first == nil || first == errs[winner], "Err returns the error that was set first")
		sym.Assert(p.Context().Err() != nil, "the first error cancels the context")
		sym.Reach("failed")
	} else {
		sym.Assert(first == nil && p.Err() == nil, "a run without any error leaves Err() == nil")
	}
	sym.Assert(!p.SetErr(errs[n+outside]) || winner < 0, "SetErr returns true for the first error only")
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
}

// ErrBefore: an error that is set before the run.
func ErrBefore() {
	var p pipeline.Pipeline
	calls := 0
	p.Source(pipeline.NewFunc(sym.P("size"), func(size int) (interface{}, int, error) {
		calls++
		return nil, 0, nil
	}))
	p.Add(makeNode(sym.P("kind"), func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
		calls++
		return func(int, interface{}) interface{} { calls++; return nil }, func() { calls++ }
	}))
	sym.Assert(p.Err() == nil, "a new pipeline has no error")
	sym.Assert(p.SetErr(errStop), "the first SetErr call returns true")
	sym.Assert(!p.SetErr(errRead), "only the first SetErr call returns true")
	p.Run()
	sym.Assert(p.Err() == errStop, "Err returns the error that was set first")
	sym.Drain()
	sym.Assert(calls == 0, "a pipeline that already has an error does not run")
	sym.Reach("ran")
}

// SourceErr: the source reports an error.
//
//	late: together with the last data, or without data
func SourceErr() {
	n := sym.P("n")
	var p pipeline.Pipeline
	at := sym.Choose("at", n+1)
	with := sym.Bool("with") // the error comes together with data
	fetches := 0
	failed := false
	set := sym.P("set") == 1
	p.Source(pipeline.NewFunc(sym.P("size"), func(size int) (interface{}, int, error) {
		sym.Assert(!failed, "an error of the source stops the fetching")
		fetches++
		if fetches-1 == at {
			failed = true
			if with {
				return []int{at}, 1, errRead
			}
			return nil, 0, errRead
		}
		return []int{fetches - 1}, 1, nil
	}))
	p.NofBatches(n + 2)
	p.SetVariableBatchSize(1, 1)
	next := 0
	mine := false
	p.Add(makeNode(sym.P("kind"), pipeline.Receive(func(seq int, data interface{}) interface{} {
		if set && seq == 0 {
			mine = p.SetErr(errStop)
		}
		return data
	})))
	p.Add(pipeline.Ord(pipeline.ReceiveAndFinalize(func(seq int, data interface{}) interface{} {
		sym.Assert(seq == next && data.([]int)[0] == seq && seq <= at, "the data before the error is passed on")
		next++
		return data
	}, func() {})))
	p.Run()
	err := p.Err()
	sym.Assert(err != nil, "an error of the source is reported by Err")
	if !set {
		sym.Assert(err == errRead, "an error of the source is reported by Err")
	} else {
		sym.Assert(err == errRead || err == errStop, "the first error is reported by Err")
	}
	sym.Drain()
	sym.Assert(p.Err() == err, "the first error stays")
	sym.Assert(!mine || err == errStop, "the first error wins")
	sym.Assert(p.Context().Err() != nil, "an error cancels the context")
	sym.Assert(sym.Blocked() == 0, "no goroutine is left behind")
	sym.Reach("failed")
}

// ReadErr: a Scanner with a failing reader.
type failReader struct{ s string }

func (r *failReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, errRead
	}
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}

func ReadErr() {
	n := sym.P("n")
	var p pipeline.Pipeline
	rd := &failReader{strings.Repeat("x\n", n)}
	if sym.P("bytes") == 1 {
		p.Source(pipeline.NewBytesScanner(rd))
	} else {
		p.Source(pipeline.NewScanner(rd))
	}
	p.SetVariableBatchSize(1, sym.P("b"))
	count := sym.Int("old")
	p.Add(makeNode(sym.P("kind"), pipeline.Count(&count)))
	p.Run()
	sym.Assert(p.Err() == errRead, "an error of the source is reported by Err")
	sym.Reach("failed")
}

// ---- concurrency (C23) ----

// Rendezvous: k receivers of a parallel node can be active at the same time.
func Rendezvous() {
	k := sym.P("k")
	var p pipeline.Pipeline
	intSource(&p, 0, k, k)
	if pn := sym.P("pre"); pn != 0 {
		p.Add(makeNode(pn, pipeline.Receive(noop)))
	}
	c := make([]chan bool, k)
	for i := range c {
		c[i] = make(chan bool, k)
	}
	f := pipeline.Receive(func(seq int, data interface{}) interface{} {
		for i := range c {
			if i != seq {
				c[i] <- true
			}
		}
		for i := 1; i < k; i++ {
			<-c[seq]
		}
		return data
	})
	if sym.P("limit") == 0 {
		p.Add(pipeline.Par(f))
	} else {
		p.Add(pipeline.LimitedPar(sym.P("limit"), f))
	}
	if sn := sym.P("post"); sn != 0 {
		p.Add(makeNode(sn, pipeline.Receive(noop)))
	}
	p.Run()
	sym.Reach("met")
}

// AtMost: a LimitedPar node never uses more than limit goroutines at the same time.
func AtMost() {
	n, limit := sym.P("n"), sym.P("limit")
	var p pipeline.Pipeline
	sym.SetProcs(sym.P("procs"))
	intSource(&p, 0, n, n)
	if pn := sym.P("pre"); pn != 0 {
		p.Add(makeNode(pn, pipeline.Receive(noop)))
	}
	max := limit
	if limit <= 0 {
		max = sym.P("procs")
	}
	// a token per goroutine: taking one never blocks
	tokens := make(chan bool, max)
	var fs []pipeline.Filter
	recvs := sym.P("recvs")
	for i := 0; i < recvs; i++ {
		i := i
		fs = append(fs, pipeline.ReceiveAndFinalize(func(seq int, data interface{}) interface{} {
			if i == 0 || recvs > 2 {
				select {
				case tokens <- true:
				default:
					sym.Fail("more than limit receivers are active")
				}
			}
			if i == recvs-1 || recvs > 2 {
				<-tokens
			}
			return data
		}, nop))
	}
	for i := sym.P("fins"); i > 0; i-- {
		fs = append(fs, pipeline.Finalize(nop))
	}
	p.Add(pipeline.LimitedPar(limit, fs...))
	if sn := sym.P("post"); sn != 0 {
		p.Add(makeNode(sn, pipeline.Receive(noop)))
	}
	p.Run()
	sym.Reach("ran")
}

func nop() {}

// Overlap: the receivers of a node made with any constructor; sequential ones
// do not overlap and see each other's effects, all of them run for each batch.
func Overlap() {
	n, kind := sym.P("n"), sym.P("kind")
	var p pipeline.Pipeline
	intSource(&p, 0, n, n)
	if pn := sym.P("pre"); pn != 0 {
		p.Add(makeNode(pn, pipeline.Receive(noop)))
	}
	parallel := kind == nPar || kind == nLim || kind == 9
	busy := false
	recvs := sym.P("recvs")
	calls, next := make([]int, recvs), make([]int, recvs)
	seen := make([][]int, recvs)
	var fs []pipeline.Filter
	for i := 0; i < recvs; i++ {
		i := i
		seen[i] = make([]int, n)
		fs = append(fs, func(_ *pipeline.Pipeline, k pipeline.NodeKind, _ *int) (pipeline.Receiver, pipeline.Finalizer) {
			switch {
			case parallel:
				sym.Assert(k == pipeline.Parallel, "the filters know the kind of their node")
			case kindIsOrdered(kind):
				sym.Assert(k == pipeline.Ordered, "the filters know the kind of their node")
			default:
				sym.Assert(k != pipeline.Parallel, "the filters know the kind of their node")
			}
			return func(seq int, data interface{}) interface{} {
				if i > 0 {
					sym.Assert(seen[i-1][seq] == 1, "a batch passes the receivers of a node in their order")
				}
				seen[i][seq]++
				if !parallel {
					sym.Assert(!busy, "calls of a sequential node do not overlap")
					busy = true
					calls[i]++
					busy = false
					if kindIsOrdered(kind) {
						sym.Assert(seq == next[i], "an ordered node receives batches in encounter order, without gaps")
						next[i]++
					}
				}
				return data
			}, nil
		})
	}
	fins, nfins := 0, sym.P("fins")
	for i := 0; i < nfins; i++ {
		i := i
		fs = append(fs, pipeline.Finalize(func() {
			sym.Assert(fins == i, "finalizers are called once, in the order in which filters were added")
			fins++
			for j := range seen {
				for _, k := range seen[j] {
					sym.Assert(k == 1, "a finalizer is called after all receivers")
				}
			}
		}))
	}
	p.Add(makeNode(kind, fs...))
	if sn := sym.P("post"); sn != 0 {
		p.Add(makeNode(sn, pipeline.Receive(noop)))
	}
	p.Run()
	sym.Assert(fins == nfins, "every finalizer is called once")
	for j := range seen {
		for _, k := range seen[j] {
			sym.Assert(k == 1, "every batch is passed to the receiver once")
		}
		sym.Assert(parallel || calls[j] == n, "every batch is passed to the receiver once")
	}
	sym.Reach("ran")
}
