//go:build go1.21

// Package vs runs an instrumented program along a given schedule. Only one
// goroutine runs at a time; it hands over at visible operations. The hand-over
// uses plain memory in functions the race detector does not look at, so that the
// only happens-before edges it sees are those of the real operations.
package vs

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type thread struct {
	name   string
	nchild int
	kind   string // pending operation
	back   *thread
	cas    int // forced case
	goOn   bool
	ended  bool
	dflt   bool
}

const nslots = 1 << 16

var (
	on      bool
	free    bool
	log     []string
	pos     int
	current *thread
	slots   [nslots]*thread
	all     [4096]*thread
	nall    int
	main    *thread
)

//go:norace
//go:noinline
func self() *thread { return slots[goid()%nslots] }

//go:norace
//go:noinline
func goid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for i := len("goroutine "); i < n; i++ {
		c := b[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

// Start begins controlled execution; the caller is the main thread.
//
//go:norace
//go:noinline
func Start(schedule []string) {
	on = true
	log = schedule
	main = &thread{name: "m"}
	slots[goid()%nslots] = main
	all[nall] = main
	nall++
	current = main
	if len(log) == 0 {
		release("end of schedule")
	}
}

//go:norace
//go:noinline
func release(why string) {
	if !free {
		fmt.Fprintln(os.Stderr, "VERIF-FREE "+why)
		free = true
	}
}

// Free ends the control.
//
//go:norace
//go:noinline
func Free() { release("by request") }

//go:norace
//go:noinline
func pause(n int) {
	if n < 200 {
		runtime.Gosched()
	} else {
		time.Sleep(20 * time.Microsecond)
	}
}

//go:norace
//go:noinline
func waitFor(t *thread) {
	for n := 0; current != t && !t.goOn && !free; n++ {
		pause(n)
	}
}

// Go starts a goroutine and lets it run to its first visible operation.
//
//go:norace
//go:noinline
func Go(f func()) {
	if !on {
		go f()
		return
	}
	p := self()
	if p == nil {
		go f()
		return
	}
	c := &thread{name: p.name + "." + strconv.Itoa(p.nchild), back: p}
	p.nchild++
	if nall < len(all) {
		all[nall] = c
		nall++
	}
	go run(c, f)
	if free {
		return
	}
	current = c
	waitFor(p)
}

//go:norace
//go:noinline
func begin(c *thread) {
	slots[goid()%nslots] = c
	waitFor(c)
}

//go:norace
//go:noinline
func end(c *thread) {
	slots[goid()%nslots] = nil
	c.ended = true
	if !free {
		yield(c)
	}
}

func run(c *thread, f func()) {
	begin(c)
	defer end(c)
	f()
}

//go:norace
//go:noinline
func yield(t *thread) {
	if b := t.back; b != nil {
		t.back = nil
		b.goOn = false
		current = b
		return
	}
	dispatch()
}

// dispatch releases what the next entry of the schedule names.
//
//go:norace
//go:noinline
func dispatch() {
	if pos >= len(log) {
		release("end of schedule")
		return
	}
	ent := log[pos]
	pos++
	first, second := ent, ""
	if i := strings.IndexByte(ent, '>'); i >= 0 {
		first, second = ent[:i], ent[i+1:]
	}
	t, c := find(first)
	if t == nil {
		release("divergence at " + strconv.Itoa(pos-1) + ": " + ent + " " + state())
		return
	}
	t.cas = c
	if second != "" {
		q, qc := find(second)
		if q == nil {
			release("divergence at " + strconv.Itoa(pos-1) + ": " + ent + " " + state())
			return
		}
		q.cas = qc
		q.kind = ""
		q.back = nil
		t.back = q
		q.goOn = true
	}
	t.kind = ""
	current = t
}

//go:norace
//go:noinline
func state() string {
	s := ""
	for i := 0; i < nall; i++ {
		if t := all[i]; !t.ended {
			s += "[" + t.name + ":" + t.kind + "]"
		}
	}
	return s
}

//go:norace
//go:noinline
func find(s string) (*thread, int) {
	cas := 0
	if i := strings.IndexByte(s, '#'); i >= 0 {
		cas, _ = strconv.Atoi(s[i+1:])
		s = s[:i]
	}
	kind := ""
	if i := strings.IndexByte(s, '/'); i >= 0 {
		kind = s[i+1:]
		s = s[:i]
	}
	for i := 0; i < nall; i++ {
		t := all[i]
		if t.name == s && !t.ended {
			if t.kind == "" || kind != "" && t.kind != kind {
				return nil, 0
			}
			return t, cas
		}
	}
	return nil, 0
}

// Op waits for the turn of the calling goroutine. It returns the case a select
// has to take, or -2 if it is free to choose.
//
//go:norace
//go:noinline
func Op(kind string) int {
	if !on || free {
		return -2
	}
	t := self()
	if t == nil {
		return -2
	}
	t.kind = kind
	yield(t)
	waitFor(t)
	if free {
		return -2
	}
	return t.cas
}

// Joined is called after a rendezvous: the second goroutine waits for the first.
//
//go:norace
//go:noinline
func Joined() {
	if !on || free {
		return
	}
	t := self()
	if t == nil || !t.goOn {
		return
	}
	for n := 0; current != t && !free; n++ {
		pause(n)
	}
	t.goOn = false
}

//go:norace
//go:noinline
func partner() bool { t := self(); return t != nil && (t.back != nil || t.goOn) }

// Drain is sym.Drain.
//
//go:norace
//go:noinline
func Drain() {
	Op("Drain")
	if free {
		for i := 0; i < 200 && Blocked() > 0; i++ {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Blocked is sym.Blocked.
//
//go:norace
//go:noinline
func Blocked() int {
	n := 0
	for i := 1; i < nall; i++ {
		if !all[i].ended {
			n++
		}
	}
	return n
}

// ---- channel operations ----

func Send[T any](ch chan<- T, v T) {
	Op("select")
	ch <- v
	Joined()
}

func Recv[T any](ch <-chan T) T {
	Op("select")
	v := <-ch
	Joined()
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	Op("select")
	v, ok := <-ch
	Joined()
	return v, ok
}

func Close[T any](ch chan<- T) {
	Op("close")
	close(ch)
}

// Sel is called before a select statement.
func Sel(dflt bool) int {
	c := Op("select")
	if c >= 0 && dflt && partner() {
		time.Sleep(3 * time.Millisecond)
	}
	return c
}

// R and S hide the channels of the cases that are not to be taken.
func R[T any](c, i int, ch <-chan T) <-chan T {
	if c == -2 || c == i {
		return ch
	}
	return nil
}

func S[T any](c, i int, ch chan<- T) chan<- T {
	if c == -2 || c == i {
		return ch
	}
	return nil
}

func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	dflt := -1
	for i := range cases {
		if cases[i].Dir == reflect.SelectDefault {
			dflt = i
		}
	}
	c := Sel(dflt >= 0)
	if c != -2 {
		n := append([]reflect.SelectCase(nil), cases...)
		for i := range n {
			if i != c && i != dflt {
				n[i].Chan = reflect.Value{}
			}
		}
		cases = n
	}
	a, v, ok := reflect.Select(cases)
	Joined()
	return a, v, ok
}

func ReflectRecv(v reflect.Value) (reflect.Value, bool) {
	Op("select")
	x, ok := v.Recv()
	Joined()
	return x, ok
}
