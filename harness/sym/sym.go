//go:build go1.21

// Package sym is the interface between the harnesses and the symbolic executor.
// The executor replaces every function of this package (see intrinsics.go); the
// bodies here serve the native replay, where every input has a concrete value.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

// Replay is what a native run is given.
type Replay struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params"`
	Inputs  map[string]string `json:"inputs"`
	Sched   []string          `json:"sched"`
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
}

var (
	replay Replay
	names  = map[string]int{}
	// hooks of the controlled scheduler
	DrainHook   func()
	BlockedHook func() int
	base        int
)

// Load reads the replay file.
func Load(file string) Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &replay); err != nil {
		panic(err)
	}
	base = runtime.NumGoroutine()
	return replay
}

func get(name string) (string, bool) {
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := replay.Inputs[name]
	return v, ok
}

func Int(name string) int {
	v, _ := get(name)
	k, _ := strconv.ParseInt(v, 10, 64)
	return int(k)
}

func IntIn(name string, lo, hi int) int {
	v, ok := get(name)
	if !ok {
		return lo
	}
	k, _ := strconv.ParseInt(v, 10, 64)
	return int(k)
}

func Uint64(name string) uint64 {
	v, _ := get(name)
	k, _ := strconv.ParseUint(v, 10, 64)
	return k
}

func ByteIn(name string, lo, hi byte) byte {
	v, ok := get(name)
	if !ok {
		return lo
	}
	k, _ := strconv.ParseUint(v, 10, 8)
	return byte(k)
}

func Bool(name string) bool {
	v, _ := get(name)
	return v == "true"
}

func Float(name string) float64 {
	v, _ := get(name)
	switch v {
	case "NaN":
		return math.NaN()
	case "-0":
		return math.Copysign(0, -1)
	}
	f, _ := strconv.ParseFloat(v, 64)
	return f
}

func FloatInt(name string, lo, hi int) float64 {
	v, ok := get(name)
	if !ok {
		return float64(lo)
	}
	f, _ := strconv.ParseFloat(v, 64)
	return f
}

func Choose(name string, n int) int { return IntIn(name, 0, n-1) }

// Exit codes of a native run: 0 clean, 3 assertion failed, 4 assumption failed.
func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Println("VERIF-FAIL assert: " + msg)
	os.Exit(3)
}

func Concrete(v int) int { return v }

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// DiffFits tells whether a-b does not overflow.
func DiffFits(a, b int) bool {
	d := a - b
	return (d >= 0) == (a >= b)
}

func SetProcs(n int) { runtime.GOMAXPROCS(n) }

// Reach marks a point that some explored path must reach.
func Reach(label string) { fmt.Println("VERIF-REACH " + label) }

// Observe records a value that a native run of a path must reproduce.
func Observe(label string, v interface{}) { fmt.Printf("VERIF-OBS %s=%v\n", label, v) }

// Drain lets all other goroutines run until none of them can proceed.
func Drain() {
	if DrainHook != nil {
		DrainHook()
		return
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > base; i++ {
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
}

// Blocked is the number of other goroutines that have not ended.
func Blocked() int {
	if BlockedHook != nil {
		return BlockedHook()
	}
	return runtime.NumGoroutine() - base
}

func BlockedAt() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// P is a parameter of the harness instance.
func P(name string) int { return int(replay.Params[name]) }

// MapOrder makes the executor explore two iteration orders of maps.
func MapOrder() {}

// Symbolic tells whether the harness runs in the executor.
func Symbolic() bool { return false }

var Pause = func() {}

// TryLocker is a read-write lock.
type TryLocker interface {
	TryLock() bool
	TryRLock() bool
	Unlock()
	RUnlock()
}

// Locked tells the state of a lock: 0 free, 1 read-locked, 2 locked.
func Locked(l TryLocker) int {
	if l.TryLock() {
		l.Unlock()
		return 0
	}
	if l.TryRLock() {
		l.RUnlock()
		return 1
	}
	return 2
}

// Goid identifies the running goroutine.
func Goid() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

var (
	noteMu sync.Mutex
	notes  = map[string][][]int{}
)

// Note records values in a log of the harness that is no part of the program: it
// neither synchronizes nor races. The order of notes of unordered goroutines is
// not meaningful.
func Note(key string, vals ...int) {
	noteMu.Lock()
	notes[key] = append(notes[key], vals)
	noteMu.Unlock()
}

// Notes is the number of notes under key.
func Notes(key string) int {
	noteMu.Lock()
	defer noteMu.Unlock()
	return len(notes[key])
}

// NoteAt is value j of note i under key.
func NoteAt(key string, i, j int) int {
	noteMu.Lock()
	defer noteMu.Unlock()
	return notes[key][i][j]
}
