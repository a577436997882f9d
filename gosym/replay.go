package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// pathRecord is what a native run needs to follow a path, and what it must show.
type pathRecord struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Params   map[string]int64  `json:"params"`
	Consts   map[string]int64  `json:"consts,omitempty"`
	Inputs   map[string]string `json:"inputs"`
	Sched    []string          `json:"sched"`
	MapOrder bool              `json:"map_order,omitempty"` // depends on the iteration order of a map
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Reach    []string          `json:"reach,omitempty"`
	Obs      []string          `json:"obs,omitempty"`
}

func (e *Engine) record(h string, consts map[string]int64, r pathResult) *pathRecord {
	rec := &pathRecord{Harness: h, Params: e.params, Consts: consts, Inputs: e.inputValues(), Sched: append([]string{}, e.schedLog...), Kind: r.kind, Msg: r.msg, MapOrder: e.mapOrd}
	if r.kind == "violation" {
		rec.Kind = e.violated
	}
	for k := range e.reached {
		rec.Reach = append(rec.Reach, k)
	}
	sort.Strings(rec.Reach)
	for _, o := range e.obs {
		v := o.v
		if i, ok := v.(iface); ok {
			v = i.v
		}
		rec.Obs = append(rec.Obs, o.label+"="+e.evalStr(v))
	}
	return rec
}

// replayer builds native binaries on demand and runs path records on them.
type replayer struct {
	repo, hdir, tmp string
	mu              sync.Mutex
	bins            map[string]*binEntry
}

type binEntry struct {
	once sync.Once
	path string
	err  error
}

func newReplayer(repo, hdir string) *replayer {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	return &replayer{repo: repo, hdir: hdir, tmp: tmp, bins: map[string]*binEntry{}}
}

func (r *replayer) close() { os.RemoveAll(r.tmp) }

func constsKey(c map[string]int64) string {
	var ks []string
	for k, v := range c {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (r *replayer) bin(consts map[string]int64, race, plain bool) (string, error) {
	k := fmt.Sprintf("%s|%v|%v", constsKey(consts), race, plain)
	r.mu.Lock()
	b := r.bins[k]
	if b == nil {
		b = &binEntry{}
		r.bins[k] = b
	}
	n := len(r.bins)
	r.mu.Unlock()
	b.once.Do(func() {
		dir := filepath.Join(r.tmp, fmt.Sprintf("b%d_%v_%v", n, race, plain))
		if b.err = os.MkdirAll(dir, 0o755); b.err == nil {
			b.path, b.err = buildReplay(r.repo, r.hdir, dir, consts, race, plain)
		}
	})
	return b.path, b.err
}

type nativeResult struct {
	kind     string // ok, assert, panic, fatal, race, deadlock, assume, error
	msg      string
	reach    []string
	obs      []string
	diverged string
}

func (r *replayer) run(bin string, rec *pathRecord, timeout time.Duration) nativeResult {
	f, err := os.CreateTemp(r.tmp, "path*.json")
	if err != nil {
		return nativeResult{kind: "error", msg: err.Error()}
	}
	b, _ := json.Marshal(rec)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name())
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var nr nativeResult
	done := false
	for _, l := range strings.Split(so.String(), "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-REACH "):
			nr.reach = append(nr.reach, l[12:])
		case strings.HasPrefix(l, "VERIF-OBS "):
			nr.obs = append(nr.obs, l[10:])
		case strings.HasPrefix(l, "VERIF-FAIL "):
			nr.kind, nr.msg = "assert", l[11:]
		case l == "VERIF-ASSUME":
			nr.kind = "assume"
		case l == "VERIF-DONE":
			done = true
		}
	}
	for _, l := range strings.Split(se.String(), "\n") {
		if strings.HasPrefix(l, "VERIF-FREE ") && !strings.Contains(l, "end of schedule") {
			nr.diverged = l[11:]
		}
	}
	if nr.kind != "" {
		return nr
	}
	if ctx.Err() != nil {
		nr.kind, nr.msg = "deadlock", "no end within "+timeout.String()
		return nr
	}
	if err == nil && done {
		nr.kind = "ok"
		return nr
	}
	s := se.String()
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		nr.kind = "race"
	case strings.Contains(s, "all goroutines are asleep"):
		nr.kind = "deadlock"
	case strings.Contains(s, "fatal error:"):
		nr.kind = "fatal"
	case strings.Contains(s, "panic:") || strings.Contains(s, "goroutine "):
		nr.kind = "panic"
	default:
		nr.kind = "error"
	}
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	nr.msg = s
	return nr
}

// confirm replays a violating path; it reports whether the real code shows a failure.
func (r *replayer) confirm(rec *pathRecord) (bool, string) {
	race := rec.Kind == "race"
	bin, err := r.bin(rec.Consts, race, false)
	if err != nil {
		return false, err.Error()
	}
	var last nativeResult
	tries := 3
	if rec.MapOrder {
		tries = 60
	}
	for i := 0; i < tries; i++ {
		last = r.run(bin, rec, 20*time.Second)
		switch last.kind {
		case "assert", "panic", "fatal", "race", "deadlock":
			return true, last.kind + ": " + last.msg
		}
	}
	why := fmt.Sprintf("the replay ends with %q (%s) %s", last.kind, last.diverged, last.msg)
	// without the schedule, under the system's scheduler
	pbin, err := r.bin(rec.Consts, race, true)
	if err != nil {
		return false, why + "; " + err.Error()
	}
	end := time.Now().Add(8 * time.Second)
	n := 0
	for ; time.Now().Before(end) && n < 400; n++ {
		l := r.run(pbin, rec, 10*time.Second)
		switch l.kind {
		case "assert", "panic", "fatal", "race", "deadlock":
			return true, l.kind + ": " + l.msg + " (free schedule)"
		}
	}
	return false, fmt.Sprintf("%s; %d free runs show nothing", why, n)
}

// validate runs a clean path natively; the run must agree with the executor.
func (r *replayer) validate(rec *pathRecord) (ok bool, why string) {
	tries := 1
	if rec.MapOrder {
		tries = 60
	}
	for ; tries > 0 && !ok; tries-- {
		ok, why = r.validate1(rec)
	}
	return
}

func (r *replayer) validate1(rec *pathRecord) (bool, string) {
	bin, err := r.bin(rec.Consts, false, false)
	if err != nil {
		return false, err.Error()
	}
	nr := r.run(bin, rec, 20*time.Second)
	if nr.kind != "ok" {
		return false, fmt.Sprintf("native run ends with %q %s %s", nr.kind, nr.msg, nr.diverged)
	}
	if nr.diverged != "" {
		return false, nr.diverged
	}
	uniq := map[string]bool{}
	for _, x := range nr.reach {
		uniq[x] = true
	}
	if len(uniq) != len(rec.Reach) {
		return false, fmt.Sprintf("labels reached: %v, executor: %v", nr.reach, rec.Reach)
	}
	for _, x := range rec.Reach {
		if !uniq[x] {
			return false, fmt.Sprintf("labels reached: %v, executor: %v", nr.reach, rec.Reach)
		}
	}
	if strings.Join(nr.obs, "\n") != strings.Join(rec.Obs, "\n") {
		return false, fmt.Sprintf("observed: %v, executor: %v", nr.obs, rec.Obs)
	}
	return true, ""
}
