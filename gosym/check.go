package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// instance is one harness with parameters.
type instance struct {
	h      string
	params map[string]int64
	consts map[string]int64
	reach  []string // labels that some path must reach
	limit  time.Duration
	steps  int
	pre    int  // if positive: schedules with at most pre-1 preemptions only
	extra  bool // a search beyond the bounds that are covered completely
}

func (in *instance) String() string {
	var ks []string
	for k, v := range in.params {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	s := in.h + "(" + strings.Join(ks, ",") + ")"
	if len(in.consts) > 0 {
		s += "[" + constsKey(in.consts) + "]"
	}
	if in.pre > 0 {
		s += fmt.Sprintf("{at most %d preemptions}", in.pre-1)
	}
	return s
}

type instResult struct {
	in       *instance
	stats    Stats
	kinds    map[string]int
	reach    map[string]int64
	unsup    map[string]int64
	bound    map[string]int64
	complete bool
	viol     []*pathRecord
	samples  []*pathRecord
	q        [4]int64
	qtime    time.Duration
	wall     time.Duration
	encoded  map[string]bool
}

type checker struct {
	prop, tier string
	seed       int64
	repo, hdir string
	rp         *replayer
	known      []knownFinding
	mu         sync.Mutex
	stop       bool
	violations int
	hangs      int
	fallbacks  int
	knownHit   map[string]bool
	unconf     []string
	tried      map[string]int
	skipped    int
	deadline   time.Time
	progs      map[string]*Program
	progNotes  map[string][]string
	evid       string
	verbose    bool
}

type knownFinding struct {
	Property string           `json:"property"`
	Status   string           `json:"status"` // "open" or "fixed"
	Harness  string           `json:"harness"`
	Params   map[string]int64 `json:"params"`
	Match    string           `json:"match"`
	What     string           `json:"what"`
	Commit   string           `json:"commit"`
}

func (c *checker) isKnown(rec *pathRecord) *knownFinding {
	for i := range c.known {
		k := &c.known[i]
		if k.Status != "open" || k.Property != c.prop || k.Harness != rec.Harness || !strings.Contains(rec.Msg, k.Match) {
			continue
		}
		ok := true
		for n, v := range k.Params {
			if rec.Params[n] != v {
				ok = false
			}
		}
		if ok {
			return k
		}
	}
	return nil
}

func (c *checker) halted() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.stop || time.Now().After(c.deadline)
}

// tryHang limits the number of native runs that look for a hang.
func (c *checker) tryHang() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.hangs++
	return c.hangs <= 4
}

// fallback runs the real code natively with the inputs of a path that the executor
// cannot follow. Only a failure that shows every time is reported. True if the run is over.
func (c *checker) fallback(e *Engine, in *instance, r pathResult) bool {
	c.mu.Lock()
	c.fallbacks++
	n := c.fallbacks
	c.mu.Unlock()
	if n > 120 {
		return false
	}
	rec := e.record(in.h, in.consts, r)
	rec.Property, rec.Kind = c.prop, "native"
	bin, err := c.rp.bin(rec.Consts, false, true)
	if err != nil {
		return false
	}
	var msg string
	for i := 0; i < 3; i++ {
		nr := c.rp.run(bin, rec, 20*time.Second)
		switch nr.kind {
		case "assert", "panic", "fatal", "deadlock":
			msg = nr.kind + ": " + nr.msg
		default:
			return false
		}
	}
	rec.Msg = msg
	return c.report(rec)
}

func (c *checker) runInstance(in *instance, p *Program, sol *Solver, rng *rand.Rand) *instResult {
	start := time.Now()
	h, _ := p.harness.Members[in.h].(*ssa.Function)
	res := &instResult{in: in, kinds: map[string]int{}, encoded: map[string]bool{}}
	if h == nil {
		res.bound = map[string]int64{"harness not found": 1}
		return res
	}
	q0 := [4]int64{int64(sol.Queries), int64(sol.NSat), int64(sol.NUnsat), int64(sol.NUnk)}
	t0 := sol.Time
	e := newEngine(p, sol)
	e.params = in.params
	e.preempt = in.pre
	if in.steps > 0 {
		e.maxSteps = in.steps
	}
	limit := in.limit
	if limit == 0 {
		limit = time.Hour
	}
	nok := 0
	seenViol := map[string]int{}
	e.halt = func() bool { return time.Since(start) > limit || c.halted() }
	res.complete = e.explore(h, e.halt, func(r pathResult) bool {
		res.kinds[r.kind]++
		switch r.kind {
		case "ok":
			nok++
			// keep the first path and a seeded reservoir of two more
			if len(res.samples) < 3 {
				res.samples = append(res.samples, e.record(in.h, in.consts, r))
			} else if k := rng.Intn(nok); k < 2 {
				res.samples[1+k] = e.record(in.h, in.consts, r)
			}
		case "internal":
			e.boundMsg["engine: "+r.msg]++
			c.fallback(e, in, r)
			return false
		case "unsupported":
			// the executor cannot follow this path: its inputs are tried on the real code
			return !c.fallback(e, in, r)
		case "bound":
			// an execution that does not end natively either is a violation
			if !strings.Contains(r.msg, "values of") && !strings.Contains(r.msg, "memory") && !strings.Contains(r.msg, "solver") && c.tryHang() {
				rec := e.record(in.h, in.consts, r)
				rec.Property, rec.Kind = c.prop, "hang"
				rec.Msg = "the call does not end (" + r.msg + ")"
				return !c.report(rec)
			}
		case "violation":
			rec := e.record(in.h, in.consts, r)
			rec.Property = c.prop
			if seenViol[r.msg] >= 3 || len(seenViol) > 20 {
				return true
			}
			seenViol[r.msg]++
			return !c.report(rec)
		}
		return true
	})
	if !res.complete && c.verbose {
		fmt.Println("incomplete:", in)
	}
	res.stats, res.reach, res.unsup, res.bound = e.stats, e.reachAll, e.unsupMsg, e.boundMsg
	res.q = [4]int64{int64(sol.Queries) - q0[0], int64(sol.NSat) - q0[1], int64(sol.NUnsat) - q0[2], int64(sol.NUnk) - q0[3]}
	res.qtime = sol.Time - t0
	for f := range e.encoded {
		if e.inRepo(f.f) {
			res.encoded[f.name] = true
		}
	}
	res.wall = time.Since(start)
	return res
}

// report confirms a violation natively and prints it; true if the run is over.
func (c *checker) report(rec *pathRecord) bool {
	k := c.isKnown(rec)
	if k != nil {
		c.mu.Lock()
		seen := c.knownHit[k.What]
		c.knownHit[k.What] = true
		c.mu.Unlock()
		if !seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.What)
		}
		return false
	}
	key := rec.Harness + " " + rec.Msg
	c.mu.Lock()
	tries := c.tried[key]
	c.mu.Unlock()
	if tries >= 8 {
		c.mu.Lock()
		c.skipped++
		c.mu.Unlock()
		return false
	}
	ok, how := c.rp.confirm(rec)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.tried[key]++
	if c.stop {
		return true
	}
	if !ok {
		c.unconf = append(c.unconf, fmt.Sprintf("%s %v: %s; not reproduced: %s", rec.Harness, rec.Params, rec.Msg, how))
		fmt.Printf("note: not reproduced natively: %s %v inputs %v: %s (%s)\n", rec.Harness, rec.Params, rec.Inputs, rec.Msg, how)
		return false
	}
	c.violations++
	c.stop = true
	path := filepath.Join(c.evid, fmt.Sprintf("replay_%s.json", c.prop))
	b, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("%s %v inputs %v\n  schedule %v\n  %s\n  replayed: %s\n", rec.Harness, rec.Params, rec.Inputs, rec.Sched, rec.Msg, how)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	return true
}

func (c *checker) run() int {
	go guardMemory()
	start := time.Now()
	ins := instancesFor(c.prop, c.tier == "thorough")
	if len(ins) == 0 {
		fmt.Println("no such property", c.prop)
		return 2
	}
	// one program per set of substituted constants
	for _, in := range ins {
		k := constsKey(in.consts)
		if c.progs[k] == nil {
			p, notes, err := load(c.repo, c.hdir, in.consts)
			if err != nil {
				fmt.Println("cannot load the repository:", err)
				return 3
			}
			c.progs[k], c.progNotes[k] = p, notes
		}
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	type job struct {
		i  int
		in *instance
	}
	results := make([]*instResult, len(ins))
	var late []int // instances that did not end in the first pass
	first := 40 * time.Second
	if c.tier == "thorough" {
		first = 80 * time.Second
	}
	for pass := 0; pass < 2; pass++ {
		jobs := make(chan job)
		var wg sync.WaitGroup
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sol := newSolver("z3-new", 10000)
				defer sol.Close()
				for j := range jobs {
					if c.halted() {
						continue
					}
					rng := rand.New(rand.NewSource(c.seed*1000003 + int64(j.i)))
					in := *j.in
					cut := pass == 0 && in.limit == 0
					if cut {
						in.limit = first
					}
					r := c.runInstance(&in, c.progs[constsKey(j.in.consts)], sol, rng)
					r.in = j.in
					results[j.i] = r
					if cut && !r.complete && r.wall >= first {
						c.mu.Lock()
						late = append(late, j.i)
						c.mu.Unlock()
					}
					if c.verbose {
						r := results[j.i]
						fmt.Printf("%-60s %8.2fs paths %d complete %v %v q %v bound %v unsup %v\n", j.in, r.wall.Seconds(), r.stats.Paths, r.complete, r.kinds, r.q, r.bound, r.unsup)
					}
				}
			}()
		}
		if pass == 0 {
			// warm the replay binary meanwhile
			go c.rp.bin(ins[0].consts, false, false)
			for i := range ins {
				jobs <- job{i, &ins[i]}
			}
		} else {
			sort.Ints(late)
			for _, i := range late {
				jobs <- job{i, &ins[i]}
			}
		}
		close(jobs)
		wg.Wait()
		if len(late) == 0 || c.halted() {
			break
		}
	}
	// validation of sampled paths against the real code
	validated, mismatched := 0, 0
	var mism []string
	var vsamp []*pathRecord
	if !c.stop {
		validated, mismatched, mism, vsamp = c.validate(results)
	}
	c.evidence(results, ins, validated, mismatched, mism, vsamp, time.Since(start))
	if c.violations > 0 {
		return 1
	}
	return 0
}

func (c *checker) validate(results []*instResult) (n, bad int, msgs []string, out []*pathRecord) {
	var recs []*pathRecord
	max := 60
	if c.tier == "thorough" {
		max = 400
	}
	for k := 0; k < 3; k++ {
		for _, r := range results {
			if r != nil && k < len(r.samples) && len(recs) < max {
				recs = append(recs, r.samples[k])
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, rec := range recs {
		rec := rec
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			ok, why := c.rp.validate(rec)
			<-sem
			mu.Lock()
			if ok {
				n++
				if len(out) < 5 {
					out = append(out, rec)
				}
			} else {
				bad++
				if len(msgs) < 10 {
					msgs = append(msgs, fmt.Sprintf("%s %v %v: %s", rec.Harness, rec.Params, rec.Inputs, why))
				}
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	return
}

func (c *checker) evidence(results []*instResult, ins []instance, validated, mismatched int, mism []string, vsamp []*pathRecord, wall time.Duration) {
	var st Stats
	kinds := map[string]int{}
	enc := map[string]bool{}
	bound := map[string]int64{}
	unsup := map[string]int64{}
	var q [4]int64
	var qt time.Duration
	var instList, incomplete, extras, vac []string
	complete := 0
	for i, r := range results {
		if r == nil {
			if ins[i].extra {
				extras = append(extras, ins[i].String()+" (not started)")
			} else {
				incomplete = append(incomplete, ins[i].String()+" (not started)")
			}
			continue
		}
		st.Paths += r.stats.Paths
		st.Steps += r.stats.Steps
		st.Nodes += r.stats.Nodes
		st.Events += r.stats.Events
		st.Branches += r.stats.Branches
		st.Forced += r.stats.Forced
		st.Cached += r.stats.Cached
		st.Redundant += r.stats.Redundant
		st.RaceQueries += r.stats.RaceQueries
		for k, v := range r.kinds {
			kinds[k] += v
		}
		for k := range r.encoded {
			enc[k] = true
		}
		for k, v := range r.bound {
			bound[k] += v
		}
		for k, v := range r.unsup {
			unsup[k] += v
		}
		for i := range q {
			q[i] += r.q[i]
		}
		qt += r.qtime
		if r.in.extra {
			w := fmt.Sprintf("%s (stopped after %d paths)", r.in, r.stats.Paths)
			if r.complete {
				w = fmt.Sprintf("%s (%d paths, all within the limit on preemptions)", r.in, r.stats.Paths)
			}
			extras = append(extras, w)
			continue
		}
		instList = append(instList, r.in.String())
		if r.complete && len(r.bound) == 0 && len(r.unsup) == 0 {
			complete++
		} else if !r.complete {
			incomplete = append(incomplete, fmt.Sprintf("%s (stopped after %d paths)", r.in, r.stats.Paths))
		}
		for _, l := range r.in.reach {
			if r.reach[l] == 0 {
				vac = append(vac, r.in.String()+": "+l)
			}
		}
	}
	var fns []string
	for f := range enc {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []any
	for _, s := range vsamp {
		t := *s
		if len(t.Sched) > 40 {
			t.Sched = append(append([]string{}, t.Sched[:40]...), "...")
		}
		samples = append(samples, t)
	}
	if samples == nil {
		samples = []any{}
		for _, r := range results {
			if r != nil && len(r.samples) > 0 && len(samples) < 2 {
				samples = append(samples, r.samples[0])
			}
		}
	}
	var notes []string
	for _, n := range c.progNotes {
		notes = append(notes, n...)
	}
	sort.Strings(notes)
	assume := append([]string{}, commonAssumptions...)
	assume = append(assume, propInfo[c.prop].assumptions...)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": c.violations,
		"assumptions": assume,
		"coverage": map[string]any{
			"states": st.Nodes + st.Paths, "transitions": st.Events + st.Branches,
			"traces_validated_against_impl": validated,
			"trace_mismatches":              mismatched, "trace_mismatch_samples": mism,
			"samples":           samples,
			"functions_encoded": fns, "instances": instList, "instances_total": len(ins) - len(extras), "instances_complete": complete,
			"instances_incomplete": incomplete,
			"paths":                st.Paths, "paths_by_outcome": kinds, "redundant_interleavings_cut": st.Redundant,
			"ssa_instructions_executed": st.Steps, "scheduling_points": st.Nodes, "scheduled_events": st.Events,
			"symbolic_branches": st.Branches, "branches_with_one_feasible_side": st.Forced,
			"solver_queries": q[0], "solver_sat": q[1], "solver_unsat": q[2], "solver_unknown": q[3], "queries_answered_from_cache": st.Cached,
			"order_queries": st.RaceQueries,
			"solver_time_s": qt.Seconds(), "solver": "z3-new (-in, incremental); z3 4.8.12 where it gives no answer",
			"bounds": propInfo[c.prop].bounds, "bounds_hit": bound, "unsupported": unsup,
			"vacuous_labels": vac, "constants_replaced": notes,
			"violations_not_reproduced":  c.unconf,
			"violations_not_replayed":    c.skipped,
			"searches_beyond_the_bounds": extras,
			"exhaustive":                 complete == len(ins)-len(extras),
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(c.evid, 0o755)
	os.WriteFile(filepath.Join(c.evid, c.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d/%d instances complete, %d paths, %d queries (%d sat, %d unsat, %d unknown, %d cached) in %.1fs, %d native traces agree, %d differ, wall %.1fs\n",
		c.prop, c.tier, complete, len(ins)-len(extras), st.Paths, q[0], q[1], q[2], q[3], st.Cached, qt.Seconds(), validated, mismatched, wall.Seconds())
	if len(vac) > 0 {
		fmt.Println("vacuous:", vac)
	}
	for _, m := range mism {
		fmt.Println("mismatch:", m)
	}
	for k, v := range bound {
		fmt.Println("bound:", v, k)
	}
	for k, v := range unsup {
		fmt.Println("unsupported:", v, k)
	}
	for _, s := range incomplete {
		fmt.Println("incomplete:", s)
	}
}
