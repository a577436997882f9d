package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check ID [quick|thorough] | replay FILE | run HARNESS [param value]...")
		os.Exit(2)
	}
	repo, hdir := envOr("VERIF_REPO", "/repo"), envOr("VERIF_HARNESS", "/verif/harness")
	switch os.Args[1] {
	case "check":
		tier := envOr("VERIF_TIER", "quick")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
		if err != nil {
			seed = 1
		}
		c := &checker{prop: os.Args[2], tier: tier, seed: seed, repo: repo, hdir: hdir,
			rp: newReplayer(repo, hdir), knownHit: map[string]bool{}, tried: map[string]int{}, progs: map[string]*Program{}, progNotes: map[string][]string{},
			evid: envOr("VERIF_EVIDENCE", "/verif/evidence"), verbose: os.Getenv("VERIF_VERBOSE") != ""}
		c.deadline = time.Now().Add(300 * time.Second)
		if tier == "thorough" {
			c.deadline = time.Now().Add(780 * time.Second)
		}
		if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE")); err == nil {
			c.deadline = time.Now().Add(time.Duration(v) * time.Second)
		}
		if b, err := os.ReadFile(envOr("VERIF_KNOWN", "/verif/known_findings.json")); err == nil {
			var kf struct {
				Findings []knownFinding `json:"findings"`
			}
			if err := json.Unmarshal(b, &kf); err != nil {
				fmt.Println("known findings:", err)
			}
			c.known = kf.Findings
		}
		os.MkdirAll(c.evid, 0o755)
		rc := c.run()
		c.rp.close()
		os.Exit(rc)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var rec pathRecord
		if err == nil {
			err = json.Unmarshal(b, &rec)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		rp := newReplayer(repo, hdir)
		ok, how := rp.confirm(&rec)
		rp.close()
		fmt.Println("reproduced:", ok, how)
		if ok {
			os.Exit(1)
		}
	case "run":
		debugRun(repo, hdir, os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

// debugRun explores one harness and prints what it finds.
func debugRun(repo, hdir string, args []string) {
	consts := map[string]int64{}
	params := map[string]int64{}
	for i := 1; i+1 < len(args); i += 2 {
		k, _ := strconv.ParseInt(args[i+1], 10, 64)
		if strings.Contains(args[i], ".") {
			consts[args[i]] = k
		} else {
			params[args[i]] = k
		}
	}
	p, notes, err := load(repo, hdir, consts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(notes) > 0 {
		fmt.Println(notes)
	}
	f := p.harness.Func(args[0])
	if f == nil {
		fmt.Println("no harness", args[0])
		os.Exit(2)
	}
	e := newEngine(p, newSolver("z3-new", 10000))
	e.params = params
	e.noDPOR = os.Getenv("NODPOR") != ""
	fmt.Sscan(os.Getenv("PRE"), &e.preempt)
	rp := newReplayer(repo, hdir)
	defer rp.close()
	cnt := map[string]int{}
	nval, maxVal := 0, 0
	fmt.Sscan(os.Getenv("VALIDATE"), &maxVal)
	end := time.Now().Add(60 * time.Second)
	if s := os.Getenv("SECONDS"); s != "" {
		k, _ := strconv.Atoi(s)
		end = time.Now().Add(time.Duration(k) * time.Second)
	}
	seen := map[string]int{}
	start := time.Now()
	done := e.explore(f, func() bool { return time.Now().After(end) }, func(r pathResult) bool {
		cnt[r.kind]++
		if (r.kind == "violation" || r.kind == "internal" || r.kind == "unsupported" || r.kind == "bound") && seen[r.msg] < 1 && len(seen) < 12 {
			seen[r.msg]++
			fmt.Println(r.kind, r.msg, e.inputValues(), e.schedLog)
			if r.kind == "violation" && os.Getenv("CONFIRM") != "" {
				rec := e.record(args[0], consts, r)
				fmt.Println(rp.confirm(rec))
			}
		}
		if r.kind == "ok" && nval < maxVal {
			nval++
			rec := e.record(args[0], consts, r)
			if ok, why := rp.validate(rec); !ok {
				fmt.Println("MISMATCH", why, rec.Inputs, rec.Sched)
				seen["mismatch"]++
			}
		}
		return cnt["internal"] < 1 && (cnt["violation"] < 200)
	})
	fmt.Printf("complete=%v %.2fs %+v %v reach=%v bound=%v unsup=%v\n", done, time.Since(start).Seconds(), e.stats, cnt, e.reachAll, e.boundMsg, e.unsupMsg)
	fmt.Println("queries", e.sol.Queries, e.sol.NSat, e.sol.NUnsat, e.sol.NUnk, e.sol.Time)
}
