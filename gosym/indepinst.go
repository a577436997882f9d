package main

// indepInstances are the instances of C34.
func indepInstances(thorough bool) (l []instance) {
	scaled := map[string]int64{"sort.qsortGrainSize": 3, "sort.serialCutoff": 2, "sort.msortGrainSize": 4}
	add := func(a, b, how, procs int) {
		if how == 4 && !thorough && a >= 600 && a%10 == 3 {
			return // too many schedules
		}
		if how == 3 && (a >= 600 || a >= 400 && a < 500 && a != 402 && a < 405) {
			return
		}
		in := inst("Indep", "a", a, "b", b, "how", how, "procs", procs).need("done")
		if a >= 500 && a < 509 || b >= 500 && b < 509 {
			in = in.with(scaled)
		}
		l = append(l, in)
	}
	for op := 509; op < 512; op++ {
		for how := 0; how < 4; how++ {
			add(op, op, how, 1)
		}
	}
	var ops []int
	for fn := 0; fn < nFuncs; fn++ {
		ops = append(ops, fn, 100+fn)
	}
	for fn := 0; fn < nSpec; fn++ {
		ops = append(ops, 200+fn)
	}
	for kind := 0; kind < 2; kind++ {
		for fn := 0; fn < fRange; fn++ {
			ops = append(ops, 300+kind*nFuncs+fn)
		}
	}
	for _, fn := range append([]int{fDo}, mapSpecFns...) {
		ops = append(ops, 300+2*nFuncs+fn)
	}
	for op := 0; op < 8; op++ {
		ops = append(ops, 400+op)
	}
	for op := 0; op < 9; op++ {
		ops = append(ops, 500+op)
	}
	for op := 0; op < 50; op++ {
		switch op {
		case 34, 35, 36, 38, 48: // elements without a length, or of another type
			continue
		}
		ops = append(ops, 600+op)
	}
	for _, op := range ops {
		for how := 0; how < 5; how++ {
			add(op, op, how, 1)
			if thorough {
				add(op, op, how, 3)
			}
		}
	}
	some := []int{3, 12, 23, 104, 200, 203, 212, 303, 324, 327, 352, 401, 405, 500, 501, 502, 600, 603, 612, 618, 633}
	if thorough {
		some = nil
		for i, op := range ops {
			if i%3 == 0 {
				some = append(some, op)
			}
		}
	}
	for _, a := range some {
		for _, b := range some {
			for how := 0; how < 5; how++ {
				if a != b && (thorough || how < 3) {
					add(a, b, how, 2)
				}
			}
		}
	}
	return l
}
