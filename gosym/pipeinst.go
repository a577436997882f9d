package main

import (
	"strconv"
	"time"
)

// Instances of the properties of package pipeline. Sequences of nodes are
// numbers whose digits are kinds of nodes (harness/h/pipe.go): 0 finalizer only,
// 1 Ord, 2 Seq, 3 StrictOrd, 4 Par, 5 LimitedPar(2), 6..9 Ord, Par, StrictOrd,
// LimitedPar without any receiver or finalizer.

// words returns all sequences of k of the digits.
func words(digits string, k int) []string {
	if k == 0 {
		return []string{""}
	}
	var r []string
	for _, w := range words(digits, k-1) {
		for _, d := range digits {
			r = append(r, w+string(d))
		}
	}
	return r
}

func num(w string) int {
	n, _ := strconv.Atoi(w)
	return n
}

func pipeInst(nodes string, n, src, b, user int) instance {
	return inst("Pipe", "nodes", num(nodes), "n", n, "src", src, "b", b, "user", user, "shape", 0).need("ran")
}

func stopInst(nodes string, n, src, b, user, how, who int) instance {
	return inst("PipeCancel", "nodes", num(nodes), "n", n, "src", src, "b", b, "user", user, "how", how, "who", who, "shape", 0).need("stopped")
}

func secs(thorough bool, quick, deep int) time.Duration {
	if thorough {
		quick = deep
	}
	return time.Duration(quick) * time.Second
}

// shape replaces the filters of the nodes.
func (in instance) shape(k int) instance {
	in.params["shape"] = int64(k)
	return in
}

func ordered(d byte) bool  { return d == '1' || d == '3' }
func parallel(d byte) bool { return d == '4' || d == '5' }

func pipeInstances(prop string, thorough bool) []instance {
	var l []instance
	add := func(in ...instance) { l = append(l, in...) }
	choose := func(quick, deep []int) []int {
		if thorough {
			return deep
		}
		return quick
	}
	// combinations whose nodes are removed and merged when the pipeline runs
	merges := []string{"46414", "47414", "56514", "46434", "26413", "48414", "41614", "464", "565", "363", "161", "262", "1713", "2721", "4654", "5645", "4643", "5651", "16463", "36461", "6464", "4646", "46464", "56565"}
	switch prop {
	case "C21":
		for _, k := range []int{1, 2} {
			for _, w := range words("1234506789", k) {
				if w[0] == '0' && k > 1 {
					continue
				}
				for _, n := range choose([]int{2}, []int{0, 1, 2, 3}) {
					for _, src := range choose([]int{0, 1}, []int{0, 1, 2, 3}) {
						add(pipeInst(w, n, src, 0, 0))
					}
				}
			}
		}
		for _, w := range words("12345", 3) {
			add(pipeInst(w, 2, 0, 0, 0))
		}
		for _, w := range merges {
			for _, n := range choose([]int{1, 2}, []int{0, 1, 2, 3}) {
				add(pipeInst(w, n, 0, 0, 0))
			}
			add(pipeInst(w, 2, 1, 0, 0))
		}
		for _, w := range []string{"1", "4", "41", "52", "34", "43"} {
			for u := 1; u <= len(w)+1; u++ {
				add(pipeInst(w, 2, 0, 0, u))
			}
			for _, n := range choose([]int{0, 1, 3}, []int{0, 1, 3, 4, 5}) {
				for src := 0; src < 4; src++ {
					add(pipeInst(w, n, src, 0, 0))
				}
			}
		}
		for sh := 1; sh <= 4; sh++ {
			for _, w := range append(words("12345", 1), words("12345", 2)...) {
				add(pipeInst(w, 2, 0, 0, 0).shape(sh))
				if len(w) == 1 || thorough {
					add(pipeInst(w, 3, 1, 0, 0).shape(sh))
				}
			}
		}
		for _, w := range []string{"453", "543"} {
			add(pipeInst(w, 4, 0, 4, 0).search(1, secs(thorough, 10, 120)), pipeInst(w, 4, 0, 4, 0).search(3, secs(thorough, 10, 120)))
		}
	case "C22":
		for _, n := range choose([]int{5, 17, 40}, []int{5, 11, 17, 33, 70}) {
			for what := 0; what < 5; what++ {
				for order := 0; order < 12; order++ {
					if order/2 == 4 && (n > 17 || what > 1 && n > 11) || order/2 == 3 && n > 40 && what != 0 {
						continue
					}
					add(inst("Shuffle", "n", n, "what", what, "order", order).need("ran"))
				}
			}
		}
		for _, w := range append(words("12345", 2), words("123456789", 3)...) {
			if !(ordered(w[len(w)-1]) || len(w) == 3 && ordered(w[1]) && w[0] >= '2') {
				continue
			}
			add(pipeInst(w, 2, 0, 0, 0))
			if len(w) == 2 || thorough {
				for src := 0; src < 4; src++ {
					for _, n := range choose([]int{3}, []int{1, 3}) {
						if w == "53" && src == 2 && !thorough {
							continue
						}
						if len(w) == 3 && (src > 1 || n == 3 && parallel(w[0]) && parallel(w[1])) {
							continue
						}
						add(pipeInst(w, n, src, 0, 0))
					}
				}
			}
		}
		for _, w := range []string{"41", "43", "21", "23", "1", "3"} {
			add(pipeInst(w, 4, 0, 4, 0))
			if w != "43" || thorough {
				add(pipeInst(w, 4, 1, 0, 0))
			}
			for u := 1; u <= len(w); u++ {
				add(pipeInst(w, 3, 0, 0, u))
			}
		}
		for _, w := range []string{"461", "473", "491", "493", "4813", "4261", "5263", "4613", "4163", "4723", "2763"} {
			add(pipeInst(w, 2, 0, 0, 0))
			if thorough {
				add(pipeInst(w, 3, 0, 3, 0))
			}
		}
		for _, w := range words("2345", 3) {
			add(pipeInst(w+"1", 2, 0, 2, 0), pipeInst(w+"3", 2, 0, 2, 0))
		}
		if thorough {
			add(pipeInst("51", 4, 0, 4, 0), pipeInst("53", 4, 0, 4, 0), pipeInst("441", 3, 0, 0, 0), pipeInst("543", 3, 0, 3, 0), pipeInst("453", 3, 0, 3, 0), pipeInst("41", 5, 0, 5, 0), pipeInst("43", 5, 0, 5, 0), pipeInst("1", 6, 1, 0, 0), pipeInst("3", 6, 1, 0, 0))
		}
		// nodes that vanish between others
		for _, x := range "12345" {
			for _, v := range "6789" {
				for _, y := range "13" {
					add(pipeInst("4"+string(x)+string(v)+string(y), 2, 0, 2, 0))
					add(pipeInst("4"+string(v)+string(x)+string(y), 2, 0, 2, 0))
				}
			}
		}
		for _, sh := range []int{1, 2, 4} {
			for _, w := range words("12345", 2) {
				if ordered(w[1]) {
					add(pipeInst(w, 2, 0, 0, 0).shape(sh))
				}
			}
		}
		for _, w := range []string{"453", "543", "553", "451"} {
			for _, n := range []int{4, 5} {
				add(pipeInst(w, n, 0, n, 0).search(n-3, secs(thorough, 10, 120)))
			}
		}
		for _, w := range []string{"43", "53", "51"} {
			add(pipeInst(w, 5, 0, 5, 0).search(1, secs(thorough, 10, 120)))
		}
		for _, ops := range []int{31, 32, 312} {
			add(inst("Prefix", "ops", ops, "n", 3, "src", 0, "b", 0, "cancel", 0, "str", 0).need("ran"))
		}
	case "C23":
		for _, k := range []int{1, 2} {
			for _, w := range words("12345", k) {
				for _, n := range choose([]int{3}, []int{2, 3, 4}) {
					if n == 4 && k == 2 && w[0] == '5' {
						continue
					}
					add(pipeInst(w, n, 0, n, 0))
				}
			}
		}
		for _, w := range words("12345", 3) {
			add(pipeInst(w, 2, 0, 2, 0))
		}
		for _, w := range []string{"42", "52", "422", "4261", "4602"} {
			add(pipeInst(w, 3, 1, 0, 0))
		}
		for kind := 1; kind <= 9; kind++ {
			add(inst("Overlap", "kind", kind, "n", 3, "pre", 4, "post", 0, "recvs", 1, "fins", 0).need("ran"))
			add(inst("Overlap", "kind", kind, "n", 2, "pre", 5, "post", 3, "recvs", 1, "fins", 0).need("ran"))
			for _, rf := range [][2]int{{2, 0}, {2, 3}, {1, 2}, {1, 3}, {3, 1}, {3, 4}} {
				add(inst("Overlap", "kind", kind, "n", 3, "pre", 4, "post", 0, "recvs", rf[0], "fins", rf[1]).need("ran"))
				add(inst("Overlap", "kind", kind, "n", 2, "pre", 0, "post", 1, "recvs", rf[0], "fins", rf[1]).need("ran"))
			}
			if thorough {
				add(inst("Overlap", "kind", kind, "n", 4, "pre", 4, "post", 0, "recvs", 1, "fins", 0).need("ran"))
				add(inst("Overlap", "kind", kind, "n", 3, "pre", 4, "post", 1, "recvs", 1, "fins", 0).need("ran"))
			}
		}
		for _, k := range []int{2, 3} {
			for _, limit := range []int{0, k, k + 1} {
				for _, pre := range []int{0, 1, 2, 3, 4, 5} {
					if pre != 0 && (k > 2 || limit > k) && !thorough {
						continue
					}
					if k == 3 && (pre == 5 || pre == 4 && limit > k) {
						continue
					}
					for _, post := range []int{0, 1, 3} {
						if post != 0 && k > 2 {
							continue
						}
						add(inst("Rendezvous", "k", k, "limit", limit, "pre", pre, "post", post).need("met"))
					}
				}
			}
		}
		for limit := -1; limit <= 3; limit++ {
			for _, pre := range []int{0, 4, 2} {
				for _, post := range []int{0, 1, 3} {
					n := 3
					if pre != 0 || post != 0 {
						n = 2
						if limit == 1 {
							n = 3
						}
					} else if limit == 3 {
						n = 4
					}
					add(inst("AtMost", "n", n, "limit", limit, "procs", 2, "pre", pre, "post", post, "recvs", 1, "fins", 0).need("ran"))
				}
			}
		}
		for _, rf := range [][2]int{{2, 0}, {2, 3}, {1, 2}, {1, 3}, {2, 1}, {3, 1}} {
			for limit := 0; limit <= 3; limit++ {
				for _, pre := range []int{0, 4} {
					n := 3
					if pre != 0 && limit != 1 || rf[0] == 3 && limit != 1 {
						n = 2
					} else if limit == 3 {
						n = 4
					}
					add(inst("AtMost", "n", n, "limit", limit, "procs", 2, "pre", pre, "post", 0, "recvs", rf[0], "fins", rf[1]).need("ran"))
				}
			}
		}
		if thorough {
			add(inst("AtMost", "n", 3, "limit", 2, "procs", 2, "pre", 0, "post", 0, "recvs", 3, "fins", 3).need("ran"))
			add(inst("AtMost", "n", 3, "limit", 2, "procs", 2, "pre", 0, "post", 3, "recvs", 1, "fins", 0).need("ran"))
			add(inst("AtMost", "n", 3, "limit", 2, "procs", 2, "pre", 4, "post", 0, "recvs", 1, "fins", 0).need("ran"))
			add(inst("AtMost", "n", 4, "limit", 2, "procs", 2, "pre", 0, "post", 0, "recvs", 1, "fins", 0).need("ran"))
			add(inst("AtMost", "n", 3, "limit", 0, "procs", 1, "pre", 4, "post", 0, "recvs", 1, "fins", 0).need("ran"))
		}
	case "C24":
		for _, w := range append(words("12345", 2), "10", "20", "30", "40", "50", "100", "402", "504", "303", "410", "450", "140", "530", "205", "46404", "56505", "4060", "1020", "161", "363") {
			for _, n := range choose([]int{0, 2}, []int{0, 1, 2, 3}) {
				add(pipeInst(w, n, 0, 0, 0))
			}
			add(pipeInst(w, 1, 1, 0, 0))
			if len(w) > 3 || len(w) == 3 && !thorough {
				continue
			}
			for how := 0; how < 4; how += choose([]int{2}, []int{1})[0] {
				if how == 1 {
					continue
				}
				for _, who := range []int{0, 1, 3} {
					add(stopInst(w, 1, 0, 0, 0, how, who))
					if how == 0 && !(w == "53" && who == 3) || thorough {
						add(stopInst(w, 2, 0, 0, 0, how, who))
					}
				}
			}
		}
		for _, w := range words("12345", 1) {
			for _, who := range []int{0, 1, 2, 3, 4, 5} {
				for _, how := range []int{0, 2, 3} {
					if who == 5 && how == 0 {
						continue
					}
					add(stopInst(w, 3, 0, 0, 0, how, who))
				}
			}
		}
		for sh := 1; sh <= 4; sh++ {
			for _, w := range append(words("12345", 1), "41", "13", "35", "53", "14", "52", "12") {
				for _, n := range []int{0, 2} {
					add(pipeInst(w, n, 0, 2, 0).shape(sh))
				}
				if sh != 4 {
					add(stopInst(w, 1, 0, 1, 0, 0, 1).shape(sh), stopInst(w, 2, 0, 2, 0, 0, 0).shape(sh))
				}
			}
		}
	case "C25":
		for _, k := range []int{1, 2} {
			for _, w := range words("12345", k) {
				for how := 0; how < 4; how++ {
					for _, who := range []int{0, 1, 2, 3, 4, 5} {
						if who == 5 && how < 2 {
							continue
						}
						ns := choose([]int{2}, []int{1, 2, 3})
						if k == 1 {
							ns = choose([]int{2, 3}, []int{1, 2, 3, 4})
						}
						for _, n := range ns {
							if k == 2 && n == 2 && !thorough && (how == 3 || how == 2 && who != 3 || w == "53" && how+who != 0) {
								n = 1
							}
							if n == 3 && k == 2 && (w[0] == '5' || w[1] == '5' || how == 3) {
								continue
							}
							if who == 2 {
								add(stopInst(w, n, 0, 1, 0, how, who))
							} else {
								add(stopInst(w, n, 0, n, 0, how, who))
							}
						}
					}
				}
				add(pipeInst(w, 2, 3, 0, 0))
			}
		}
		for _, w := range words("1345", 3) {
			if w == "535" && !thorough {
				continue
			}
			n := choose([]int{1}, []int{2})[0]
			if n == 2 && (w[1] == '5' || w[2] == '5' || w[0] == '5') {
				n = 1
			}
			add(stopInst(w, n, 0, n, 0, 0, 0), stopInst(w, n, 0, n, 0, 1, 3), stopInst(w, n, 0, n, 0, 2, 3))
		}
		for _, w := range []string{"46414", "56514", "46434", "1713", "464", "565", "363", "463", "563"} {
			add(stopInst(w, 1, 0, 1, 0, 0, 0), stopInst(w, 1, 0, 1, 0, 1, 0), stopInst(w, 1, 0, 1, 0, 2, 3))
		}
		for u := 1; u <= 2; u++ {
			for _, w := range []string{"1", "3", "4", "5", "43"} {
				add(stopInst(w, 2, 0, 2, u, 0, 0), stopInst(w, 2, 0, 2, u, 1, 3))
			}
		}
		for _, w := range []string{"453", "543", "53", "43", "45"} {
			for _, n := range []int{3, 4} {
				add(pipeInst(w, n, 0, n, 0).search(1, secs(thorough, 10, 100)))
				for how := 0; how < 2; how++ {
					add(stopInst(w, n, 0, n, 0, how, 0).search(1, secs(thorough, 6, 60)))
				}
				add(stopInst(w, n, 0, n, 0, 0, 3).search(2, secs(thorough, 6, 60)))
			}
		}
		for single := 0; single < 2; single++ {
			for _, n := range choose([]int{0, 1, 2, 3}, []int{0, 1, 2, 3, 4, 5}) {
				for _, b := range []int{1, 2} {
					add(inst("ChanCancel", "n", n, "single", single, "b", b).need("stopped"))
				}
			}
		}
		for _, size := range []int{-1, 0, 1, 10} {
			for _, limit := range []int{0, 1, 2, 3} {
				for _, pre := range []int{0, 2, 3} { // behind a parallel node, an unfair schedule never ends
					if size >= 0 && limit >= size {
						continue
					}
					add(inst("Endless", "size", size, "limit", limit, "pre", pre).need("stopped"))
				}
			}
		}
	case "C26":
		for kind := 1; kind <= 9; kind++ {
			for _, n := range choose([]int{1, 2}, []int{1, 2, 3}) {
				for outside := 0; outside <= 2; outside++ {
					if !thorough && n == 2 && outside == 2 || n == 3 && outside > 0 {
						continue
					}
					add(inst("Errs", "kind", kind, "n", n, "outside", outside).need("failed"))
				}
			}
			for _, size := range []int{-1, 0, 3} {
				add(inst("ErrBefore", "kind", kind, "size", size).need("ran"))
				for set := 0; set < 2; set++ {
					for _, n := range choose([]int{0, 1, 2}, []int{0, 1, 2, 3}) {
						if size == 0 && n > 0 {
							continue
						}
						add(inst("SourceErr", "n", n, "kind", kind, "size", size, "set", set).need("failed"))
					}
				}
			}
			for bytes := 0; bytes < 2; bytes++ {
				for _, n := range []int{0, 1, 3} {
					for b := 1; b <= 2; b++ {
						add(inst("ReadErr", "n", n, "bytes", bytes, "b", b, "kind", kind).need("failed"))
					}
				}
			}
		}
		for _, w := range words("12345", 2) {
			add(stopInst(w, 1, 0, 1, 0, 1, 0), stopInst(w, 1, 0, 1, 0, 1, 1), stopInst(w, 1, 0, 1, 0, 1, 3), stopInst(w, 1, 0, 1, 0, 1, 4))
			add(pipeInst(w, 1, 0, 0, 0))
		}
	case "C27":
		for _, procs := range choose([]int{1, 2, 3, 8}, []int{1, 2, 3, 4, 5, 8, 12, 16, 32}) {
			for _, nb := range choose([]int{0, 1, 2, 3, 5, 16}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 64}) {
				if nb != 0 && procs > 2 {
					continue
				}
				add(inst("Known", "mode", 0, "nb", nb, "n", 0, "procs", procs).need("ran"))
			}
			for _, n := range choose([]int{0, 1, 2, 5, 9}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 30, 60}) {
				if procs > 2 && n > 5 {
					continue
				}
				add(inst("Known", "mode", 1, "nb", 0, "n", n, "procs", procs).need("ran"))
				add(inst("Known", "mode", 2, "nb", 0, "n", n, "procs", procs).need("ran"))
			}
			add(inst("DefaultProcs", "procs", procs).need("ran"))
		}
		for _, f := range choose([]int{0, 1, 2, 3, 5}, []int{0, 1, 2, 3, 4, 5, 6, 8}) {
			add(inst("Unknown", "set", 0, "fetches", f).need("ran"), inst("Unknown", "set", 1, "fetches", f).need("ran"))
		}
	case "C28":
		for src := 0; src < 4; src++ {
			for _, n := range choose([]int{0, 1, 2, 3}, []int{0, 1, 2, 3, 4}) {
				for _, chunk := range []int{1, 2, 100} {
					if src > 1 && chunk > 1 {
						continue
					}
					add(inst("Direct", "src", src, "n", n, "chunk", chunk, "buf", 0).need("delivered"))
					if src < 2 {
						add(inst("Direct", "src", src, "n", n, "chunk", chunk, "buf", 3).need("delivered"), inst("Direct", "src", src, "n", n, "chunk", chunk, "buf", 4).need("delivered"))
					}
				}
			}
		}
		for src := 0; src <= 5; src++ {
			for _, n := range choose([]int{0, 1, 2, 3, 5}, []int{0, 1, 2, 3, 4, 5}) {
				if src > 1 && src < 5 && n == 5 && !thorough {
					n = 4
				}
				add(inst("Reflected", "src", src, "n", n).need("delivered"))
			}
			if src != 1 && thorough {
				for _, n := range []int{6, 8} {
					if src > 1 && src < 5 && n == 8 {
						continue
					}
					add(inst("Reflected", "src", src, "n", n).need("delivered"))
				}
			}
		}
		for single := 0; single < 2; single++ {
			for n := 0; n <= 3; n++ {
				for _, b := range []int{1, 2} {
					add(inst("ChanCancel", "n", n, "single", single, "b", b).need("stopped"))
				}
			}
		}
	case "C29":
		for kind := 1; kind <= 9; kind++ {
			for what := 0; what < 4; what++ {
				for cancel := 0; cancel < 2; cancel++ {
					for _, pre := range []int{0, 4, 2, 5, 3} {
						for _, n := range choose([]int{0, 1, 2, 3}, []int{0, 1, 2, 3, 4}) {
							src := 0
							if pre == 0 {
								src = n % 2
							}
							par := kind == 4 || kind == 5 || kind == 9
							if pre != 0 && (n < 2 || n > 2 && (!thorough || par || pre != 2)) || n == 3 && par && cancel == 1 && !(thorough && what%2 == 0) || (pre == 5 || pre == 3 || kind == 5 && pre == 2) && par && cancel == 1 && !thorough || n == 4 && par && (cancel == 1 || kind == 5) {
								continue
							}
							b := n
							if src == 1 || b == 0 {
								b = 1
							}
							in := inst("Quant", "n", n, "kind", kind, "what", what, "cancel", cancel, "src", src, "b", b, "pre", pre).need("complete")
							if cancel == 1 && n > 0 {
								in = in.need("cancelled")
							}
							add(in)
						}
					}
				}
			}
		}
	case "C30":
		for kind := 1; kind <= 9; kind++ {
			for what := 0; what < 3; what++ {
				for _, ops := range []int{0, 1, 2, 12, 21, 3, 13} {
					for _, src := range []int{0, 1, 3} {
						for _, n := range choose([]int{0, 2, 3}, []int{0, 1, 2, 3, 4}) {
							par := kind == 4 || kind == 5 || kind == 9
							if n > 2 && (ops > 2 || par && ops != 0 && !thorough || src == 3) || ops == 3 && what < 2 && !thorough || n == 4 && (par || ops != 0) || n == 0 && ops > 2 {
								continue
							}
							if ops > 2 && !thorough && (src == 3 || kind > 6) {
								continue
							}
							add(inst("Collect", "n", n, "kind", kind, "src", src, "b", 0, "ops", ops, "what", what).need("ran"))
						}
					}
				}
			}
			for what := 0; what < 3; what += 2 {
				add(inst("Collect", "n", 3, "kind", kind, "src", 6, "b", 0, "ops", 0, "what", what).need("ran"))
				for _, src := range []int{0, 6} {
					if kind != 5 || thorough {
						add(inst("Collect", "n", 3, "kind", kind, "src", src, "b", 3, "ops", 3, "what", what).need("ran"))
					}
				}
			}
			add(inst("BadSlice", "n", 2, "kind", kind, "src", 0).need("failed"), inst("BadSlice", "n", 2, "kind", kind, "src", 1).need("failed"))
		}
	case "C31":
		for _, ops := range []int{1, 2, 11, 12, 21, 22, 121, 212, 122, 211, 112, 221, 111, 222, 31, 32, 13, 23, 132, 231, 312} {
			for src := 0; src < 5; src++ {
				for _, n := range choose([]int{0, 1, 2, 3}, []int{0, 1, 2, 3, 4, 5}) {
					three := ops > 100 && ops%10 != 3 && ops/10%10 != 3
					if three && (n > 2 && src != 0 && (src != 1 || n > 3) || n > 4 || src == 2 && n > 1) || n > 3 && ops > 10 && src >= 2 || n > 4 && ops > 100 || ops%10 == 3 && n > 3 || ops > 30 && !three && n > 2 && (src > 1 || n > 3) {
						continue
					}
					for cancel := 0; cancel < 2; cancel++ {
						if cancel == 1 && (ops == 13 || ops == 132 || ops == 312 || ops%10 == 2 && ops < 100 && ops != 12 || ops == 23 || ops == 32 || ops == 231) {
							continue // the elements behind another node may be lost
						}
						add(inst("Prefix", "ops", ops, "n", n, "src", src, "b", 0, "cancel", cancel, "str", 0).need("ran"))
					}
				}
			}
			for _, n := range choose([]int{0, 3}, []int{0, 1, 2, 3, 4}) {
				if ops > 100 && n > 3 {
					continue
				}
				add(inst("Prefix", "ops", ops, "n", n, "src", 0, "b", 0, "cancel", 0, "str", 1).need("ran"))
			}
		}
	case "C33":
		for m := 0; m <= choose([]int{3}, []int{5})[0]; m++ {
			for kind := 0; kind < 3; kind++ {
				add(inst("Compose", "m", m, "kind", kind).need("composed"))
			}
		}
		setup := func(nodes, shape, add_, n int) {
			add(inst("Setup", "nodes", nodes, "shape", shape, "add", add_, "n", n).need("ran"))
		}
		for a := 1; a < 10; a++ {
			for shape := 0; shape < 5; shape++ {
				setup(a, shape, shape%3, 2)
			}
			for b := 0; b < 10; b++ {
				for shape := 0; shape < 5; shape++ {
					if shape < 2 || thorough || (a+b+shape)%5 < 2 {
						setup(10*a+b, shape, (a+b+shape)%3, choose([]int{1}, []int{2})[0])
					}
				}
				for c := 0; c < 8; c++ {
					if thorough || (a+2*b+3*c)%9 == 0 {
						setup(100*a+10*b+c, (a+b+c)%5, (a+c)%3, 1)
					}
				}
			}
		}
	}
	return l
}

func init() {
	nodes := "node sequences over Ord, Seq, StrictOrd, Par, LimitedPar(2), nodes with only a finalizer and nodes without receivers"
	sizes := "symbolic NofBatches or batchInc and maxBatchSize over all 64-bit values"
	propInfo["C21"] = info{bounds: []string{"all " + nodes + " of length 1 and 2, all of length 3 of the first five, 24 longer ones with removals and merges, nodes of user programs, and nodes of one kind or two with several filters, filters without receiver, several finalizers; 0..3 elements (thorough up to 5; 3 nodes: 2); " + sizes + "; slices, channels and functions of unknown size with batches of any size; all schedules"}}
	propInfo["C22"] = info{bounds: []string{"all sequences of 2 and 3 nodes with an ordered node behind another one, all 4-node sequences of Seq, StrictOrd, Par, LimitedPar before Ord or StrictOrd (2 elements), Limit and Skip behind Par, 5, 17 or 40 (thorough up to 70) batches in six families of orders in front of Ord, Limit and Skip, vanishing nodes between others, several filters per node; 2..4 elements (thorough up to 6 for some); " + sizes + "; all schedules"}}
	propInfo["C23"] = info{bounds: []string{"all sequences of 1..3 of the five kinds with 2..3 elements (thorough 4); all constructors including NewNode and LimitedPar(1), with 1..3 receivers and 0..4 finalizers, behind parallel nodes; LimitedPar(-1..3) with 2..4 batches; 2 or 3 receivers of a parallel node that wait for each other; all schedules"}}
	propInfo["C24"] = info{bounds: []string{"all sequences of 1 and 2 kinds, 20 with finalizers only and removed nodes, several filters per node; 0..2 elements (thorough 3); no cancellation, or Cancel or the context at any receiver call, finalizer, fetch, filter, or by another goroutine at any time; all schedules"}}
	propInfo["C25"] = info{bounds: []string{"all sequences of 1 and 2 kinds with 1..3 elements (thorough up to 4), all of 3 out of Ord, StrictOrd, Par, LimitedPar with 1 element (thorough 2), 9 with removals, nodes of user programs; Cancel, SetErr, the context or its parent at any receiver call, finalizer, fetch, filter, or by another goroutine at any time, or before the run; endless sources and channels that are never closed; all schedules"},
		assumptions: []string{"endless sources only in front of sequential nodes: a parallel node with an endless source is only guaranteed to finish under fair scheduling"}}
	propInfo["C26"] = info{bounds: []string{"all 9 constructors with 1..2 receivers (thorough 3) and 0..2 other goroutines that call SetErr at any time; source errors at every fetch, with or without data, together with SetErr; read errors of scanners; all schedules"}}
	propInfo["C27"] = info{bounds: []string{"any size >= 0 with NofBatches 0, 1, 2, 3, 5, 16 (thorough 13 values up to 64), any argument of NofBatches with sizes 0, 1, 2, 5, 9 (thorough up to 60), GOMAXPROCS 1, 2, 3, 8 (thorough up to 32); any batchInc and maxBatchSize with up to 5 fetches (thorough 8)"}}
	propInfo["C28"] = info{bounds: []string{"0..5 elements with arbitrary values (thorough up to 8); every sequence of requested sizes; readers that return 1, 2 or more bytes at a time; channels with a concurrent sender; cancellation at any element or time; all schedules"},
		assumptions: []string{"reflect is modelled; bufio.Scanner is executed"}}
	propInfo["C29"] = info{bounds: []string{"0..3 batches (thorough 4) with every combination of predicate results, all constructors, alone and behind Par, Seq, LimitedPar, StrictOrd; with and without cancellation; all schedules"}}
	propInfo["C30"] = info{bounds: []string{"0, 2, 3 elements (thorough 0..4), any batch settings, all constructors, behind any Limit and Skip in front (up to 2) or a parallel node, known and unknown sizes, any previous count and three previous slices; all schedules"}}
	propInfo["C31"] = info{bounds: []string{"21 sequences of up to 3 Limit, Skip and Par nodes with any 64-bit arguments, 0..3 elements (thorough up to 5), any batch settings, batches of any sizes, known and unknown sizes, slices and strings, with and without cancelWhenReached; all schedules"}}
	propInfo["C34"] = info{bounds: []string{"pairs and sequences of two to four calls: every function of parallel, sequential, speculative, sync.Map, the three sort functions (5 elements with scaled constants; 1400, 12400, 2700 with the real ones), the slice types, and 50 pipelines (10 sequences of nodes, 5 kinds of sources), each with a call of the same function; 21 representatives (thorough a third of all) with each other; in two goroutines, one after the other, nested once and three times, after three panicking calls; 2 functions, batches or splits; symbolic values; GOMAXPROCS 1 and 2 (thorough 3); all schedules"}}
	propInfo["C33"] = info{bounds: []string{"all sequences of 1 and 2 (a ninth, thorough all, of 3) of the five kinds, NewNode nodes, nodes with only a finalizer, and kept and dropped nodes of a user program, with five mixes of filters with and without receivers and finalizers; nodes added at once or in parts; any announced size, and any size or none set by any filter or node; 1..2 batches; ComposeFilters with up to 3 filters (thorough 5); all schedules"}}
}
