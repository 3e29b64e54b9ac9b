package main

import "simrt"

// auditOps is what the harness does with an instance while nothing else runs:
// after each round of a shared instance, at the end for the others. Every one of
// these calls is checked against the model.
func auditOps(cs *Case, kind string, st State, round int, crashed bool) []Op {
	r := simrt.NewRng(cs.Seed*31 + uint64(round)*7 + 99)
	last := round == len(cs.Rounds)-1 || cs.Mode != "linear"
	var out []Op
	add := func(k string, a ...int) { out = append(out, Op{K: k, A: a}) }
	ord := func(s *ordState, kind string, pre ...int) {
		add := func(k string, a ...int) { add(k, append(append([]int{}, pre...), a...)...) }
		if has(kind, "size") {
			add("size")
		}
		if pin(cs, kind) == nil || cs.Mode != "linear" {
			add("dump")
		}
		if has(kind, "rdump") {
			add("rdump")
		}
		if has(kind, "str") && r.P(0.5) {
			add("str")
		}
		for _, k := range []string{"keys", "skeys", "empty", "firstq", "lastq", "beginq"} {
			if has(kind, k) && r.P(0.5) {
				add(k)
			}
		}
		u := cs.P["uni"]
		if u < 2 {
			u = 2
		}
		for i := 0; i < 6; i++ {
			k := r.Intn(u)
			if len(s.k) > 0 && r.P(0.6) {
				k = s.k[r.Intn(len(s.k))]
				if d := r.Intn(4) - 1; d < 2 && k+d >= 0 && k+d < u {
					k += d
				}
			}
			for _, o := range []string{"get", "has", "count", "findq", "lbq", "ubq", "eqit"} {
				if has(kind, o) && r.P(0.7) {
					add(o, k)
				}
			}
		}
		if r.P(0.2) {
			add("trav", r.Intn(len(s.k)+2))
		}
		if cs.P["bal"] == 1 && (kind != "skiplist" || ordinarySkip(cs, len(s.k))) && has(kind, "bal") {
			add("bal", u, b2i(s.sp.multi))
		}
	}
	switch s := st.(type) {
	case *ordState:
		ord(s, kind)
		if kind == "map" && len(s.k) > 0 && cs.Mode == "linear" && r.P(0.15) {
			add("delit", s.k[r.Intn(len(s.k))])
			add("dump")
		}
		if has(kind, "iset") && len(s.k) > 0 && cs.Mode == "linear" && r.P(0.1) {
			add("iset", s.k[r.Intn(len(s.k))], 990001+round)
			add("dump")
		}
		if last && r.P(0.3) && len(s.k) < 300 {
			// erase everything, one by one, then use the emptied structure
			for i, k := range s.k {
				if s.sp.delAll && i > 0 && s.k[i-1] == k {
					continue
				}
				add("del", k)
			}
			add("dump")
			add("ins", 0, 77)
			add("dump")
		} else if last && r.P(0.2) && has(kind, "clear") {
			add("clear")
			add("dump")
			add("ins", 1, 78)
			add("dump")
		}
	case *pairState:
		n := max(2, cs.P["nsets"])
		for i := 0; i < n; i++ {
			ord(s.s[i], "set", i)
		}
		if last {
			add([]string{"union", "inter", "diff"}[r.Intn(3)], r.Intn(n), r.Intn(n), r.Intn(cs.P["uni"]))
		}
	case *pqState:
		add("size")
		add("empty")
		if len(s.e) > 0 && r.P(0.6) {
			add("top")
		}
		if last || r.P(0.2) {
			add("drain")
			add("size")
			if r.P(0.4) {
				add("push", 5, 900001+round)
				add("push", 3, 910001+round)
				add("push", 4, 920001+round)
				add("drain")
			}
		}
	case *seqState:
		n := len(s.a)
		if kind != "simplelist" || r.P(0.7) {
			add("size")
		}
		switch kind {
		case "queue", "stack":
			if cs.Mode != "linear" {
				add("str")
			}
			if cs.P["cont"] >= 2 && n < 300 && r.P(0.3) {
				add("cont")
			}
			pop := "popfn"
			if kind == "stack" {
				pop = "popbn"
			}
			if n > 0 {
				add("back")
				if kind == "queue" {
					add("front")
				}
			}
			if last {
				add(pop, n+1)
				add("empty")
				add("pushb", 900001+round)
				add(pop, 2)
			} else if r.P(0.4) {
				add("pushbn", 1000000*(round+1), seqLen(&r))
				add(pop, seqLen(&r))
				add("str")
			}
		case "slicew":
			add("dump")
			add("rdump")
		case "simplelist":
			add("dump")
			add("str")
		default:
			add("dump")
			add("rdump")
			add("str")
			if kind == "deque" && last {
				add("popfn", n/2)
				add("popbn", n)
				add("size")
			}
		}
	case *ringState:
		add("empty")
		n := ringNodes(cs.P)
		add("rgetn", r.Intn(5), 40)
		if r.P(0.05) {
			add("rgetn", 45, 150)
		}
		if r.P(0.3) {
			add("remap", 1, 25)
		}
		if cs.Property == "C11" && r.P(0.3) {
			a := r.Intn(5)
			in := []int{a, 40}
			for i := 0; i < n; i++ {
				if s.mask>>i&1 == 1 {
					in = append(in, i)
				}
			}
			add("rgetn", a, 40)
			add("rproc", in...)
		}
		if last && r.P(0.5) {
			var all []int
			for i := 0; i < n; i++ {
				all = append(all, i)
			}
			add("rrem", all...)
			add("empty")
			add("rgetn", 0, 4)
			add("radd", r.Intn(n))
			add("rgetn", 0, 12)
		}
	case *bloomState:
		if crashed {
			add("frestore", r.Intn(4), r.Intn(5), r.Intn(256))
		}
		add("fhasn", 0, probes)
		add("fdata", -1)
		if !crashed && cs.P["slots"] == 1 && r.P(0.5) {
			add("fdata", r.Intn(4))
			add("frestore", r.Intn(4), r.Intn(5), r.Intn(256))
			add("fadd", r.Intn(64))
			add("fhasn", 0, probes)
		}
		if cs.P["slots"] == 1 && r.P(0.4) {
			add("fproc")
			add("fadd", r.Intn(64))
			add("fhasn", 0, probes)
		}
	case *bitState:
		add("size")
		add("dump")
		if cs.P["slots"] == 1 {
			add("brestore")
			add("dump")
			if len(cs.Kinds) == 1 && len(cs.Pre) == 1 {
				add("bproc")
				add("dump")
			}
		}
	}
	return out
}

func ordinarySkip(cs *Case, n int) bool {
	ml := cs.P["maxlevel"]
	return cs.P["randmode"] == 0 && n >= 1000 && (ml == 0 || ml >= 10)
}

func seqLen(r *simrt.Rng) int {
	switch r.Intn(4) {
	case 0:
		return r.Intn(6)
	case 1:
		return r.Intn(40)
	default:
		n := 128*(1+r.Intn(3)) + r.Intn(7) - 3
		return n
	}
}

// what each keyed structure offers
var reading = map[string]string{
	"map":      " get has size find lb ub first last begin trav ",
	"multimap": " get has size find lb ub first last begin trav ",
	"set":      " has size find lb ub first last begin trav str ",
	"multiset": " has size find lb ub first last begin trav str count ",
	"skiplist": " get size trav keys ",
	"hamt":     " get trav keys skeys ",
	"rbtree":   " get has size empty find lb ub first last begin trav ",
}
var content = map[string]string{
	"map":      " findq lbq ubq firstq lastq beginq rdump dump copy eqit bal icount ifind imax imin ",
	"multimap": " findq lbq ubq firstq lastq beginq rdump dump copy eqit bal icount ifind imax imin ",
	"set":      " findq lbq ubq firstq lastq beginq rdump dump copy eqit bal icount ifind imax imin ",
	"multiset": " findq lbq ubq firstq lastq beginq rdump dump copy eqit bal icount ifind imax imin ",
	"skiplist": " dump copy bal ",
	"hamt":     " dump copy ",
	"rbtree":   " findq lbq ubq firstq lastq beginq rdump dump copy eqit bal ",
}
var writing = map[string]string{
	"map":      " ins del clear iset ",
	"multimap": " ins del clear iset ",
	"set":      " ins del clear ",
	"multiset": " ins del clear delall ",
	"skiplist": " ins del ",
	"hamt":     " ins del ",
	"rbtree":   " ins del clear iset ",
}
