package main

import (
	"simrt"
	"strings"
)

// gen derives one complete case from one seed.
type gen struct {
	r    simrt.Rng
	cs   *Case
	val  int
	uni  int
	hot  []int
	drop map[string]bool // operations this run does not use (swarm)
	hotP float64
}

func mix(a, b uint64) uint64 {
	r := simrt.NewRng(a*0x9e3779b97f4a7c15 + b)
	r.U64()
	return r.U64()
}

func propSeed(id string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(id); i++ {
		h = (h ^ uint64(id[i])) * 1099511628211
	}
	return h
}

// genCase is case number i of a property under a top-level seed.
func genCase(prop string, seed, i uint64) *Case {
	cs := &Case{Property: prop, Mode: "linear", P: map[string]int{}, Seed: mix(mix(seed, propSeed(prop)), i)}
	g := &gen{r: simrt.NewRng(cs.Seed), cs: cs, val: 1, drop: map[string]bool{}, hotP: 0.75}
	for _, k := range strings.Fields("get has find lb ub first last begin trav size str count keys skeys clear delall front back empty top copy") {
		if g.r.P(0.25) {
			g.drop[k] = true
		}
	}
	switch prop {
	case "C01", "C02", "C03", "C04", "C06", "C07":
		g.ordLinear(map[string]string{"C01": "map", "C02": "multimap", "C03": "set", "C04": "multiset", "C06": "skiplist", "C07": "hamt"}[prop], 0)
	case "C05":
		g.pairLinear(0)
	case "C08":
		g.pqLinear("pq", 0)
	case "C09":
		g.seqLinear("queue", 0)
	case "C10":
		g.seqLinear("stack", 0)
	case "C11":
		g.ringLinear()
	case "C12":
		g.bloomLinear(false)
	case "C13":
		if g.r.P(0.15) {
			g.bitmapExport()
		} else {
			g.bloomLinear(true)
		}
	case "C14":
		switch g.r.Intn(10) {
		case 0, 1:
			g.pqLinear("pq", 0.35)
		case 2:
			g.seqLinear("queue", 0.35)
		case 3:
			g.seqLinear("stack", 0.35)
		case 4:
			g.pairLinear(0.35)
		default:
			g.ordLinear(g.pick("map", "multimap", "set", "multiset", "skiplist", "hamt"), 0.35)
		}
	case "C15":
		g.traversal()
	case "C16":
		g.isolated()
	case "C17":
		g.readers(g.readerKind(), false)
	case "C18":
		g.ranges()
	case "C19":
		g.balance()
	default:
		panic("no generator for " + prop)
	}
	if cs.P["giant"] == 1 {
		if cs.P["cont"] == 4 { // copies itself at each call
			cs.P["cont"] = 3
		}
		cs.P["oplimit"] = max(cs.P["oplimit"], 1<<27)
		sparing := func(ops []Op) {
			for i := range ops {
				if ops[i].K == "str" { // quadratic
					ops[i] = Op{K: "size"}
				}
			}
		}
		for _, p := range cs.Pre {
			sparing(p)
		}
		for i := range cs.Rounds {
			for _, c := range cs.Rounds[i].T {
				sparing(c)
			}
		}
	}
	g.keyRange()
	return cs
}

// keyRange chooses where in the key type's range the keys of the case lie. Its
// draws are apart from those of the rest of the case.
func (g *gen) keyRange() {
	P := g.cs.P
	if kt, ok := P["kt"]; !ok || kt >= 20 {
		return
	}
	r := simrt.NewRng(mix(g.cs.Seed, 77))
	kb := r.Intn(8)
	if kb > 5 || r.P(0.2) {
		return
	}
	kcap := max(2, P["uni"])
	pair := false // then the calls name the set first
	for _, k := range g.cs.Kinds {
		pair = pair || k == "pair"
	}
	each := func(ops []Op) {
		for _, op := range ops {
			switch n := len(op.A); {
			case op.K == "churn":
				for _, x := range blockCodes(op.A[:5]) {
					kcap = max(kcap, x[0]+1)
				}
			case op.K == "insn" || op.K == "deln":
				for _, x := range blockCodes(op.A[n-5:]) {
					kcap = max(kcap, x[0]+1)
				}
			case op.K == "union" || op.K == "inter" || op.K == "diff":
				kcap = max(kcap, op.A[2]+1)
			case n > 0:
				kcap = max(kcap, op.A[0]+1)
				if pair && n > 1 && (op.K != "ins" || n > 2) {
					kcap = max(kcap, op.A[1]+1)
				}
			}
		}
	}
	for _, p := range g.cs.Pre {
		each(p)
	}
	for _, ph := range g.cs.Rounds {
		for _, t := range ph.T {
			each(t)
		}
	}
	if kcap <= keyUniverse[P["kt"]] {
		P["kb"], P["kcap"] = kb, kcap
	}
}

func (g *gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }
func (g *gen) pickInt(s ...int) int    { return s[g.r.Intn(len(s))] }

// newVal is a value not used before, or nothing in particular.
func (g *gen) newVal() int {
	g.val++
	if g.r.P(0.05) {
		return 0
	}
	return g.val
}

// sched draws a scheduling strategy for a phase of about `ops` calls.
func (g *gen) sched(ops int) simrt.Sched {
	r := &g.r
	switch x := r.Intn(100); {
	case x < 35:
		return simrt.Sched{Strategy: "walk", Gap: g.pickInt(1, 2, 4, 8, 20, 60, 200), PLock: []float64{0, 0.1, 0.3, 0.6}[r.Intn(4)]}
	case x < 60:
		return simrt.Sched{Strategy: "pct", Depth: 1 + r.Intn(5), Horizon: ops * g.pickInt(10, 30, 80, 200)}
	case x < 70:
		return simrt.Sched{Strategy: "roundrobin", Gap: g.pickInt(1, 2, 5, 15, 50)}
	case x < 85:
		return simrt.Sched{Strategy: "stall", Gap: g.pickInt(5, 20, 60, 150), Horizon: g.pickInt(30, 100, 400, 2000), PLock: []float64{0, 0.2}[r.Intn(2)]}
	}
	// switches only at lock and callback points
	return simrt.Sched{Strategy: "walk", Gap: 1 << 30, PLock: []float64{0.2, 0.5, 0.8}[r.Intn(3)]}
}

// rounds fills in the concurrent phases.
func (g *gen) rounds(nT int, op func(t int) Op, maxOps int) {
	n := 1
	switch x := g.r.Intn(10); {
	case x >= 9:
		n = 4
	case x >= 7:
		n = 3
	case x >= 4:
		n = 2
	}
	most := 26
	switch {
	case nT > 4:
		maxOps = min(maxOps, 3)
	case g.r.P(0.04):
		maxOps *= 4
		most = 56 // the search for an order takes 63
		if g.cs.Mode != "linear" {
			maxOps *= 2
			most = 200
		}
	}
	for i := 0; i < n; i++ {
		rd := &Round{Seed: g.r.U64()}
		total := 0
		for t := 0; t < nT; t++ {
			k := 1 + g.r.Intn(maxOps)
			if nT > 1 && g.r.P(0.1) {
				k = 0
			}
			var ops []Op
			for j := 0; j < k && total < most; j++ {
				ops = append(ops, op(t))
				total++
			}
			rd.T = append(rd.T, ops)
		}
		rd.Sched = g.sched(total)
		g.cs.Rounds = append(g.cs.Rounds, rd)
	}
}

func (g *gen) threads() int {
	switch x := g.r.Intn(100); {
	case x < 48:
		return 2
	case x < 77:
		return 3
	case x < 96:
		return 4
	}
	return 5 + g.r.Intn(3)
}

// ---- keyed structures

func (g *gen) keyType(kind string) {
	if kind == "hamt" {
		g.cs.P["kt"] = 1
		return
	}
	kt := g.r.Intn(keyTypes)
	if g.r.P(0.5) {
		kt = g.r.Intn(2)
	}
	g.cs.P["kt"] = kt
	g.cs.P["rev"] = b2i(g.r.P(0.25))
}

// giant is the share of the largest runs with more entries than 16 bits count.
var giant = 0.08

func (g *gen) size(max int) int {
	n := 0
	switch x := g.r.Intn(100); {
	case x < 20:
	case x < 50:
		n = 1 + g.r.Intn(6)
	case x < 78:
		n = 5 + g.r.Intn(26)
	case x < 97:
		n = 30 + g.r.Intn(170)
	default:
		n = 500 + g.r.Intn(1800)
		if max > 3000 && g.r.P(0.08) {
			n = 2300 + g.r.Intn(max-2300)
			if max == 9000 && g.r.P(giant) {
				if m := g.cs.P["maxlevel"]; m > 0 && m < 16 {
					g.cs.P["maxlevel"] = 16
				}
				g.cs.P["giant"] = 1
				return 65600 + g.r.Intn(2500)
			}
		}
	}
	if n > max {
		n = g.r.Intn(max + 1)
	}
	return n
}

// often is how often a call is repeated in order to wear a structure out: past 256 or,
// in a giant run, past 65536 times. It comes in portions of at most 1500.
func (g *gen) often() []int {
	if !g.r.P(0.008) {
		return nil
	}
	g.cs.P["oplimit"] = max(g.cs.P["oplimit"], 1<<27)
	if g.r.P(0.96) {
		return []int{g.pickInt(100, 128, 255, 256, 256, 256, 257, 300, 512, 1030)}
	}
	g.cs.P["giant"] = 1
	var out []int
	for left := 65536 + g.pickInt(0, 0, -1, 1, 100); left > 0; {
		t := min(left, 1490)
		out = append(out, t)
		left -= t
	}
	return out
}

// prefillOrd builds up a structure of about n entries and sets the hot keys.
func (g *gen) prefillOrd(n, maxDup int) []Op {
	limit := big
	if g.cs.Kinds[0] != "hamt" {
		limit = keyUniverse[g.cs.P["kt"]]
	}
	uni := 3 + 2*n + g.r.Intn(5)
	if g.r.P(0.3) {
		uni = 3 + n + n/4
	}
	if maxDup > 1 && g.r.P(0.4) {
		uni = 2 + n/maxDup + g.r.Intn(4)
	}
	if uni > limit {
		uni = limit
	}
	if m := n / uni; m >= maxDup && maxDup > 1 {
		n = uni * maxDup
	}
	g.uni = uni
	g.cs.P["uni"] = uni
	var out []Op
	left := n
	for left > 0 {
		k := left
		if g.r.P(0.5) {
			k = 1 + g.r.Intn(left)
		}
		stride := g.pickInt(1, -1, 2, 3, 7, 61, 337)
		if stride > uni {
			stride = 1
		}
		start := g.r.Intn(uni)
		out = append(out, Op{K: "insn", A: []int{start, k, stride, uni, g.val + 1}})
		g.val += k + 1
		left -= k
		if left > 0 && g.r.P(0.5) || g.r.P(0.3) {
			d := 1 + g.r.Intn(k)
			out = append(out, Op{K: "deln", A: []int{g.r.Intn(uni), d, g.pickInt(1, -1, 2, 3, 5, 31), uni, 0}})
		}
	}
	if n < 3000 && uni > 0 && reading[g.cs.Kinds[0]] != "" {
		var before []Op // what was asked before is asked again afterwards
		wear := g.often()
		if len(wear) > 0 {
			for i := g.r.Intn(4); i > 0; i-- {
				if op := g.ordRead(g.cs.Kinds[0], false, n); !(op.K == "copy" || op.K == "trav" || op.K == "union" || op.K == "inter" || op.K == "diff") {
					before = append(before, op)
				}
			}
			out = append(out, before...)
		}
		for i, t := range wear {
			k := 1
			if i == 0 && g.r.P(0.25) {
				k = 1 + g.r.Intn(7)
			}
			start := g.r.Intn(uni)
			if len(before) > 0 && len(before[0].A) > 0 && g.r.P(0.6) {
				start = before[0].A[0]
			}
			op := Op{K: "churn", A: []int{start, k, 1, uni, g.val + 1, max(1, t/k)}}
			if g.r.P(0.3) {
				op.A = append(op.A, 1)
			}
			out = append(out, op)
			g.val += k + 1
		}
		out = append(out, before...)
	}
	if n > 0 && n < 250 && g.r.P(0.4) {
		// a stretch of single random calls
		for i := g.r.Intn(2 * n); i > 0; i-- {
			k := g.r.Intn(uni)
			if g.r.P(0.5) {
				out = append(out, Op{K: "ins", A: []int{k, g.newVal()}})
			} else {
				out = append(out, Op{K: "del", A: []int{k}})
			}
		}
	}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		k := g.r.Intn(uni)
		g.hot = append(g.hot, k)
		if g.r.P(0.4) && k+1 < uni {
			g.hot = append(g.hot, k+1)
		}
	}
	if g.r.P(0.2) {
		g.hot = append(g.hot, g.pickInt(0, uni-1))
	}
	return out
}

func (g *gen) key() int {
	if len(g.hot) > 0 && g.r.P(g.hotP) {
		return g.hot[g.r.Intn(len(g.hot))]
	}
	return g.r.Intn(g.uni)
}

func (g *gen) ordWrite(kind string) Op {
	for {
		switch x := g.r.Intn(20); {
		case x < 9:
			return Op{K: "ins", A: []int{g.key(), g.newVal()}}
		case x < 17:
			return Op{K: "del", A: []int{g.key()}}
		case x == 17:
			if has(kind, "clear") && !g.drop["clear"] && g.r.P(0.6) {
				return Op{K: "clear"}
			}
		default:
			if has(kind, "delall") && !g.drop["delall"] {
				return Op{K: "delall", A: []int{g.key()}}
			}
		}
	}
}

func (g *gen) ordArgs(k string, n int) Op {
	switch k {
	case "get", "has", "find", "lb", "ub", "count", "findq", "lbq", "ubq", "eqit":
		return Op{K: k, A: []int{g.key()}}
	case "icount", "ifind", "imax", "imin":
		return Op{K: k, A: []int{g.key(), 1 + g.r.Intn(g.val+1)}} // a key, a value
	case "trav", "copy":
		if g.r.P(0.5) {
			return Op{K: k, A: []int{0}}
		}
		if n > 12 && g.r.P(0.15) {
			return Op{K: k, A: []int{1 + g.r.Intn(n+1)}}
		}
		return Op{K: k, A: []int{1 + g.r.Intn(min(n, 12)+2)}}
	}
	return Op{K: k}
}

func (g *gen) ordRead(kind string, withContent bool, n int) Op {
	list := reading[kind]
	if withContent {
		list += strings.Replace(content[kind], " bal ", " ", 1)
	}
	f := strings.Fields(list)
	for try := 0; ; try++ {
		k := f[g.r.Intn(len(f))]
		if g.drop[k] && try < 20 {
			continue
		}
		if n > 20000 && k == "str" {
			continue // quadratic
		}
		if n > 300 && (k == "trav" || k == "copy" || k == "dump" || k == "rdump" || k == "str" || k == "keys") && g.r.P(0.8) {
			continue
		}
		return g.ordArgs(k, n)
	}
}

// clockEpoch stands for a clock at 1 January 1970, 0 meaning any.
const clockEpoch = 1 << 50

// exotic draws the environment of a structure: clock, random levels, hashes.
func (g *gen) environment(kind string) {
	P := g.cs.P
	switch kind {
	case "skiplist":
		P["optord"] = g.r.Intn(2)
		P["maxlevel"] = g.pickInt(0, 0, 1, 2, 3, 4, 8, 16, 32, 64)
		P["randmode"] = g.pickInt(0, 0, 0, 1, 2, 3, 4, 5)
		P["randseed"] = g.r.Intn(1 << 30)
		P["clock"] = g.pickInt(1700000000, 1, -1, -3000000000, 4102444800, 253402300799, 86400*365, clockEpoch, -62135596800)
		P["coarse"] = g.r.Intn(2)
	case "hamt":
		P["hashmode"] = g.pickInt(0, 0, 1, 2, 3, 4, 5, 6, 7, 8)
		P["hashseed"] = int(g.r.U64() >> 2)
	}
}

func (g *gen) ordLinear(kind string, faults float64) {
	cs := g.cs
	cs.Kinds = []string{kind}
	cs.P["safe"] = 1
	g.keyType(kind)
	g.environment(kind)
	max := 9000
	if kind == "skiplist" && (cs.P["maxlevel"] == 1 || cs.P["maxlevel"] == 2 || cs.P["randmode"] != 0) {
		max = 150
	}
	if kind == "hamt" && cs.P["hashmode"] != 0 {
		max = 120
	}
	n := g.size(max)
	dup := 1
	if kind == "multimap" || kind == "multiset" {
		dup = 4
		if faults == 0 && g.r.P(0.2) {
			dup = 40
		}
	}
	cs.Pre = [][]Op{g.prefillOrd(n, dup)}
	pw := []float64{0.3, 0.5, 0.8}[g.r.Intn(3)]
	nT := g.threads()
	lone := -1
	if g.r.P(0.25) {
		lone = g.r.Intn(nT) // one writer, the others read
	}
	g.rounds(nT, func(t int) Op {
		var op Op
		if t == lone || lone < 0 && g.r.P(pw) {
			op = g.ordWrite(kind)
		} else {
			op = g.ordRead(kind, false, n)
		}
		if faults > 0 && g.r.P(faults) {
			g.ordFault(&op, n)
		}
		return op
	}, 6)
}

func (g *gen) do() string {
	if g.r.P(0.25) {
		return "goexit"
	}
	return "panic"
}

func (g *gen) ordFault(op *Op, n int) {
	f := &Fault{Do: g.do(), At: "cmp", N: 1}
	lg := 1
	for 1<<lg < n+1 {
		lg++
	}
	switch op.K {
	case "trav", "copy":
		f.At = "visit"
		f.N = 1 + g.r.Intn(min(n, 40)+1)
		if op.K == "copy" {
			return
		}
	case "size", "empty", "first", "last", "begin", "str", "clear", "keys", "skeys":
		return
	case "union", "inter", "diff":
		f.N = 1 + g.r.Intn(2*n+4)
	default:
		f.N = 1 + g.r.Intn(2*lg+3)
		if g.r.P(0.4) {
			f.N = 1 + g.r.Intn(3)
		}
	}
	if g.cs.Kinds[0] == "hamt" && f.At == "cmp" {
		return
	}
	op.F = f
}

// ---- set algebra

func (g *gen) pairOp(n int, own bool, faults float64) Op {
	m := max(2, g.cs.P["nsets"])
	i := g.r.Intn(m)
	p := 0.4
	if m > 2 {
		p = 0.6
	}
	if g.r.P(p) {
		k := g.pick("union", "inter", "diff")
		j := (i + 1 + g.r.Intn(m-1)) % m
		if g.r.P(0.15) {
			j = i
		}
		op := Op{K: k, A: []int{i, j, g.key()}}
		if faults > 0 && g.r.P(faults) {
			g.ordFault(&op, n)
		}
		return op
	}
	var op Op
	if g.r.P(0.65) {
		op = g.ordWrite("set")
	} else {
		op = g.ordRead("set", own, n)
	}
	if faults > 0 && g.r.P(faults) {
		g.ordFault(&op, n)
	}
	op.A = append([]int{i}, op.A...)
	return op
}

func (g *gen) pairPrefill(limit int) ([]Op, int) {
	save := g.cs.Kinds
	g.cs.Kinds = []string{"pair"}
	defer func() { g.cs.Kinds = save }()
	var out []Op
	n := g.size(limit)
	if n > 400 && (limit <= 400 || g.r.P(0.8)) {
		n = g.r.Intn(60)
	}
	var hot []int
	uni := 0
	for i := 0; i < max(2, g.cs.P["nsets"]); i++ {
		m := n
		switch g.r.Intn(4) {
		case 0:
			m = g.r.Intn(n + 1)
		case 1:
			m = 0
		}
		for _, op := range g.prefillOrd(m, 1) {
			op.A = append([]int{i}, op.A...)
			out = append(out, op)
		}
		hot = append(hot, g.hot...)
		g.hot = nil
		if g.uni > uni {
			uni = g.uni
		}
	}
	g.hot, g.uni = hot, uni
	g.cs.P["uni"] = uni
	return out, n
}

func (g *gen) pairLinear(faults float64) {
	cs := g.cs
	cs.Kinds = []string{"pair"}
	cs.P["safe"] = 1
	g.keyType("set")
	cs.P["nsets"] = g.pickInt(2, 2, 3)
	pre, n := g.pairPrefill(1500)
	cs.Pre = [][]Op{pre}
	g.rounds(g.threads(), func(int) Op { return g.pairOp(n, false, faults) }, 4)
}

// ---- priority queue

func (g *gen) pqPrefill(max int) ([]Op, int) {
	var out []Op
	n := g.size(max)
	left := n
	for left > 0 {
		k := 1 + g.r.Intn(left)
		out = append(out, Op{K: "pushn", A: []int{g.r.Intn(997), k, g.pickInt(0, 1, 996, 7, 333), g.val + 1}})
		g.val += k + 1
		left -= k
		if g.r.P(0.2) {
			out = append(out, Op{K: "pop"})
		}
	}
	if n < 3000 {
		for _, t := range g.often() {
			out = append(out, Op{K: "cycle", A: []int{t}})
		}
	}
	return out, n
}

func (g *gen) pqOp(n int, heap bool, faults float64, pPush float64) Op {
	var op Op
	for op.K == "" {
		switch x := g.r.F(); {
		case x < pPush:
			p := g.r.Intn(6)
			if g.r.P(0.4) {
				p = g.r.Intn(997)
			}
			op = Op{K: "push", A: []int{p, g.newVal()}}
		case x < 0.75:
			op = Op{K: "pop"}
		case heap && g.r.P(0.7):
			switch g.r.Intn(5) {
			case 0, 1:
				op = Op{K: "hrem", A: []int{g.r.Intn(n + 5)}}
			case 4:
				op = Op{K: "hinit"}
			default:
				op = Op{K: "hfix", A: []int{g.r.Intn(n + 5), g.r.Intn(997)}}
			}
		default:
			op = Op{K: g.pick("top", "top", "size", "empty", "clear")}
			if g.drop[op.K] || op.K == "clear" && g.r.P(0.5) {
				op.K = ""
			}
		}
	}
	if faults > 0 && g.r.P(faults) && op.K != "size" && op.K != "empty" && op.K != "clear" && op.K != "top" {
		op.F = &Fault{Do: g.do(), At: "cmp", N: 1 + g.r.Intn(8)}
		if op.K == "hinit" && n > 3 {
			op.F.N = 1 + g.r.Intn(n)
		}
	}
	return op
}

func (g *gen) pqLinear(kind string, faults float64) {
	cs := g.cs
	cs.Kinds = []string{kind}
	cs.P["safe"] = 1
	cs.P["rev"] = b2i(g.r.P(0.3))
	pre, n := g.pqPrefill(8999)
	cs.Pre = [][]Op{pre}
	pp := []float64{0.25, 0.35, 0.5}[g.r.Intn(3)]
	g.rounds(g.threads(), func(int) Op { return g.pqOp(n, false, faults, pp) }, 5)
}

// ---- queue and stack

func (g *gen) seqPrefill(push, pop string) ([]Op, int) {
	var out []Op
	n := 0
	if g.r.P(0.04) {
		return g.seqChurn(push, pop)
	}
	for i := g.r.Intn(4); i > 0; i-- {
		k := seqLen(&g.r)
		out = append(out, Op{K: push + "n", A: []int{g.val + 1, k}})
		g.val += k + 1
		n += k
		if g.r.P(0.5) {
			k = seqLen(&g.r)
			if g.r.P(0.5) {
				k = g.r.Intn(n + 1)
			}
			out = append(out, Op{K: pop + "n", A: []int{k}})
			n = max(0, n-k)
		}
	}
	for _, t := range g.often() {
		k := "cyclef"
		if pop == "popb" {
			k = "cycleb"
		}
		out = append(out, Op{K: k, A: []int{g.val + 1, t}})
		g.val += t + 1
	}
	return out, n
}

// seqChurn grows and shrinks by whole segments, so that the used ones wind around
// the segment table several times while the table grows and shrinks itself.
func (g *gen) seqChurn(push, pop string) ([]Op, int) {
	var out []Op
	n := 0
	top := g.pickInt(4, 6, 10, 10, 20, 40)
	rep := 3 + g.r.Intn(10)
	if g.r.P(0.01) {
		top = 520 + g.r.Intn(40)
		out = append(out, Op{K: push + "n", A: []int{g.val + 1, 128 * top}})
		g.val += 128*top + 1
		n = 128 * top
		rep = g.r.Intn(3)
		g.cs.P["giant"] = 1
	}
	for i := rep; i > 0; i-- {
		k := 128*(1+g.r.Intn(top)) + g.r.Intn(7) - 3
		if n+k > 128*top {
			k = max(0, 128*top-n-g.r.Intn(5))
		}
		if k > 0 {
			out = append(out, Op{K: push + "n", A: []int{g.val + 1, k}})
			g.val += k + 1
			n += k
		}
		if g.r.P(0.8) {
			k = 128*g.r.Intn(n/128+1) + g.r.Intn(7) - 3
			if g.r.P(0.3) {
				k = n - g.r.Intn(200)
			}
			k = max(0, min(k, n))
			out = append(out, Op{K: pop + "n", A: []int{k}})
			n -= k
		}
	}
	return out, n
}

func (g *gen) queueOp(kind string, faults float64, pPush float64) Op {
	pop, peek := "popf", "front"
	if kind == "stack" {
		pop, peek = "popb", "back"
	}
	var op Op
	for op.K == "" {
		switch x := g.r.F(); {
		case x < pPush:
			op = Op{K: "pushb", A: []int{g.newVal()}}
		case x < 0.75:
			op = Op{K: pop}
		default:
			op = Op{K: g.pick(peek, "back", "size", "empty", "str", "clear")}
			if g.drop[op.K] || op.K == "clear" && g.r.P(0.6) {
				op.K = ""
			}
		}
	}
	if faults > 0 && g.cs.P["cont"] == 4 && g.r.P(faults) {
		op.F = &Fault{Do: g.do(), At: "cont", N: 1 + g.r.Intn(3)}
	}
	return op
}

func (g *gen) seqLinear(kind string, faults float64) {
	cs := g.cs
	cs.Kinds = []string{kind}
	cs.P["safe"] = 1
	cs.P["cont"] = g.r.Intn(5)
	cs.P["optord"] = g.r.Intn(2)
	if g.r.P(0.2) {
		cs.P["contpre"] = g.pickInt(1, 2, 3, 20, 130, 300)
	}
	if faults > 0 && g.r.P(0.7) {
		cs.P["cont"] = 4
	}
	pop := "popf"
	if kind == "stack" {
		pop = "popb"
	}
	pre, _ := g.seqPrefill("pushb", pop)
	cs.Pre = [][]Op{pre}
	pp := []float64{0.25, 0.4, 0.55}[g.r.Intn(3)]
	g.rounds(g.threads(), func(int) Op { return g.queueOp(kind, faults, pp) }, 6)
}

// ---- ring

func (g *gen) nodes() []int {
	n := 1
	if g.r.P(0.35) {
		n = 2 + g.r.Intn(2)
	}
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, g.r.Intn(g.uni))
	}
	return out
}

func (g *gen) ringOp() Op {
	switch x := g.r.Intn(10); {
	case x < 3:
		return Op{K: "radd", A: g.nodes()}
	case x < 6:
		return Op{K: "rrem", A: g.nodes()}
	case x < 9:
		if len(g.hot) > 0 && g.r.P(g.hotP) {
			return Op{K: "rget", A: []int{g.hot[g.r.Intn(len(g.hot))]}}
		}
		return Op{K: "rget", A: []int{g.r.Intn(30)}}
	}
	return Op{K: "empty"}
}

func (g *gen) ringParams() {
	g.cs.P["replicas"] = g.pickInt(1, 1, 2, 3, 5, 10, 20)
	g.uni = g.pickInt(1, 2, 3, 5, 5)
	g.cs.P["rnodes"] = 5
	if g.r.P(0.15) {
		g.cs.P["rnodes"] = 8
		g.uni = 8
	}
}

func (g *gen) ringLinear() {
	cs := g.cs
	cs.Kinds = []string{"ring"}
	cs.P["safe"] = 1
	g.ringParams()
	cs.P["optord"] = g.r.Intn(2)
	if g.r.P(0.03) {
		cs.P["replicas"] = 120
	}
	var pre []Op
	if cs.P["replicas"] <= 10 && g.r.P(0.02) {
		// many members
		n := 20 + g.r.Intn(maxNodes-20)
		cs.P["rnodes"], g.uni = n, n
		for i := 0; i < n; i += 10 {
			var a []int
			for j := 0; j < 10; j++ {
				a = append(a, g.r.Intn(n))
			}
			pre = append(pre, Op{K: g.pick("radd", "radd", "radd", "rrem"), A: a})
		}
	}
	for i := g.r.Intn(5); i > 0; i-- {
		pre = append(pre, Op{K: g.pick("radd", "radd", "rrem"), A: g.nodes()})
	}
	if cs.P["replicas"] <= 10 {
		for _, t := range g.often() {
			ask := Op{K: "rgetn", A: []int{0, 20}}
			pre = append(pre, ask, Op{K: "rcycle", A: []int{g.r.Intn(g.uni), min(t, g.pickInt(32, 64, 127, 128, 129, 300))}}, ask)
		}
	}
	cs.Pre = [][]Op{pre}
	for i := g.r.Intn(4); i > 0; i-- {
		g.hot = append(g.hot, g.r.Intn(30))
	}
	g.rounds(g.threads(), func(int) Op { return g.ringOp() }, 4)
}

// ---- bloom filter and bitmap

func (g *gen) bloomParams() {
	g.cs.P["m"] = g.pickInt(1, 7, 8, 9, 16, 63, 64, 65, 200, 1024, 4096)
	g.cs.P["k"] = g.pickInt(1, 2, 3, 5, 8, 13)
	if g.r.P(0.04) {
		g.cs.P["m"] = g.pickInt(1000, 16384, 20000, 65536)
		g.cs.P["k"] = g.pickInt(2, 9, 17, 40)
	}
	if g.r.P(0.01) {
		g.cs.P["m"] = g.pickInt(70000, 131072, 200001)
		g.cs.P["k"] = g.pickInt(1, 3, 64, 255, 256, 257, 300)
	}
	g.uni = g.pickInt(4, 16, 64)
	g.cs.P["bctor"] = g.pickInt(0, 0, 0, 1, 2)
	g.cs.P["est"] = g.pickInt(1, 4, 20, 100, 1000)
	g.cs.P["fp"] = g.r.Intn(4)
}

// bloomOp draws a call; an exporting client writes to its own slot of the disk.
func (g *gen) bloomOp(export bool, t int) Op {
	switch x := g.r.Intn(10); {
	case x < 5:
		return Op{K: "fadd", A: []int{g.r.Intn(min(g.uni, 64))}}
	case x < 8 && !(export && g.r.P(0.5)):
		return Op{K: "fhas", A: []int{g.r.Intn(min(g.uni+10, probes))}}
	}
	if export {
		return Op{K: "fdata", A: []int{t % 4}}
	}
	return Op{K: "fdata", A: []int{-1}}
}

func (g *gen) bloomLinear(crash bool) {
	cs := g.cs
	cs.Kinds = []string{"bloom"}
	cs.P["safe"] = 1
	g.bloomParams()
	var pre []Op
	for i := g.r.Intn(10); i > 0; i-- {
		pre = append(pre, Op{K: "fadd", A: []int{g.r.Intn(g.uni)}})
	}
	if wear := g.often(); len(wear) > 0 {
		if g.r.P(0.6) {
			pre = nil
		}
		i := g.r.Intn(g.uni)
		k := 1 + g.r.Intn(g.uni-i)
		for _, t := range wear {
			pre = append(pre, Op{K: "faddn", A: []int{i, k, t}})
		}
		pre = append(pre, Op{K: "fhasn", A: []int{0, probes}})
	}
	if crash {
		cs.P["slots"] = 1
		for i := 0; i < 4; i++ {
			pre = append(pre, Op{K: "fdata", A: []int{i}})
			if g.r.P(0.5) {
				pre = append(pre, Op{K: "fadd", A: []int{g.r.Intn(g.uni)}})
			}
		}
	}
	cs.Pre = [][]Op{pre}
	g.rounds(g.threads(), func(t int) Op { return g.bloomOp(crash, t) }, 5)
	if crash {
		for _, rd := range cs.Rounds {
			if g.r.P(0.5) {
				rd.Sched.CrashStep = 1 + g.r.Intn(g.pickInt(60, 300, 1200))
			}
		}
	}
}

func (g *gen) bitmapExport() {
	cs := g.cs
	cs.Mode = "isolated"
	cs.P["slots"] = 1
	cs.P["bits"] = g.pickInt(1, 7, 8, 9, 64, 65, 300)
	cs.Kinds = []string{"bitmap"}
	nT := 1 + g.r.Intn(3)
	for i := 0; i < nT; i++ {
		cs.Pre = append(cs.Pre, nil)
	}
	g.rounds(nT, func(int) Op { return g.ownOp("bitmap") }, 12)
}

// ---- traversal

func (g *gen) traversal() {
	cs := g.cs
	if g.r.P(0.2) {
		kind := g.pick("bidlist", "simplelist", "rbtree")
		g.readers(kind, true)
		g.nesting(0.1, kind)
		cs.P["nestvisit"] = 1
		return
	}
	kind := g.pick("map", "multimap", "set", "multiset", "skiplist", "hamt", "hamt")
	cs.Kinds = []string{kind}
	cs.P["safe"] = 1
	g.keyType(kind)
	g.environment(kind)
	n := g.size(150)
	if g.r.P(0.04) && g.cs.P["hashmode"] == 0 && g.cs.P["randmode"] == 0 && g.cs.P["maxlevel"] != 1 && g.cs.P["maxlevel"] != 2 {
		n = 150 + g.r.Intn(1200)
	}
	dup := 1
	if kind == "multimap" || kind == "multiset" {
		dup = 5
	}
	cs.Pre = [][]Op{g.prefillOrd(n, dup)}
	nT := g.threads()
	g.rounds(nT, func(t int) Op {
		if g.r.P(0.5) {
			return g.ordWrite(kind)
		}
		k := g.pick("trav", "trav", "trav", "copy")
		if k == "trav" && g.r.P(0.2) && has(kind, "keys") {
			return Op{K: "keys"}
		}
		return g.ordArgs(k, n)
	}, 4)
	g.nesting(0.1, kind)
	cs.P["nestvisit"] = 1
}
