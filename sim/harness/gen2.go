package main

import "strings"

// operations of each sequence: own (exclusive use) and read (shared reading)
var seqOwn = map[string]string{
	"vector":     "pushb pushb pushbn popb front back size empty clear str at set insat insat iins ers iers erange ierange resize reserve shrink clone data oob dump rdump iat iset eqit acount acountif afind afindif amax amin aany aall anone",
	"array":      "front back size empty str at set set fill clone swapfresh data oob dump rdump iat iset eqit acount acountif afind afindif amax amin aany aall anone",
	"slicew":     "size at set set attach oob dump rdump iat iset eqit acount afind amax amin aany",
	"deque":      "pushb pushf pushbn pushfn popf popb popfn popbn front back size empty clear str at set insat insat ers ers erange insatn ersn oob dump rdump iat iset eqit acount afind amax amin aany",
	"bidlist":    "pushb pushf pushb pushf popf popb front back size empty clear str dump rdump trav copy insafter insbefore rem mtf mtb mafter mafter pblist pflist pbself pfself iset eqit foreign lcount lfind",
	"simplelist": "pushb pushf pushb pushf size str dump trav copy insafter rem mtf mtb iset eqit lcount lfind",
	"queue":      "pushb pushb pushbn popf popfn front back size empty clear str",
	"stack":      "pushb pushb pushbn popb popbn back size empty clear str",
}
var seqRead = map[string]string{
	"vector":     "front back size empty str at data dump rdump iat eqit acount acountif afind afindif amax amin aany aall anone alb aub abin",
	"array":      "front back size empty str at data dump rdump iat eqit acount acountif afind afindif amax amin aany aall anone alb aub abin",
	"slicew":     "size at dump rdump iat eqit acount afind afindif amax amin aany aall alb aub abin",
	"deque":      "front back size empty str at dump rdump iat eqit acount afind afindif amax amin aany anone alb aub abin",
	"bidlist":    "front back size empty str dump rdump trav copy eqit lcount lfind",
	"simplelist": "size str dump trav copy eqit lcount lfind",
	"queue":      "front back size empty str",
	"stack":      "back size empty str",
}

// elemVal is an element of a sequence: few ordering keys, unique identities, or zero.
func (g *gen) elemVal() int {
	g.val++
	if g.r.P(0.04) {
		return 0
	}
	return g.r.Intn(8)*keyScale + g.val%keyScale
}

func (g *gen) seqOp(kind, k string) Op {
	x := func() int { return g.r.Intn(400) }
	if (kind == "bidlist" || kind == "simplelist") && g.r.P(0.15) {
		x = func() int { return g.r.Intn(2) - 1 } // first or last
	} else if g.r.P(0.3) {
		x = func() int { return g.r.Intn(5) }
	} else if kind == "deque" && g.r.P(0.5) {
		x = func() int { return 128*(1+g.r.Intn(5)) + g.r.Intn(3) - 1 } // around segment boundaries
	}
	switch k {
	case "pushb", "pushf", "fill":
		return Op{K: k, A: []int{g.elemVal()}}
	case "pushbn", "pushfn":
		return Op{K: k, A: []int{g.elemVal(), seqLen(&g.r)}}
	case "popfn", "popbn":
		return Op{K: k, A: []int{seqLen(&g.r)}}
	case "at", "iat", "ers", "iers", "reserve", "rem", "mtf", "mtb":
		return Op{K: k, A: []int{x()}}
	case "resize":
		return Op{K: k, A: []int{g.r.Intn(2000)}}
	case "insatn", "ersn":
		return Op{K: k, A: []int{x(), 1 + g.r.Intn(140), g.elemVal()}}
	case "oob":
		return Op{K: k, A: []int{g.r.Intn(3), g.elemVal()}}
	case "foreign":
		return Op{K: k, A: []int{g.elemVal(), g.elemVal()}}
	case "set", "iset", "insat", "iins", "insafter", "insbefore":
		return Op{K: k, A: []int{x(), g.elemVal()}}
	case "erange", "ierange", "eqit", "mafter":
		return Op{K: k, A: []int{x(), x()}}
	case "attach", "pblist", "pflist":
		a := []int{}
		for i := g.r.Intn(5); i > 0; i-- {
			a = append(a, g.elemVal())
		}
		return Op{K: k, A: a}
	case "trav", "copy":
		return Op{K: k, A: []int{g.r.Intn(6)}}
	case "acount", "acountif", "afind", "afindif", "amax", "amin", "aany", "aall", "anone", "alb", "aub", "abin":
		return Op{K: k, A: []int{g.r.Intn(9) * keyScale, g.r.Intn(400) * g.r.Intn(2), g.r.Intn(400)}}
	case "lcount", "lfind":
		return Op{K: k, A: []int{g.r.Intn(9) * keyScale}}
	}
	return Op{K: k}
}

// ownOp is a call on an instance nobody else uses.
func (g *gen) ownOp(kind string) Op {
	switch kind {
	case "map", "multimap", "set", "multiset", "skiplist", "hamt", "rbtree":
		switch {
		case g.r.P(0.55):
			return g.ordWrite(kind)
		case g.r.P(0.15) && has(kind, "iset"):
			return Op{K: "iset", A: []int{g.key(), g.newVal()}}
		}
		return g.ordRead(kind, true, 30)
	case "pair":
		return g.pairOp(30, true, 0)
	case "pq":
		return g.pqOp(20, false, 0, 0.45)
	case "heap":
		return g.pqOp(20, true, 0, 0.4)
	case "ring":
		if g.r.P(0.1) {
			return Op{K: "rgetn", A: []int{0, 15}}
		}
		return g.ringOp()
	case "bloom":
		if g.r.P(0.1) {
			return Op{K: "fhasn", A: []int{0, probes}}
		}
		return g.bloomOp(false, 0)
	case "bitmap":
		bits := g.cs.P["bits"]
		switch g.r.Intn(8) {
		case 0, 1, 2:
			return Op{K: "bset", A: []int{g.r.Intn(bits + 12)}}
		case 3:
			return Op{K: "bunset", A: []int{g.r.Intn(bits + 12)}}
		case 4:
			return Op{K: "bresize", A: []int{g.r.Intn(2*bits + 20)}}
		case 5:
			return Op{K: g.pick("size", "dump", "clear", "dump")}
		case 6:
			return Op{K: "brestore"}
		}
		return Op{K: "bget", A: []int{g.r.Intn(bits + 12)}}
	}
	f := strings.Fields(seqOwn[kind])
	for {
		k := f[g.r.Intn(len(f))]
		if k == "clear" && g.r.P(0.7) || (k == "pbself" || k == "pfself") && g.r.P(0.6) {
			continue
		}
		if g.cs.P["small"] == 1 && (k == "pushbn" || k == "pushfn" || k == "popfn" || k == "popbn" || k == "insatn" || k == "ersn") {
			continue
		}
		return g.seqOp(kind, k)
	}
}

var allKinds = strings.Fields("map multimap set multiset skiplist hamt rbtree pair pq heap queue stack ring bloom vector array slicew deque bidlist simplelist bitmap")

// ownPrefill is what an instance starts from.
func (g *gen) ownPrefill(kind string) []Op {
	if g.r.P(0.3) {
		return nil
	}
	switch kind {
	case "map", "multimap", "set", "multiset", "skiplist", "hamt", "rbtree":
		save := g.cs.Kinds
		g.cs.Kinds = []string{kind}
		defer func() { g.cs.Kinds = save }()
		n := g.r.Intn(30)
		if g.r.P(0.1) {
			n = g.r.Intn(150)
		}
		h := g.hot
		out := g.prefillOrd(n, 3)
		g.hot = append(h, g.hot...)
		return out
	case "pq", "heap":
		out, _ := g.pqPrefill(60)
		return out
	case "deque", "queue", "vector":
		pop := "popf"
		if kind == "vector" {
			return []Op{{K: "pushbn", A: []int{g.elemVal(), g.r.Intn(40)}}}
		}
		out, _ := g.seqPrefill("pushb", pop)
		return out
	case "stack":
		out, _ := g.seqPrefill("pushb", "popb")
		return out
	case "bidlist", "simplelist":
		var out []Op
		for i := g.r.Intn(8); i > 0; i-- {
			out = append(out, Op{K: g.pick("pushb", "pushf"), A: []int{g.elemVal()}})
		}
		return out
	}
	return nil
}

func (g *gen) isolatedParams(kinds []string) {
	P := g.cs.P
	P["safe"] = b2i(g.r.P(0.5))
	g.keyType("map")
	for _, k := range kinds {
		if k == "pair" || k == "ring" || k == "bloom" || k == "bitmap" {
			P["small"] = 1
		}
	}
	g.environment("skiplist")
	g.environment("hamt")
	P["cont"] = g.r.Intn(5)
	P["contpre"] = g.pickInt(0, 0, 0, 1, 3, 130)
	P["nsets"] = g.pickInt(2, 2, 3)
	P["optord"] = g.r.Intn(2)
	g.ringParams()
	g.bloomParams()
	P["bits"] = g.pickInt(1, 8, 9, 64, 65, 130)
	P["len"] = g.pickInt(0, 1, 2, 5, 30)
	P["cap"] = g.pickInt(0, 0, 1, 4, 100)
	P["uni"], g.uni = 5, 5
}

// nesting lets callbacks use an instance of their own in some runs.
func (g *gen) nesting(p float64, kind string) {
	if !g.r.P(p) {
		return
	}
	P := g.cs.P
	P["nest"] = g.pickInt(1, 1, 2, 3, 7)
	P["nestkind"] = g.r.Intn(len(nestKinds))
	for i, k := range nestKinds {
		if k == kind && g.r.P(0.5) {
			P["nestkind"] = i
		}
	}
}

func (g *gen) isolated() {
	cs := g.cs
	cs.Mode = "isolated"
	nT := 2 + g.r.Intn(3)
	if g.r.P(0.65) {
		cs.Kinds = []string{allKinds[g.r.Intn(len(allKinds))]}
	} else {
		for i := 0; i < nT; i++ {
			cs.Kinds = append(cs.Kinds, allKinds[g.r.Intn(len(allKinds))])
		}
	}
	g.isolatedParams(cs.Kinds)
	if cs.P["ctor"] = g.r.Intn(2); cs.P["ctor"] == 1 {
		cs.P["oplimit"] = max(cs.P["oplimit"], 1<<25) // blocks of calls may be slow on an adverse level generator
	}
	kind := func(t int) string { return cs.Kinds[t%len(cs.Kinds)] }
	g.nesting(0.2, kind(0))
	maxUni := 0
	for t := 0; t < nT; t++ {
		if kind(t) == "pair" {
			pre, _ := g.pairPrefill(30)
			cs.Pre = append(cs.Pre, pre)
		} else if kind(t) == "ring" || kind(t) == "bloom" {
			cs.Pre = append(cs.Pre, nil)
		} else {
			cs.Pre = append(cs.Pre, g.ownPrefill(kind(t)))
		}
		maxUni = max(maxUni, g.uni)
	}
	for _, h := range g.hot {
		maxUni = max(maxUni, h+1)
	}
	for t := 0; t < nT; t++ {
		if kind(t) == "ring" {
			maxUni = 5 // ring nodes
		}
	}
	if cs.P["kt"] == 6 || maxUni < 2 {
		maxUni = 2
	}
	lim := keyUniverse[cs.P["kt"]]
	maxUni = min(maxUni, lim)
	for i, h := range g.hot {
		g.hot[i] = h % lim
	}
	g.uni = maxUni
	cs.P["uni"] = maxUni
	g.rounds(nT, func(t int) Op {
		op := g.ownOp(kind(t))
		if op.K == "rgetn" || op.K == "fdata" {
			return op
		}
		return op
	}, 8)
}

func (g *gen) readerKind() string {
	return allKinds[g.r.Intn(len(allKinds))]
}

// readers runs reading calls on one shared instance that nobody modifies.
func (g *gen) readers(kind string, travOnly bool) {
	cs := g.cs
	cs.Mode = "readers"
	cs.Kinds = []string{kind}
	g.isolatedParams(cs.Kinds)
	P := cs.P
	delete(P, "small")
	nT := g.threads()
	var pre []Op
	var op func(int) Op
	// before adds what may have been done to the instance at some time
	before := func() {
		if g.r.P(0.5) {
			for i := 1 + g.r.Intn(20); i > 0; i-- {
				pre = append(pre, g.ownOp(kind))
			}
		}
	}
	switch kind {
	case "map", "multimap", "set", "multiset", "skiplist", "hamt", "rbtree":
		n := g.size(300)
		pre = g.prefillOrd(n, 5)
		before()
		op = func(int) Op {
			if travOnly {
				return g.ordArgs(g.pick("trav", "trav", "copy"), n)
			}
			return g.ordRead(kind, true, n)
		}
	case "pair":
		p, n := g.pairPrefill(60)
		pre = p
		op = func(int) Op {
			if g.r.P(0.5) {
				m := max(2, P["nsets"])
				i := g.r.Intn(m)
				j := (i + 1 + g.r.Intn(m-1)) % m
				if g.r.P(0.2) {
					j = i
				}
				return Op{K: g.pick("union", "inter", "diff"), A: []int{i, j, g.key()}}
			}
			o := g.ordRead("set", true, n)
			o.A = append([]int{g.r.Intn(max(2, P["nsets"]))}, o.A...)
			return o
		}
	case "pq", "heap":
		pre, _ = g.pqPrefill(80)
		before()
		if kind == "heap" {
			pre = append(pre, Op{K: "push", A: []int{1, g.newVal()}})
		}
		op = func(int) Op { return Op{K: g.pick("top", "size", "empty")} }
	case "ring":
		before()
		for i := g.r.Intn(4); i > 0; i-- {
			pre = append(pre, Op{K: "radd", A: g.nodes()})
		}
		op = func(int) Op {
			if g.r.P(0.2) {
				return Op{K: "empty"}
			}
			return Op{K: "rget", A: []int{g.r.Intn(30)}}
		}
	case "bloom":
		before()
		for i := g.r.Intn(10); i > 0; i-- {
			pre = append(pre, Op{K: "fadd", A: []int{g.r.Intn(g.uni)}})
		}
		op = func(int) Op {
			if g.r.P(0.2) {
				return Op{K: "fdata", A: []int{-1}}
			}
			return Op{K: "fhas", A: []int{g.r.Intn(probes)}}
		}
	case "bitmap":
		before()
		for i := g.r.Intn(20); i > 0; i-- {
			pre = append(pre, Op{K: "bset", A: []int{g.r.Intn(P["bits"])}})
		}
		op = func(int) Op {
			if g.r.P(0.2) {
				return Op{K: g.pick("size", "dump")}
			}
			return Op{K: "bget", A: []int{g.r.Intn(P["bits"] + 9)}}
		}
	default:
		// sequences: what a history left behind, or sorted content, to which the
		// binary searches apply
		f := strings.Fields(seqRead[kind])
		op = func(int) Op {
			k := f[g.r.Intn(len(f))]
			if travOnly {
				k = g.pick("trav", "trav", "copy")
			}
			return g.seqOp(kind, k)
		}
		if any := g.r.P(0.5); any || g.r.P(0.5) && in(seqOwn[kind], "clear") {
			if any {
				pre = g.ownPrefill(kind)
			}
			before()
			if any {
				for i := g.r.Intn(3); i > 0; i-- { // and last of all something removed or moved
					if k := g.pick("rem", "popb", "popf", "ers", "mtf", "mtb", "mafter"); in(seqOwn[kind], k) {
						pre = append(pre, g.seqOp(kind, k))
					}
				}
				f = f[:0]
				for _, k := range strings.Fields(seqRead[kind]) {
					if k != "alb" && k != "aub" && k != "abin" {
						f = append(f, k)
					}
				}
				break
			}
			pre = append(pre, Op{K: "clear"})
		}
		n := g.pickInt(0, 1, 2, 5, 12, 40, 130, 300)
		if n > 2 {
			n += g.r.Intn(3)
		}
		key := 0
		vals := make([]int, n)
		for i := range vals {
			if g.r.P(0.3) || n < 12 && g.r.P(0.5) {
				key += g.r.Intn(3)
			}
			if key > 8 {
				key = 8
			}
			vals[i] = key*keyScale + i
		}
		switch kind {
		case "array", "slicew":
			P["len"] = n
			for i, v := range vals {
				pre = append(pre, Op{K: "set", A: []int{i, v}})
			}
		case "deque":
			h := g.r.Intn(n + 1)
			for i := h - 1; i >= 0; i-- {
				pre = append(pre, Op{K: "pushf", A: []int{vals[i]}})
			}
			for _, v := range vals[h:] {
				pre = append(pre, Op{K: "pushb", A: []int{v}})
			}
		default:
			for _, v := range vals {
				pre = append(pre, Op{K: "pushb", A: []int{v}})
			}
		}
	}
	cs.Pre = [][]Op{pre}
	g.rounds(nT, op, 6)
}

// ---- rearranging algorithms

func (g *gen) ranges() {
	cs := g.cs
	cs.Mode = "ranges"
	cs.P["oplimit"] = 1 << 22 // sorting may be quadratic
	cs.Kinds = []string{g.pick("vector", "array", "slicew", "deque")}
	nT := 1 + g.r.Intn(4)
	large := g.r.P(0.02)
	if large {
		nT = 1 + g.r.Intn(2)
		cs.P["oplimit"] = 1 << 25
	}
	pos := g.r.Intn(4)
	for t := 0; t < nT; t++ {
		n := 0
		if large {
			n = 150 + g.r.Intn(keyScale-150)
			cs.Ranges = append(cs.Ranges, [2]int{pos, pos + n})
			pos += n
			continue
		}
		switch x := g.r.Intn(100); {
		case x < 5:
		case x < 12:
			n = 1
		case x < 20:
			n = 2
		case x < 45:
			n = 3 + g.r.Intn(8)
		case x < 75:
			n = 10 + g.r.Intn(25)
		case x < 95:
			n = 30 + g.r.Intn(60)
		default:
			n = 90 + g.r.Intn(110)
		}
		cs.Ranges = append(cs.Ranges, [2]int{pos, pos + n})
		pos += n + g.r.Intn(3)*g.r.Intn(2)
	}
	total := pos + g.r.Intn(4)
	for i := 0; i < total; i++ {
		cs.Init = append(cs.Init, 0)
	}
	for t, rg := range cs.Ranges {
		copy(cs.Init[rg[0]:rg[1]], g.elems(t, rg[1]-rg[0]))
	}
	cs.P["front"] = g.r.Intn(total + 1)
	faults := []float64{0, 0.3, 0.6}[g.r.Intn(3)]
	ops := "sort sort stable stable nth next rev write"
	if g.r.P(0.4) {
		ops = g.pick("sort", "stable", "nth", "next", "sort write", "stable write", "nth write")
	}
	f := strings.Fields(ops)
	g.rounds(nT, func(t int) Op {
		n := cs.Ranges[t][1] - cs.Ranges[t][0]
		op := Op{K: f[g.r.Intn(len(f))]}
		switch op.K {
		case "nth":
			op.A = []int{g.r.Intn(n + 1)}
			if g.r.P(0.1) {
				op.A[0] = n + g.r.Intn(3) // beyond the range: nothing to place
			}
		case "write":
			op.A = g.elems(t, n)
		case "sort", "stable", "next":
		}
		if faults > 0 && g.r.P(faults) && op.K != "write" && op.K != "rev" {
			lg := 1
			for 1<<lg < n+1 {
				lg++
			}
			op.F = &Fault{Do: g.do(), At: "cmp", N: 1 + g.r.Intn(n*lg+2)}
			if op.K == "next" || g.r.P(0.3) {
				op.F.N = 1 + g.r.Intn(n+2)
			}
		}
		return op
	}, 4)
}

// elems makes n elements with unique identities in one of several shapes.
func (g *gen) elems(t, n int) []int {
	out := make([]int, n)
	shape := g.r.Intn(8)
	distinct := 1 + g.r.Intn(n+1)
	if n > 250 {
		// keep away from the shapes that make sorting quadratic
		shape = g.pickInt(0, 1, 6, 7, 7, 7)
		distinct = n/2 + g.r.Intn(n)
	}
	for i := range out {
		k := 0
		switch shape {
		case 0:
			k = i
		case 1:
			k = n - i
		case 2:
			k = min(i, n-i)
		case 3:
			k = g.r.Intn(2)
		case 4:
			k = i * 7 % (distinct + 1)
		case 5:
			k = 3
		case 6:
			k = i
			if g.r.P(0.1) {
				k = g.r.Intn(n)
			}
		default:
			k = g.r.Intn(distinct)
		}
		out[i] = k*keyScale + (t*401+i)%keyScale
	}
	return out
}

// ---- balance and cost

func (g *gen) balance() {
	cs := g.cs
	switch x := g.r.Intn(10); {
	case x == 0:
		g.heapAlone()
		cs.P["cost"] = 1
		return
	case x <= 2:
		g.pqLinear("pq", []float64{0, 0.3}[g.r.Intn(2)])
		cs.P["cost"] = 1
		return
	}
	kind := g.pick("map", "multimap", "set", "multiset", "skiplist", "map", "set")
	g.ordLinear(kind, []float64{0, 0.3}[g.r.Intn(2)])
	cs.P["bal"] = 1
	if kind == "skiplist" {
		cs.P["maxlevel"] = g.pickInt(0, 0, 12, 16, 32, 40, 64)
		cs.P["randmode"] = 0
		if g.r.P(0.5) {
			cs.Pre = append([][]Op{}, append([]Op{{K: "insn", A: []int{0, 1000 + g.r.Intn(900), g.pickInt(1, 7, -1), 0, 1}}}, cs.Pre[0]...))
			if keyUniverse[cs.P["kt"]] < big {
				cs.P["kt"] = 0
			}
			if cs.Pre[0][0].A[2] == 7 {
				cs.Pre[0][0].A[3] = 4001
			} else if cs.Pre[0][0].A[2] == -1 {
				cs.Pre[0][0].A[3] = 2500
			}
		}
	}
}

// heapAlone drives the heap functions from one client.
func (g *gen) heapAlone() {
	cs := g.cs
	cs.Kinds = []string{"heap"}
	cs.P["rev"] = b2i(g.r.P(0.3))
	pre, n := g.pqPrefill(5999)
	cs.Pre = [][]Op{pre}
	g.rounds(1, func(int) Op { return g.pqOp(n, true, []float64{0, 0.2}[g.r.Intn(2)], 0.35) }, 20)
}
