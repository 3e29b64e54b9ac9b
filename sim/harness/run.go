package main

import (
	"fmt"
	"runtime/debug"
	"simrt"
	"sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/utils/iterator"
)

// Case is one simulated run, complete: replaying it repeats the execution.
type Case struct {
	Property string         `json:"property"`
	Mode     string         `json:"mode"` // linear, readers, isolated, ranges
	Kinds    []string       `json:"kinds"`
	P        map[string]int `json:"params"`
	Seed     uint64         `json:"seed"`
	Init     []int          `json:"init,omitempty"`   // ranges: initial elements
	Ranges   [][2]int       `json:"ranges,omitempty"` // ranges: the range of each client
	Pre      [][]Op         `json:"prefill,omitempty"`
	Rounds   []*Round       `json:"rounds"`
}

// Round is a phase in which clients run concurrently.
type Round struct {
	T     [][]Op      `json:"clients"`
	Seed  uint64      `json:"seed"`
	Sched simrt.Sched `json:"schedule"`
}

func (cs *Case) clone() *Case {
	n := *cs
	n.P = map[string]int{}
	for k, v := range cs.P {
		n.P[k] = v
	}
	n.Pre = cloneOps(cs.Pre)
	n.Rounds = nil
	for _, r := range cs.Rounds {
		q := *r
		q.T = cloneOps(r.T)
		q.Sched.Switches = append([]simrt.Switch(nil), r.Sched.Switches...)
		n.Rounds = append(n.Rounds, &q)
	}
	return &n
}

func cloneOps(a [][]Op) [][]Op {
	var out [][]Op
	for _, x := range a {
		out = append(out, append([]Op(nil), x...))
	}
	return out
}

// Outcome is what a run produced.
type Outcome struct {
	Class, Msg   string // violation, empty if none
	Sig          string // what minimisation preserves besides the class
	History      []string
	Inconclusive bool
	Why          string // why it is inconclusive
	Round        int    // round in which the violation showed
	Stats        simrt.Stats
	Hash         uint64
	Fired        map[string]int
	Calls        map[string]int
	Events       int
	Explored     int
	Conc         int // operations that overlapped another one
	Crashed      int
	Recorded     []simrt.Sched
	StatesSeen   []uint64
}

type stop struct{ class, msg string }

type runner struct {
	c    *Ctx
	s    *simrt.Sim
	cs   *Case
	out  *Outcome
	hist []string
}

func makeKind(c *Ctx, kind string) (Inst, State) {
	switch kind {
	case "map", "multimap", "set", "multiset", "skiplist", "hamt", "rbtree":
		o := makeOrd(c, kind)
		return o.in, &ordState{sp: o.sp}
	case "pq":
		return newPQ(c), &pqState{rev: c.P["rev"] == 1, cost: c.P["cost"] == 1}
	case "heap":
		return newHeap(c), &pqState{rev: c.P["rev"] == 1, cost: c.P["cost"] == 1}
	case "queue":
		return newQueue(c), &seqState{a: contPre(c)}
	case "stack":
		return newStack(c), &seqState{a: contPre(c)}
	case "ring":
		return newRing(c)
	case "bloom":
		return newBloom(c)
	case "pair":
		return newPair(c)
	case "vector":
		return newVector(c), &seqState{}
	case "array":
		n := c.P["len"]
		return newArray(c, n), &seqState{a: make([]int, n)}
	case "slicew":
		n := c.P["len"]
		return newSliceWrapper(c, n), &seqState{a: make([]int, n)}
	case "deque":
		return newDeque(c), &seqState{}
	case "bidlist":
		return newBidList(c), &seqState{}
	case "simplelist":
		return newSimpleList(c), &seqState{}
	case "bitmap":
		n := (c.P["bits"] + 7) / 8 * 8
		return newBitmap(c, c.P["bits"]), &bitState{b: strings.Repeat("\x00", n)}
	}
	panic("unknown kind " + kind)
}

// runCase executes one case from a clean start.
func runCase(cs *Case) (out *Outcome) {
	out = &Outcome{Fired: map[string]int{}, Calls: map[string]int{}}
	simrt.S = nil
	simrt.NewProcess(cs.Seed)
	s := simrt.Begin()
	defer s.End()
	s.RandMode, s.RandSeed = cs.P["randmode"], int64(cs.P["randseed"])
	s.HashMode, s.HashSeed = cs.P["hashmode"], uint64(cs.P["hashseed"])
	if v := cs.P["clock"]; v != 0 {
		s.ClockSec = int64(v)
		if v == clockEpoch {
			s.ClockSec = 0
		}
	}
	s.CoarseClock = cs.P["coarse"] == 1
	if v := cs.P["oplimit"]; v != 0 {
		s.OpLimit = int64(v)
	}
	c := &Ctx{s: s, P: cs.P, Fired: out.Fired, Calls: out.Calls, opts: map[string]any{}}
	x := &runner{c: c, s: s, cs: cs, out: out}
	defer func() {
		out.Stats = s.Stats
		out.Hash = s.Hash
		if p := recover(); p != nil {
			switch v := p.(type) {
			case stop:
				out.Class, out.Msg = v.class, v.msg
			case inconclusive:
				out.Inconclusive, out.Why = true, cs.Kinds[0]+": "+string(v)
			case simrt.Unsupported:
				out.Inconclusive, out.Why = true, string(v)
			default:
				if !simrt.IsKill(p) {
					if st := callStack(); inLibrary(st) {
						out.Class, out.Msg = "unexplained-panic", fmt.Sprintf("the library panicked: %v\n%s", p, libFrames(st))
					} else {
						panic(fmt.Sprintf("%v\n%s", p, st))
					}
				}
			}
		}
		if s.Viol != nil {
			if s.Viol.Class == "harness-panic" {
				if !inLibrary(s.Viol.Msg) {
					panic(s.Viol.Msg)
				}
				s.Viol.Class, s.Viol.Msg = "unexplained-panic", "the library panicked: "+firstLine(s.Viol.Msg)+"\n"+libFrames(s.Viol.Msg)
			}
			out.Class, out.Msg = s.Viol.Class, s.Viol.Msg
		}
		out.History = x.hist
	}()
	switch cs.Mode {
	case "linear":
		x.linear()
	case "readers":
		x.local(true)
	case "isolated":
		x.local(false)
	case "ranges":
		x.ranges()
	default:
		panic("unknown mode " + cs.Mode)
	}
	return
}

// restart ends the simulated process and starts a new one: only what the caller
// kept outside (the simulated disk, answers already given) survives.
func (c *Ctx) restart() {
	c.opts = map[string]any{}
	simrt.Restart()
}

func (x *runner) fail(class, format string, a ...any) {
	panic(stop{class, fmt.Sprintf(format, a...)})
}

func (x *runner) note(format string, a ...any) {
	x.hist = append(x.hist, fmt.Sprintf(format, a...))
}

// seq performs one operation while nothing else runs and checks it at once.
func (x *runner) seq(in Inst, states []State, op *Op, what string) []State {
	x.c.reclaim()
	if overlong(op, states) {
		return states
	}
	x.s.BeginOp(0)
	x.s.SeqLeft *= 50
	r := &Res{}
	x.c.exec(in, op, r, nil)
	x.s.Drain()
	if what != "prefill" || len(x.hist) < 200 {
		x.note("%s: %s -> %s", what, op, r)
	}
	next := stepAll(states, op, r)
	if len(next) == 0 {
		x.out.Sig = fmt.Sprint(op.K, r.P)
		x.fail("wrong-result", "%s: %s returned %s, which the reference model does not allow in %s%s", what, op, r, show(states), panicTrace(r))
	}
	return next
}

// overlong calls would take memory quadratic in a large content.
func overlong(op *Op, states []State) bool {
	if op.K != "str" {
		return false
	}
	long := func(o *ordState) bool {
		return len(o.k) > 1500 && len(o.k)*len(o.text()) > 2e8
	}
	switch s := states[0].(type) {
	case *ordState:
		return long(s)
	case *pairState:
		return long(s.s[0]) || long(s.s[1]) || long(s.s[2])
	}
	return false
}

func panicTrace(r *Res) string {
	if r.P == Panicked {
		return "\n" + r.Msg
	}
	return ""
}

func show(states []State) string {
	var b strings.Builder
	for i, s := range states {
		if i > 0 {
			b.WriteString(" or ")
		}
		if i > 3 {
			fmt.Fprintf(&b, "%d more states", len(states)-i)
			break
		}
		b.WriteString(s.String())
	}
	return b.String()
}

func stepAll(states []State, op *Op, r *Res) []State {
	var next []State
	seen := map[uint64]bool{}
	for _, s := range states {
		for _, t := range s.Step(op, r) {
			if h := t.Hash(); !seen[h] {
				seen[h] = true
				next = append(next, t)
			}
		}
	}
	return next
}

func (x *runner) linear() {
	kind := x.cs.Kinds[0]
	x.s.BeginOp(0)
	in, st := makeKind(x.c, kind)
	states := []State{st}
	if len(x.cs.Pre) > 0 {
		for i := range x.cs.Pre[0] {
			states = x.seq(in, states, &x.cs.Pre[0][i], "prefill")
		}
	}
	for ri, rd := range x.cs.Rounds {
		x.out.Round = ri
		n0 := len(x.hist)
		var hist []*Event
		fns := make([]func(*simrt.Thread), len(rd.T))
		skip := overlong(&Op{K: "str"}, states)
		for ti := range rd.T {
			ti := ti
			fns[ti] = func(t *simrt.Thread) {
				for i := range rd.T[ti] {
					op := &rd.T[ti][i]
					if skip && op.K == "str" {
						continue
					}
					x.s.BeginOp(i)
					e := &Event{T: ti, I: i, Op: op, R: &Res{}, Inv: x.s.Tick(), Ret: never}
					hist = append(hist, e)
					x.c.exec(in, op, e.R, func() { e.Ret = x.s.Tick() })
				}
			}
		}
		crash := x.s.Stats.Crashes
		x.run(rd, fns)
		crashed := x.s.Stats.Crashes > crash
		for _, e := range hist {
			if e.Ret == never && (crashed || x.s.Viol != nil) {
				x.note("%d, - : client %d op %d: %s -> still running", e.Inv, e.T, e.I, e.Op)
				continue
			}
			x.note("%s", e)
		}
		x.overlap(hist)
		if x.s.Viol != nil {
			return
		}
		if crashed {
			x.out.Crashed++
			x.note("the process crashes here")
		}
		// order of operations
		var evs []Event
		optional := uint64(0)
		for _, e := range hist {
			if e.Ret == never {
				if e.Op.K != "fadd" {
					continue
				}
				optional |= 1 << uint(len(evs))
			}
			evs = append(evs, *e)
		}
		finals := x.order(in, states, kind, evs, optional, crashed, ri, n0)
		states = finals
		for _, f := range finals {
			if len(x.out.StatesSeen) < 64 {
				x.out.StatesSeen = append(x.out.StatesSeen, f.Hash())
			}
		}
		if crashed {
			// nothing volatile survives; the next audit operations restart from disk
			if b, ok := in.(*bloomInst); ok {
				x.c.restart()
				b.reborn()
			}
		}
		for _, op := range auditOps(x.cs, kind, states[0], ri, crashed) {
			if op.K == "str" && x.cs.P["giant"] == 1 {
				continue
			}
			op := op
			states = x.seq(in, states, &op, "after the round")
			if len(states) > 256 {
				panic(inconclusive("too many model states"))
			}
		}
	}
}

const searchLimit = 300000

// weight is the size of a model state.
func weight(s State) int {
	switch s := s.(type) {
	case *ordState:
		return len(s.k)
	case *pairState:
		return len(s.s[0].k) + len(s.s[1].k) + len(s.s[2].k)
	case *pqState:
		return len(s.e)
	case *seqState:
		return len(s.a)
	}
	return 0
}

// pin is a call that reveals the whole state, so that one order is as good as any other.
func pin(cs *Case, kind string) *Op {
	switch kind {
	case "queue", "stack":
		if cs.P["giant"] == 1 {
			return nil
		}
		return &Op{K: "str"}
	case "map", "multimap", "set", "multiset", "skiplist", "hamt":
		return &Op{K: "dump"}
	}
	return nil
}

// deadEnd uses that the elements of a queue or stack never change their relative
// order: a state whose newest elements are the other way round in the final
// content cannot lead there.
func deadEnd(final *Res) func(State) bool {
	var pos map[int]int
	return func(s State) bool {
		q, ok := s.(*seqState)
		if !ok || final.P != Normal {
			return false
		}
		if pos == nil {
			pos = map[int]int{}
			for i, f := range strings.Fields(strings.Trim(final.S, "[]")) {
				if v, err := strconv.Atoi(strings.Trim(f, "[]")); err == nil {
					if _, twice := pos[v]; twice {
						i = -1 // not known
					}
					pos[v] = i
				}
			}
		}
		after := -1
		for i, left := len(q.a)-1, 12; i >= 0 && left > 0; i, left = i-1, left-1 {
			if p, ok := pos[q.a[i]]; ok && p >= 0 && q.a[i] != 0 { // only zero is pushed twice
				if after >= 0 {
					return p > after
				}
				after = p
			}
		}
		return false
	}
}

// order finds the states the model may be in after the round.
func (x *runner) order(in Inst, states []State, kind string, evs []Event, optional uint64, crashed bool, ri, n0 int) []State {
	// Nothing of the library runs while the search does, so memory may be reclaimed.
	debug.SetGCPercent(400)
	defer debug.SetGCPercent(-1)
	limit := searchLimit
	if n := weight(states[0]); n > 20 {
		limit = searchLimit * 20 / n
	}
	p := pin(x.cs, kind)
	var e Event
	if p != nil && !crashed {
		x.s.BeginOp(0)
		x.s.SeqLeft *= 50
		r := &Res{}
		inv := x.s.Tick()
		x.c.exec(in, p, r, nil)
		x.s.Drain()
		e = Event{T: -1, Op: p, R: r, Inv: inv, Ret: x.s.Tick()}
		x.note("%s", e)
		finals, explored, bounded := linearize(states, append(evs[:len(evs):len(evs)], e), optional, limit, true, deadEnd(r))
		x.out.Explored += explored
		if bounded {
			panic(inconclusive("history search bound"))
		}
		if len(finals) > 0 {
			return finals
		}
	}
	finals, explored, bounded := linearize(states, evs, optional, limit, false, nil)
	x.out.Explored += explored
	if len(finals) > 0 && p != nil && !crashed {
		x.fail("wrong-result", "after the round: %s returned %s, which the reference model does not allow in %s%s", p, e.R, show(finals), panicTrace(e.R))
	}
	if bounded && p == nil {
		panic(inconclusive("history search bound"))
	}
	if len(finals) == 0 {
		for _, e := range evs {
			if e.R.P == Panicked {
				x.fail("unexplained-panic", "no order of the calls explains the history; a call panicked by itself: client %d op %d %s: %s\nstate before the round: %s", e.T, e.I, e.Op, e.R.Msg, show(states))
			}
		}
		x.fail("not-linearizable", "no order of the calls of the round explains their results (history of round %d, lines %d-%d)\nstate before the round: %s", ri, n0, len(x.hist), show(states))
	}
	return finals
}

func (x *runner) overlap(hist []*Event) {
	x.out.Events += len(hist)
	for i, e := range hist {
		for j, f := range hist {
			if i != j && e.T != f.T && e.Inv < f.Ret && f.Inv < e.Ret {
				x.out.Conc++
				break
			}
		}
	}
}

func (x *runner) run(rd *Round, fns []func(*simrt.Thread)) {
	x.s.Run(rd.Seed, rd.Sched, fns)
	x.out.Recorded = append(x.out.Recorded, simrt.Sched{Replay: true, Switches: x.s.Rec, CrashStep: rd.Sched.CrashStep})
}

// local runs clients whose every result is determined by what they did
// themselves: separate instances, or a shared one that nobody modifies.
func (x *runner) local(shared bool) {
	nT := 0
	for _, rd := range x.cs.Rounds {
		if len(rd.T) > nT {
			nT = len(rd.T)
		}
	}
	in := make([]Inst, nT)
	st := make([][]State, nT)
	mk := func(i int) {
		a, b := makeKind(x.c, x.cs.Kinds[i%len(x.cs.Kinds)])
		in[i], st[i] = a, []State{b}
	}
	if shared {
		x.s.BeginOp(0)
		mk(0)
		if len(x.cs.Pre) > 0 {
			for i := range x.cs.Pre[0] {
				st[0] = x.seq(in[0], st[0], &x.cs.Pre[0][i], "prefill")
			}
		}
		for i := 1; i < nT; i++ {
			in[i], st[i] = in[0], st[0]
		}
	} else if x.cs.P["ctor"] == 0 {
		for i := 0; i < nT; i++ {
			x.s.BeginOp(0)
			mk(i)
			if i < len(x.cs.Pre) {
				for j := range x.cs.Pre[i] {
					st[i] = x.seq(in[i], st[i], &x.cs.Pre[i][j], "prefill")
				}
			}
		}
	}
	x.localRounds(in, st, mk)
	for i := range in {
		if in[i] == nil || shared && i > 0 {
			continue
		}
		for _, op := range auditOps(x.cs, x.cs.Kinds[i%len(x.cs.Kinds)], st[i][0], 0, false) {
			if op.K == "str" && x.cs.P["giant"] == 1 {
				continue
			}
			op := op
			st[i] = x.seq(in[i], st[i], &op, fmt.Sprintf("afterwards, instance %d", i))
		}
	}
}

func (x *runner) localRounds(in []Inst, st [][]State, mk func(int)) {
	for ri, rd := range x.cs.Rounds {
		x.out.Round = ri
		fns := make([]func(*simrt.Thread), len(rd.T))
		var hist []*Event
		for ti := range rd.T {
			ti := ti
			fns[ti] = func(t *simrt.Thread) {
				one := func(i int, op *Op) {
					x.c.reclaim()
					if overlong(op, st[ti]) {
						return
					}
					x.s.BeginOp(i)
					e := &Event{T: ti, I: i, Op: op, R: &Res{}, Inv: x.s.Tick(), Ret: never}
					hist = append(hist, e)
					x.c.exec(in[ti], op, e.R, func() {
						e.Ret = x.s.Tick()
						next := stepAll(st[ti], op, e.R)
						if len(next) == 0 {
							x.out.Sig = fmt.Sprint(op.K, e.R.P)
							x.s.Fail("wrong-result", fmt.Sprintf("client %d op %d: %s returned %s, but alone it would find %s%s", ti, i, op, e.R, show(st[ti]), panicTrace(e.R)))
						}
						st[ti] = next
					})
				}
				if in[ti] == nil {
					x.s.BeginOp(-1)
					mk(ti)
					if ti < len(x.cs.Pre) {
						for j := range x.cs.Pre[ti] {
							one(-2-j, &x.cs.Pre[ti][j])
						}
					}
				}
				for i := range rd.T[ti] {
					one(i, &rd.T[ti][i])
				}
			}
		}
		x.run(rd, fns)
		for _, e := range hist {
			x.note("%s", e)
		}
		x.overlap(hist)
		if x.s.Viol != nil {
			return
		}
		for _, s := range st {
			if len(s) > 0 && len(x.out.StatesSeen) < 64 {
				x.out.StatesSeen = append(x.out.StatesSeen, s[0].Hash())
			}
		}
	}
}

// ranges runs the rearranging algorithms on disjoint ranges of one container.
func (x *runner) ranges() {
	x.s.BeginOp(0)
	at := newRangeContainer(x.cs.Kinds[0], x.cs.P["front"], x.cs.Init)
	in := make([]Inst, len(x.cs.Ranges))
	st := make([][]State, len(x.cs.Ranges))
	covered := make([]bool, len(x.cs.Init))
	for i, r := range x.cs.Ranges {
		in[i] = &rangeInst{at: at, lo: r[0], hi: r[1]}
		st[i] = []State{&rangeState{clone(x.cs.Init[r[0]:r[1]])}}
		for j := r[0]; j < r[1]; j++ {
			covered[j] = true
		}
	}
	x.localRounds(in, st, nil)
	if x.s.Viol != nil {
		return
	}
	for i := range in {
		st[i] = x.seq(in[i], st[i], &Op{K: "read"}, fmt.Sprintf("afterwards, range %d", i))
	}
	for j, ok := range covered {
		if !ok {
			x.checkCell(at, j)
		}
	}
}

func (x *runner) checkCell(at func(int) iterator.RandomAccessIterator[int], j int) {
	x.s.BeginOp(0)
	if v := at(j).Value(); v != x.cs.Init[j] {
		x.fail("wrong-result", "cell %d lies outside every range but changed from %d to %d", j, x.cs.Init[j], v)
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
