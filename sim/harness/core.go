package main

import (
	"fmt"
	"runtime"
	"runtime/metrics"
	"simrt"
	"sort"
	"strings"
)

// Op is one call made by a simulated client (or by the harness in between).
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	F *Fault `json:"f,omitempty"`
}

// Fault fires at the N-th callback of kind At during the operation.
type Fault struct {
	At string `json:"at"` // cmp, visit, cont
	N  int    `json:"n"`
	Do string `json:"do"` // panic, goexit
}

func (o Op) String() string {
	s := o.K
	if len(o.A) > 0 {
		s += fmt.Sprint(o.A)
	}
	if o.F != nil {
		s += fmt.Sprintf("{%s at %s callback %d}", o.F.Do, o.F.At, o.F.N)
	}
	return s
}

// Outcome kinds of a call.
const (
	Normal   = 0
	Panicked = 1 // panicked by itself
	Injected = 2 // the injected panic came through
	Exited   = 3 // the injected Goexit ended the goroutine
)

// Res is what a call returned.
type Res struct {
	P   int
	V   []int
	S   string
	C   int // comparator calls made by the operation
	M   int // the most comparator calls of one step of an operation of many steps
	Msg string
}

func (r *Res) put(v ...int) { r.V = append(r.V, v...) }
func (r *Res) bool(b bool)  { r.V = append(r.V, b2i(b)) }
func (r *Res) broken() bool { return r.P == Injected || r.P == Exited }
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *Res) String() string {
	s := ""
	switch r.P {
	case Panicked:
		s = "panic(" + firstLine(r.Msg) + ") "
	case Injected:
		s = "interrupted by the injected panic "
	case Exited:
		s = "goroutine exited inside the call "
	}
	if len(r.V) > 40 {
		s += fmt.Sprintf("%v...(%d)", r.V[:40], len(r.V))
	} else if len(r.V) > 0 {
		s += fmt.Sprint(r.V)
	}
	if r.S != "" {
		if len(r.S) > 120 {
			s += " " + r.S[:120] + "..."
		} else {
			s += " " + r.S
		}
	}
	if s == "" {
		s = "ok"
	}
	return strings.TrimSpace(s)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Inst is a real structure under test.
type Inst interface {
	Exec(c *Ctx, op *Op, r *Res)
}

// State is a state of the reference model.
type State interface {
	// Step returns the states the model may be in after op returned r,
	// none if the model could not have returned r.
	Step(op *Op, r *Res) []State
	Hash() uint64
	String() string
}

// Event is one completed (or abandoned) call of a history.
type Event struct {
	T, I     int
	Op       *Op
	R        *Res
	Inv, Ret int64
}

func (e Event) String() string {
	ret := fmt.Sprint(e.Ret)
	if e.Ret == never {
		ret = "-"
	}
	who := fmt.Sprintf("client %d op %d", e.T, e.I)
	if e.T < 0 {
		who = "after the round"
	}
	return fmt.Sprintf("[%d,%s] %s: %s -> %s", e.Inv, ret, who, e.Op, e.R)
}

const never = int64(1) << 62

// opCtx is the callback bookkeeping of the call a goroutine is in.
type opCtx struct {
	fault *Fault
	n     map[string]int
	cmps  int
	fired bool
	calls int // callbacks run
	nests bool
}

// Ctx is one simulated run.
type Ctx struct {
	s     *simrt.Sim
	seq   opCtx
	P     map[string]int
	Fired map[string]int
	Calls map[string]int // calls made, by operation
	opts  map[string]any // option values shared by the instances of the run
	calls int
}

// reclaim frees garbage while no second thread can be at work before the next
// phase: what an address refers to matters to the race detector only.
func (c *Ctx) reclaim() {
	if c.calls++; c.calls%16 == 0 && c.s.Alone() {
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(m)
		if m[0].Value.Uint64() > 1<<30 {
			runtime.GC()
		}
	}
}

func isRuntimeAbort(x any) bool {
	if simrt.IsKill(x) {
		return true
	}
	switch x.(type) {
	case injected, simrt.Unsupported:
		return true
	}
	return false
}

type injected struct{}

func (c *Ctx) cur() *opCtx {
	if t := simrt.Cur(); t != nil {
		if o, ok := t.Data.(*opCtx); ok {
			return o
		}
		o := &opCtx{}
		t.Data = o
		return o
	}
	return &c.seq
}

// callback is run inside every comparator, visitor and caller-supplied
// container: a scheduling point, and the place where injected faults fire.
func (c *Ctx) callback(kind string) {
	o := c.cur()
	if kind == "cmp" {
		o.cmps++
	}
	if f := o.fault; f != nil && f.At == kind {
		o.n[kind]++
		if o.n[kind] == f.N {
			o.fired = true
			c.Fired[kind+"-"+f.Do]++
			if f.Do == "goexit" {
				runtime.Goexit()
			}
			panic(injected{})
		}
	}
	simrt.YI(cbSite)
	if at := c.P["nest"]; at > 0 && !o.nests && (kind == "visit" || c.P["nestvisit"] == 0) {
		if o.calls++; o.calls == at {
			o.nests = true
			c.Fired["instance-used-in-callback"]++
			c.nest(nestKinds[c.P["nestkind"]])
			o.nests = false
		}
	}
}

const cbSite = 1<<32 - 1

// exec performs one call, turning panics and goroutine exit into results.
func (c *Ctx) exec(in Inst, op *Op, r *Res, done func()) {
	o := c.cur()
	c.Calls[op.K]++
	*o = opCtx{fault: op.F}
	if op.F != nil {
		o.n = map[string]int{}
	}
	finished := false
	defer func() {
		r.C = o.cmps
		o.fault = nil
		if !finished {
			x := recover()
			switch v := x.(type) {
			case nil:
				r.P = Exited
			case injected:
				r.P = Injected
			default:
				if simrt.IsKill(x) {
					panic(x)
				}
				if u, ok := v.(simrt.Unsupported); ok {
					panic(u)
				}
				r.P = Panicked
				r.Msg = fmt.Sprint(x) + "\n" + trimStack()
			}
			if r.P == Exited && c.s.Killed() {
				return
			}
		}
		if done != nil {
			done()
		}
	}()
	in.Exec(c, op, r)
	finished = true
}

func callStack() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, false)])
}

func trimStack() string { return libFrames(callStack()) }

// libFrames keeps the frames of a stack that lie in the library.
func libFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if isLib(l) && strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func isLib(l string) bool { return strings.Contains(l, "github.com/liyue201/gostl") }

// inLibrary reports whether the panic shown by a stack was raised by library
// code: the first frame above the panic that is not the runtime's or the
// simulator's.
func inLibrary(st string) bool {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") && strings.Contains(l, "anic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "simrt") {
			continue
		}
		return isLib(l)
	}
	return false
}

// ---- hashing helpers

func hashInts(h uint64, v ...int) uint64 {
	h += uint64(len(v))*0xd6e8feb86659fd93 + 0x9e3779b97f4a7c15
	for _, x := range v {
		h ^= uint64(x) + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 27
	}
	return h * 0x94d049bb133111eb
}

func clone(a []int) []int { return append(make([]int, 0, len(a)+1), a...) }

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(a []int) []int { b := clone(a); sort.Ints(b); return b }

func one(s State) []State { return []State{s} }

// same returns s itself if ok.
func same(s State, ok bool) []State {
	if ok {
		return []State{s}
	}
	return nil
}

func short(a []int) string {
	if len(a) > 60 {
		return fmt.Sprintf("%v...(%d)", a[:60], len(a))
	}
	return fmt.Sprint(a)
}
