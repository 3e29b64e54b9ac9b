// Package simrt is the runtime of the deterministic simulator. The copy of the
// library that the checks run is compiled with every memory access, loop head,
// function entry, lock operation, clock reading and random draw routed here, so
// one seeded scheduler decides which simulated goroutine performs the next
// memory access. Exactly one simulated goroutine runs at any time.
package simrt

import (
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

// MaxThreads bounds the simulated goroutines of one phase whose memory accesses
// are checked for races; the ones the library starts beyond it are scheduled like
// the others but not checked. MaxLib bounds all of them.
const (
	MaxThreads = 8
	MaxLib     = 4096
)

// S is the simulation in progress, nil outside one.
var S *Sim

// SiteName turns a site id into file:line; set by the harness.
var SiteName = func(id uint32) string { return fmt.Sprintf("site%d", id) }

type kill struct{}

// Violation is a failure detected by the runtime itself.
type Violation struct {
	Class string
	Msg   string
}

// Switch is one recorded scheduling decision: when thread T, in its operation
// Op, reaches its K-th scheduling point (or blocks, or ends) thread To runs.
type Switch struct {
	T, Op, K, To int
	At           string `json:",omitempty"`
}

// Thread is a simulated goroutine.
type Thread struct {
	ID      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	what    string
	Op      int
	K       int
	steps   int64
	vc      [MaxThreads]uint32
	prio    int
	replay  map[[2]int]int
	Crashed bool // ended by a simulated client crash
	Data    any
	last    uint32
	Lib     bool // started by library code
	start   func()
	until   int64 // asleep until the clock says this
}

// Sched configures how decisions are generated.
type Sched struct {
	Replay   bool     `json:",omitempty"`
	Switches []Switch `json:",omitempty"` // decisions to follow when Replay
	Strategy string   `json:",omitempty"` // "walk", "pct", "roundrobin", "stall"
	Gap      int      `json:",omitempty"` // mean scheduling points between preemptions (walk)
	PLock    float64  `json:",omitempty"` // preemption probability at lock and callback points
	Depth    int      `json:",omitempty"` // number of priority changes (pct)
	Horizon  int      `json:",omitempty"` // steps over which priority changes are spread (pct)
	// CrashStep, if positive, ends the whole phase at that step: a process crash.
	CrashStep int `json:",omitempty"`
}

// Stats counts what a phase did.
type Stats struct {
	Steps       int64
	Switches    int64
	LockWaits   int64
	Points      int64
	ClockReads  int64
	RandSources int64
	RaceChecks  int64
	Crashes     int64
	Restarts    int64
	Entropy     int64
}

// Sim is one simulation.
type Sim struct {
	conc     bool
	killed   bool
	cur      *Thread
	threads  []*Thread
	finished chan struct{}
	rng      Rng
	sched    Sched
	count    int
	changes  []int
	lowPrio  int
	Rec      []Switch
	Hash     uint64
	Viol     *Violation
	Stats    Stats
	OpLimit  int64
	SeqLeft  int64
	Seq      int64 // global event sequence number
	phase    uint32
	shadow   shadow
	ClockSec int64
	// CoarseClock makes readings that follow each other closely the same.
	CoarseClock bool
	RandMode    int
	RandSeed    int64
	HashMode    int
	HashSeed    uint64
	r1          *rand.Rand
	r2          *randv2.Rand
	NoRace      bool
	stalled     int
	stallEnd    int64
	av          map[uintptr]*VC
	avPhase     uint32
	live        []*Thread // those of threads that have not ended
	cand        []int
	Unsup       string    // why the run cannot be continued
	lib         []*Thread // goroutines the library started, between phases
	main        *Thread   // what runs between phases
	seqCur      *Thread
	reaped      chan struct{}
	slept       int64 // nanoseconds the clock advanced while goroutines slept
	crash       int
	maps        Rng
}

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) Rng { return Rng{seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) F() float64         { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool   { return r.F() < p }
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Begin starts a simulation in sequential mode.
func Begin() *Sim {
	s := &Sim{OpLimit: 1 << 21, SeqLeft: 1 << 21, ClockSec: 1700000000, maps: Entropy(), main: &Thread{ID: -1, wake: make(chan struct{}, 1)}}
	s.seqCur = s.main
	S = s
	return s
}

// End leaves the simulation.
func (s *Sim) End() {
	s.reap()
	S = nil
}

// IsKill reports whether a recovered value is the runtime's own abort.
func IsKill(v any) bool { _, ok := v.(kill); return ok }

// Cur returns the running simulated thread (nil in sequential mode).
func Cur() *Thread {
	if S == nil || !S.conc {
		return nil
	}
	return S.cur
}

// Fail records a violation and aborts the run.
func (s *Sim) Fail(class, msg string) {
	if s.Viol == nil {
		s.Viol = &Violation{class, msg}
	}
	s.killed = true
	panic(kill{})
}

// Killed reports whether the run is being aborted.
func (s *Sim) Killed() bool { return s.killed }

// Tick returns the next global event sequence number.
func (s *Sim) Tick() int64 { s.Seq++; return s.Seq }

// ---- scheduling points

func (s *Sim) step(site uint32, interesting bool) {
	if s.killed {
		panic(kill{})
	}
	s.Stats.Steps++
	if !s.conc {
		s.SeqLeft--
		if s.SeqLeft < 0 {
			s.Fail("no-progress", "a sequential call did not finish within its step budget, at "+SiteName(site))
		}
		return
	}
	t := s.cur
	t.K++
	t.steps++
	t.last = site
	if s.crash > 0 {
		if s.crash--; s.crash == 0 {
			s.Stats.Crashes++
			s.CrashAll()
		}
	}
	if t.steps > s.OpLimit {
		s.Fail("no-progress", fmt.Sprintf("client %d operation %d did not finish within %d steps, at %s", t.ID, t.Op, s.OpLimit, SiteName(site)))
	}
	if s.sched.Replay {
		if t.replay != nil {
			if to, ok := t.replay[[2]int{t.Op, t.K}]; ok {
				s.preempt(t, to, site)
			}
		}
		return
	}
	if interesting {
		s.Stats.Points++
		if s.sched.PLock > 0 && s.rng.P(s.sched.PLock) {
			s.preempt(t, -1, site)
			return
		}
	}
	s.count--
	if s.count > 0 {
		return
	}
	switch s.sched.Strategy {
	case "pct":
		s.lowPrio--
		t.prio = s.lowPrio
		if len(s.changes) > 0 {
			s.count = s.changes[0]
			s.changes = s.changes[1:]
		} else {
			s.count = 1 << 60
		}
	case "stall":
		// one client stops being scheduled for a long while, wherever it is
		s.stalled = t.ID
		s.stallEnd = s.Stats.Steps + int64(s.sched.Horizon)
		s.count = s.gap() + s.sched.Horizon
	default:
		s.count = s.gap()
	}
	s.preempt(t, -1, site)
}

func (s *Sim) gap() int {
	g := s.sched.Gap
	if g < 1 {
		g = 1
	}
	return 1 + s.rng.Intn(2*g)
}

func (s *Sim) runnable(t *Thread) bool {
	return !t.done && (t.blocked == nil || t.blocked())
}

// choose picks the next thread to run, -1 if none. self may be chosen only if allowed.
func (s *Sim) choose(self *Thread, allowSelf bool, want int) int {
	if want >= 0 && want < len(s.threads) && s.runnable(s.threads[want]) && (allowSelf || s.threads[want] != self) {
		return want
	}
	if s.sched.Replay {
		if allowSelf && self != nil && s.runnable(self) {
			return self.ID
		}
		for _, t := range s.live {
			if t != self && s.runnable(t) {
				return t.ID
			}
		}
		return -1
	}
	cand := s.cand[:0]
	for _, t := range s.live {
		if (allowSelf || t != self) && s.runnable(t) {
			cand = append(cand, t.ID)
		}
	}
	s.cand = cand
	n := len(cand)
	if n == 0 {
		return -1
	}
	if n > 1 && s.stallEnd > s.Stats.Steps {
		m := 0
		for i := 0; i < n; i++ {
			if cand[i] != s.stalled {
				cand[m] = cand[i]
				m++
			}
		}
		n = m
	}
	if s.sched.Strategy == "pct" {
		best := cand[0]
		for i := 1; i < n; i++ {
			if s.threads[cand[i]].prio > s.threads[best].prio {
				best = cand[i]
			}
		}
		return best
	}
	if s.sched.Strategy == "roundrobin" && self != nil {
		for i := 0; i < n; i++ {
			if cand[i] > self.ID {
				return cand[i]
			}
		}
		return cand[0]
	}
	return cand[s.rng.Intn(n)]
}

func (s *Sim) preempt(t *Thread, want int, site uint32) {
	n := -1
	if s.sched.Replay {
		n = s.choose(t, true, want)
	} else if s.sched.Strategy == "pct" {
		n = s.choose(t, true, -1)
	} else {
		n = s.choose(t, false, -1)
	}
	if n < 0 || n == t.ID {
		return
	}
	s.record(t, n, site)
	s.switchTo(t, s.threads[n])
}

func (s *Sim) record(t *Thread, n int, site uint32) {
	s.Stats.Switches++
	s.Rec = append(s.Rec, Switch{T: t.ID, Op: t.Op, K: t.K, To: n, At: SiteName(site)})
	h := s.Hash
	for _, v := range [4]uint64{uint64(site), uint64(t.ID), uint64(t.Op), uint64(n)} {
		h = (h ^ v) * 0x100000001b3
	}
	s.Hash = h
}

func (s *Sim) switchTo(me, n *Thread) {
	s.cur = n
	n.blocked = nil
	n.wake <- struct{}{}
	<-me.wake
	if s.killed {
		panic(kill{})
	}
}

// Block parks the running thread until pred holds.
func (s *Sim) Block(pred func() bool, what string) {
	if s.killed {
		panic(kill{})
	}
	if pred() {
		return
	}
	if !s.conc {
		s.seqBlock(pred, what)
		return
	}
	t := s.cur
	t.K++
	if t.Lib {
		t.steps = 0 // it serves many operations
	}
	t.blocked, t.what = pred, what
	s.Stats.LockWaits++
	want := -1
	if s.sched.Replay && t.replay != nil {
		if to, ok := t.replay[[2]int{t.Op, t.K}]; ok {
			want = to
		}
	}
	n := s.choose(t, false, want)
	for n < 0 && !s.idle() && s.advance(s.live) {
		if pred() {
			t.blocked = nil
			return
		}
		n = s.choose(t, false, want)
	}
	if n < 0 {
		if !s.idle() {
			s.Fail("deadlock", s.describeBlocked())
		}
		// the clients are done and the library's own goroutines wait: the phase is over
		close(s.finished)
		<-t.wake
		if s.killed {
			panic(kill{})
		}
		return
	}
	s.record(t, n, 0)
	s.switchTo(t, s.threads[n])
}

// idle tells that every client of the phase is done.
func (s *Sim) idle() bool {
	for _, t := range s.live {
		if !t.done && !t.Lib {
			return false
		}
	}
	return true
}

// advance moves the clock to the time the first sleeper wakes up at.
func (s *Sim) advance(ts []*Thread) bool {
	first := int64(-1)
	for _, t := range ts {
		if !t.done && t.blocked != nil && t.until > s.slept && (first < 0 || t.until < first) {
			first = t.until
		}
	}
	if first < 0 {
		return false
	}
	s.slept = first
	return true
}

func (s *Sim) describeBlocked() string {
	m := "no client can proceed:"
	for _, t := range s.threads {
		if !t.done {
			m += fmt.Sprintf(" client %d (operation %d) waits for %s, last at %s;", t.ID, t.Op, t.what, SiteName(t.last))
		}
	}
	return m
}

// BeginOp marks the start of an operation of the running thread.
func (s *Sim) BeginOp(i int) {
	s.SeqLeft = s.OpLimit
	if t := s.cur; s.conc && t != nil {
		t.Op, t.K, t.steps = i, 0, 0
	}
}

// Run executes fns as simulated goroutines under the scheduler and returns when
// all of them have finished (or the run was aborted; see Viol).
func (s *Sim) Run(seed uint64, sc Sched, fns []func(t *Thread)) {
	if len(fns) > MaxThreads {
		panic("simrt: too many threads")
	}
	s.phase++
	s.shadow.reset(len(fns))
	s.rng = NewRng(seed)
	s.sched = sc
	s.Rec = nil
	s.stallEnd = 0
	s.crash = sc.CrashStep
	s.threads, s.live = nil, nil
	s.finished = make(chan struct{})
	s.count = s.gap()
	if sc.Strategy == "pct" {
		h := sc.Horizon
		if h < 10 {
			h = 10
		}
		pts := make([]int, sc.Depth)
		for i := range pts {
			pts[i] = 1 + s.rng.Intn(h)
		}
		sort.Ints(pts)
		prev := 0
		s.changes = nil
		for _, p := range pts {
			d := p - prev
			if d < 1 {
				d = 1
			}
			s.changes = append(s.changes, d)
			prev = p
		}
		s.count = 1 << 60
		if len(s.changes) > 0 {
			s.count = s.changes[0]
			s.changes = s.changes[1:]
		}
		s.lowPrio = 0
	}
	for i, fn := range fns {
		t := &Thread{ID: i, wake: make(chan struct{}, 1), Op: -1}
		t.vc[i] = 1
		t.prio = 1 + s.rng.Intn(1000)
		if sc.Replay {
			t.loadReplay(sc.Switches)
		}
		s.threads = append(s.threads, t)
		s.live = append(s.live, t)
		go s.body(t, fn)
	}
	for _, t := range s.lib { // still there from before
		t.ID, t.Op, t.K, t.steps, t.replay, t.vc = len(s.threads), -1, 0, 0, nil, [MaxThreads]uint32{}
		t.enter(s)
	}
	s.lib = nil
	s.conc = true
	first := 0
	if sc.Replay {
		for _, w := range sc.Switches {
			if w.T == -1 && w.To < len(fns) {
				first = w.To
			}
		}
	} else {
		first = s.choose(nil, true, -1)
		s.Rec = append(s.Rec, Switch{T: -1, Op: -1, K: 0, To: first})
		s.Hash = (s.Hash ^ uint64(first)) * 0x100000001b3
	}
	s.cur = s.threads[first]
	s.cur.wake <- struct{}{}
	<-s.finished
	s.conc = false
	s.cur = nil
	s.lib = nil
	for _, t := range s.threads {
		if !t.done {
			s.lib = append(s.lib, t)
		}
	}
	if s.Unsup != "" {
		panic(Unsupported(s.Unsup))
	}
	if s.killed && s.Viol == nil {
		s.killed = false // crash point reached (see CrashAll), not a violation
	}
}

func (t *Thread) loadReplay(sw []Switch) {
	for _, w := range sw {
		if w.T == t.ID {
			if t.replay == nil {
				t.replay = map[[2]int]int{}
			}
			t.replay[[2]int{w.Op, w.K}] = w.To
		}
	}
}

func (s *Sim) body(t *Thread, fn func(t *Thread)) {
	<-t.wake
	defer func() {
		// runs on return, on panic (recovered by the harness or here) and on Goexit
		r := recover()
		if u, ok := r.(Unsupported); ok && s.Unsup == "" {
			s.Unsup = string(u)
			s.killed = true
			r = nil
		}
		if r != nil && !IsKill(r) && s.Viol == nil {
			s.Viol = &Violation{"harness-panic", fmt.Sprint(r) + "\n" + stack()}
			s.killed = true
		}
		t.done = true
		for i, o := range s.live {
			if o == t {
				s.live = append(s.live[:i], s.live[i+1:]...)
				break
			}
		}
		switch {
		case s.conc:
			s.next(t)
		case s.reaped != nil:
			s.reaped <- struct{}{}
		default:
			s.seqDone(t)
		}
	}()
	if s.killed {
		return
	}
	fn(t)
}

func (s *Sim) next(t *Thread) {
	if s.killed {
		for _, o := range s.threads {
			if !o.done {
				s.cur = o
				o.wake <- struct{}{}
				return
			}
		}
		close(s.finished)
		return
	}
	t.K++
	want := -1
	if s.sched.Replay && t.replay != nil {
		if to, ok := t.replay[[2]int{t.Op, t.K}]; ok {
			want = to
		}
	}
	n := s.choose(t, false, want)
	for n < 0 && !s.idle() && s.advance(s.live) {
		n = s.choose(t, false, want)
	}
	if n < 0 {
		for _, o := range s.threads {
			if !o.done && !o.Lib {
				if s.Viol == nil {
					s.Viol = &Violation{"deadlock", s.describeBlocked()}
				}
				s.killed = true
				s.cur = o
				o.wake <- struct{}{}
				return
			}
		}
		close(s.finished)
		return
	}
	s.record(t, n, 0)
	o := s.threads[n]
	o.blocked = nil
	s.cur = o
	o.wake <- struct{}{}
}

// CrashAll aborts every simulated goroutine of the phase where it stands (a
// process crash). Must be called from a simulated goroutine; does not return.
func (s *Sim) CrashAll() {
	s.killed = true
	panic(kill{})
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

// ---- instrumentation entry points

var never bool
var sink unsafe.Pointer

// Y is a scheduling point.
func Y(site uint32) {
	if s := S; s != nil {
		s.step(site, false)
	}
}

// YI is a scheduling point at a lock operation or inside caller code.
func YI(site uint32) {
	if s := S; s != nil {
		s.step(site, true)
	}
}

// RdV reads *p as one memory access.
func RdV[T any](p *T, site uint32) T {
	if never {
		sink = unsafe.Pointer(p)
	}
	s := S
	if s == nil {
		return *p
	}
	s.step(site, false)
	v := *p
	if s.conc {
		s.access(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), false, site)
		s.step(site, false)
	}
	return v
}

// Rp records a read of *p that has just happened.
func Rp[T any](p *T, site uint32) {
	if never {
		sink = unsafe.Pointer(p)
	}
	s := S
	if s == nil || !s.conc {
		return
	}
	s.access(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), false, site)
	s.step(site, false)
}

// Wr announces a write of *p and returns p.
func Wr[T any](p *T, site uint32) *T {
	if never {
		sink = unsafe.Pointer(p)
	}
	s := S
	if s == nil {
		return p
	}
	s.step(site, false)
	if s.conc {
		s.access(uintptr(unsafe.Pointer(p)), unsafe.Sizeof(*p), true, site)
	}
	return p
}

func mapPtr[M any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

// MR announces a read of a Go map.
func MR[M any](m M, site uint32) M {
	if never {
		sink = *(*unsafe.Pointer)(unsafe.Pointer(&m)) // a map on a goroutine's stack would share its address with others
	}
	s := S
	if s != nil {
		s.step(site, false)
		if s.conc {
			if a := mapPtr(m); a != 0 {
				s.access(a, 1, false, site)
			}
		}
	}
	return m
}

// MW announces a write of a Go map.
func MW[M any](m M, site uint32) M {
	if never {
		sink = *(*unsafe.Pointer)(unsafe.Pointer(&m)) // a map on a goroutine's stack would share its address with others
	}
	s := S
	if s != nil {
		s.step(site, false)
		if s.conc {
			if a := mapPtr(m); a != 0 {
				s.access(a, 1, true, site)
			}
		}
	}
	return m
}

// KV is an entry of an ordered copy of a Go map.
type KV[K comparable, V any] struct {
	K K
	V V
}

// MapKeys returns the keys of a Go map in an order the simulation chooses: one
// that depends on nothing but the seed, and that differs from one iteration to
// the next as the language allows.
func MapKeys[M ~map[K]V, K comparable, V any](m M, site uint32) []K {
	m = MR(m, site)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return mapLess(ks[i], ks[j]) })
	r := &proc.env
	if S != nil {
		r = &S.maps
	}
	for i := len(ks) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

func mapLess(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == vb.Kind() {
		switch {
		case va.CanInt():
			return va.Int() < vb.Int()
		case va.CanUint():
			return va.Uint() < vb.Uint()
		case va.Kind() == reflect.String:
			return va.String() < vb.String()
		}
	}
	return Stable(a) < Stable(b)
}

// Ptr is a store in the making: target address known, value still to come.
type Ptr[T any] struct {
	p    *T
	site uint32
}

// At names the target of a store.
func At[T any](p *T, site uint32) Ptr[T] {
	if never {
		sink = unsafe.Pointer(p)
	}
	return Ptr[T]{p, site}
}

// Set performs the store as one memory access.
func (a Ptr[T]) Set(v T) {
	s := S
	if s == nil {
		*a.p = v
		return
	}
	s.step(a.site, false)
	if s.conc {
		s.access(uintptr(unsafe.Pointer(a.p)), unsafe.Sizeof(v), true, a.site)
	}
	*a.p = v
}

// Append is the builtin append; when it writes into existing spare capacity
// that is a write of shared memory.
func Append[S ~[]E, E any](a S, site uint32, e ...E) S {
	if c := len(a) + len(e); len(e) > 0 && c <= cap(a) {
		sliceAccess(a[len(a):c], true, site)
	} else {
		sliceAccess(a, false, site)
	}
	return append(a, e...)
}

// AppendS is append(a, e...).
func AppendS[S ~[]E, E any](a S, site uint32, e []E) S {
	sliceAccess(e, false, site)
	return Append(a, site, e...)
}

// RSA announces a read of the elements of any slice, kept in its own type.
func RSA[S ~[]E, E any](e S, site uint32) S { sliceAccess(e, false, site); return e }

// WSA announces a write of the elements of any slice.
func WSA[S ~[]E, E any](e S, site uint32) S { sliceAccess(e, true, site); return e }

// ExtP announces a method call on a standard-library object.
func ExtP[T any](p *T, write bool, site uint32) *T {
	if never {
		sink = unsafe.Pointer(p)
	}
	s := S
	if s == nil {
		return p
	}
	s.step(site, false)
	if s.conc && p != nil {
		s.access(uintptr(unsafe.Pointer(p)), 1, write, site)
	}
	return p
}

// ExtI is ExtP for an object behind an interface.
func ExtI[T any](v T, write bool, site uint32) T {
	s := S
	if s == nil {
		return v
	}
	s.step(site, false)
	if s.conc && unsafe.Sizeof(v) == 2*unsafe.Sizeof(uintptr(0)) {
		if p := (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1]; p != nil {
			if never {
				sink = p
			}
			s.access(uintptr(p), 1, write, site)
		}
	}
	return v
}

// proc is the simulated process the library runs in: what differs from one
// process to the next on a real machine differs between incarnations.
var proc struct {
	seed  uint64
	n     uint64 // how often the process was restarted
	env   Rng    // what the operating system hands out
	clock int64
	r1    *rand.Rand
	r2    *randv2.Rand
}

func incarnate() {
	proc.env = NewRng(proc.seed ^ proc.n*0x9e3779b97f4a7c15)
	proc.clock = 1700000000 + int64(proc.n*86400) + int64(proc.env.Intn(3600))
	proc.r1, proc.r2 = nil, nil
	s := S
	S = nil // package initialisation happens before anything else runs
	ResetGlobals()
	S = s
}

// NewProcess starts the first incarnation of the process of a run.
func NewProcess(seed uint64) {
	resetAddrs()
	proc.seed, proc.n = seed, 0
	incarnate()
}

// Restart replaces the running process by a new one: every package-level
// variable of the library is initialised anew, and whatever a process gets from
// its surroundings (clock, process id, random seeds, map order) is different.
// Called while no simulated goroutine runs.
func Restart() {
	proc.n++
	incarnate()
	if s := S; s != nil {
		s.Stats.Restarts++
		s.ClockSec += 1 + int64(Entropy64()%100000)
		s.maps = Entropy()
		s.r1, s.r2 = nil, nil
		s.reap()
	}
}

// Entropy64 is randomness from outside the program: operating system, address
// layout, process id.
func Entropy64() uint64 {
	if S != nil {
		S.Stats.Entropy++
	}
	return proc.env.U64()
}

// Entropy is a generator seeded by Entropy64.
func Entropy() Rng { return NewRng(proc.env.U64()) }

// Incarnation counts the restarts of the simulated process.
func Incarnation() uint64 { return proc.n }

// Getpid stands in for os.Getpid.
func Getpid() int { return 2 + int((proc.seed^proc.n*7919)%30000) }

var resets []func()

// OnReset registers a function restoring the package-level variables of one
// package to their initial values; dependencies register first.
func OnReset(f func()) { resets = append(resets, f) }

// ResetGlobals restores every package-level variable of the library.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

func sliceAccess[E any](e []E, w bool, site uint32) {
	if never && len(e) > 0 {
		sink = unsafe.Pointer(&e[0])
	}
	s := S
	if s == nil {
		return
	}
	s.step(site, false)
	if !s.conc || len(e) == 0 {
		return
	}
	sz := unsafe.Sizeof(e[0])
	if sz == 0 {
		return
	}
	s.access(uintptr(unsafe.Pointer(&e[0])), sz*uintptr(len(e)), w, site)
}

// ---- clock and randomness

// Now is the simulated clock.
func Now() time.Time {
	s := S
	if s == nil {
		return time.Unix(proc.clock, 0)
	}
	s.Stats.ClockReads++
	ns := s.Stats.Steps % 1000000000
	if s.CoarseClock {
		ns -= ns % 100000 // many readings are the same
	}
	return time.Unix(s.ClockSec, ns).Add(time.Duration(s.slept))
}

// Since and Until run on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep blocks the running goroutine on the simulated clock, which moves when
// everything waits or, at random, at once.
func Sleep(d time.Duration) { sleep(d, nil) }

// sleep ends early when over becomes true.
func sleep(d time.Duration, over func() bool) {
	s := S
	if s == nil {
		return
	}
	s.step(0, true)
	if d <= 0 {
		return
	}
	t := s.seqCur
	if s.conc {
		t = s.cur
	}
	at := s.slept + int64(d)
	if !t.Lib && s.maps.P(0.5) {
		s.slept = at
		return
	}
	t.until = at
	s.Block(func() bool { return s.slept >= at || over != nil && over() }, "the clock")
	t.until = 0
}

// After stands in for time.After.
func After(d time.Duration) *Chan[time.Time] {
	c := MakeChan[time.Time](1)
	Go(func() {
		Sleep(d)
		c.Send(Now(), 0)
	})
	return c
}

type constSource struct {
	mode int
	n    uint64
	r    Rng
}

func (c *constSource) Seed(int64) {}
func (c *constSource) Uint64() uint64 {
	c.n++
	switch c.mode {
	case 1:
		return 0
	case 2:
		return ^uint64(0)
	case 3:
		if c.n%2 == 0 {
			return 0
		}
		return ^uint64(0)
	case 4:
		return c.n
	case 5: // low bits biased high towers
		return c.r.U64() & c.r.U64() & c.r.U64() & 0x3ff
	}
	return c.r.U64()
}
func (c *constSource) Int63() int64 { return int64(c.Uint64() >> 1) }

// NewSource replaces rand.NewSource: the simulator may hand out any stream.
func NewSource(seed int64) rand.Source {
	s := S
	if s == nil {
		return rand.NewSource(seed)
	}
	s.Stats.RandSources++
	if s.RandMode == 0 {
		return rand.NewSource(seed ^ s.RandSeed)
	}
	return &constSource{mode: s.RandMode, r: NewRng(uint64(seed ^ s.RandSeed))}
}

// R1 and R2 stand in for the global generators of math/rand and math/rand/v2.
func R1() *rand.Rand {
	s := S
	if s == nil {
		if proc.r1 == nil {
			proc.r1 = rand.New(rand.NewSource(int64(proc.env.U64())))
		}
		return proc.r1
	}
	if s.r1 == nil {
		s.r1 = rand.New(NewSource(s.RandSeed ^ int64(proc.n)<<20))
	}
	return s.r1
}
func R2() *randv2.Rand {
	s := S
	if s == nil {
		if proc.r2 == nil {
			proc.r2 = randv2.New(randv2.NewPCG(proc.env.U64(), 1))
		}
		return proc.r2
	}
	if s.r2 == nil {
		s.r2 = randv2.New(randv2.NewPCG(uint64(s.RandSeed), 7+proc.n))
	}
	return s.r2
}

// RN stands in for the generic rand.N.
func RN[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n I) I {
	return I(R2().Uint64N(uint64(n)))
}

// Go replaces the go statement inside library code: the new goroutine becomes
// one more simulated goroutine. Started while nothing else runs, it is held
// back until the call blocks or Drain is called.
func Go(f func()) {
	s := S
	if s == nil {
		f()
		return
	}
	t := &Thread{wake: make(chan struct{}, 1), Op: -1, Lib: true, start: f}
	if !s.conc {
		if len(s.lib) >= 64 {
			live := s.lib[:0:0]
			for _, o := range s.lib {
				if !o.done {
					live = append(live, o)
				}
			}
			s.lib = live
		}
		if s.lib = append(s.lib, t); len(s.lib) > MaxLib {
			panic(Unsupported("library code starts too many goroutines"))
		}
		return
	}
	t.ID = len(s.threads)
	t.vc = s.cur.vc
	if s.cur.ID < MaxThreads {
		s.cur.vc[s.cur.ID]++
	}
	t.enter(s)
	s.step(0, true)
}

// enter adds a goroutine of the library to the running phase.
func (t *Thread) enter(s *Sim) {
	if len(s.threads) >= MaxLib {
		panic(Unsupported("library code starts too many goroutines"))
	}
	if t.ID < MaxThreads {
		t.vc[t.ID] = 1
	}
	t.prio = 1 + int(s.Seq%1000)
	if s.sched.Replay {
		t.loadReplay(s.sched.Switches)
	}
	s.threads = append(s.threads, t)
	s.live = append(s.live, t)
	t.launch(s)
}

func (t *Thread) launch(s *Sim) {
	if f := t.start; f != nil {
		t.start = nil
		go s.body(t, func(*Thread) { f() })
	}
}

// Between phases the library's own goroutines take turns with the caller: one
// runs until it blocks or ends.

// seqNext is the next goroutine that can run, nil if there is none.
func (s *Sim) seqNext() *Thread {
	for i, t := range s.lib {
		if !t.done && (t.blocked == nil || t.blocked()) && t != s.seqCur {
			// to the back, so that each gets its turn
			s.lib = append(append(append([]*Thread{}, s.lib[:i]...), s.lib[i+1:]...), t)
			return t
		}
	}
	if m := s.main; m.blocked != nil && m.blocked() {
		return m
	}
	if t := s.seqCur; !t.done && t.blocked != nil && t.blocked() {
		return t
	}
	return nil
}

func (s *Sim) seqBlock(pred func() bool, what string) {
	me := s.seqCur
	me.blocked, me.what = pred, what
	n := s.seqNext()
	for n == nil && s.advance(append([]*Thread{s.main}, s.lib...)) {
		n = s.seqNext()
	}
	if n == nil {
		if me != s.main {
			s.seqCur = s.main
		}
		s.Fail("deadlock", "a call made while nothing else runs blocks forever on "+s.main.what)
	}
	n.blocked = nil
	if n == me {
		return
	}
	s.seqCur = n
	n.launch(s)
	n.wake <- struct{}{}
	<-me.wake
	if s.killed {
		panic(kill{})
	}
}

// seqDone hands over from a goroutine that has ended between phases.
func (s *Sim) seqDone(t *Thread) {
	n := s.seqNext()
	for n == nil && !s.killed && s.advance(append([]*Thread{s.main}, s.lib...)) {
		n = s.seqNext()
	}
	if s.killed || n == nil {
		if s.Viol == nil {
			s.Viol = &Violation{"deadlock", "a call made while nothing else runs blocks forever on " + s.main.what}
		}
		s.killed = true
		n = s.main
	}
	n.blocked = nil
	s.seqCur = n
	n.launch(s)
	n.wake <- struct{}{}
}

// Drain runs goroutines the library started while nothing else was running,
// until each has ended or waits.
func (s *Sim) Drain() {
	for len(s.lib) > 0 {
		ready := false
		live := s.lib[:0:0]
		for _, t := range s.lib {
			if !t.done {
				live = append(live, t)
				ready = ready || t.blocked == nil || t.blocked()
			}
		}
		s.lib = live
		if !ready {
			return
		}
		s.seqBlock(func() bool { return true }, "its goroutines")
	}
}

// Alone reports whether the phase has had one thread only.
func (s *Sim) Alone() bool { return !s.conc || len(s.threads) == 1 }

// reap ends the library's goroutines that are left.
func (s *Sim) reap() {
	if len(s.lib) == 0 {
		return
	}
	was := s.killed
	s.killed = true
	s.reaped = make(chan struct{})
	for _, t := range s.lib {
		if !t.done && t.start == nil {
			s.seqCur = t
			t.wake <- struct{}{}
			<-s.reaped
		}
	}
	s.lib, s.reaped, s.seqCur = nil, nil, s.main
	s.killed = was
}

// Unsupported is raised for constructs the simulator cannot control.
type Unsupported string
