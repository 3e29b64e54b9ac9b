package simrt

import (
	"fmt"
	"unsafe"
)

// Happens-before race detection over the recorded accesses of one phase.

type acc struct {
	clock uint32
	site  uint32
	mask  uint8
}

// shadow holds, for each word accessed in the phase, the last read and write of
// each thread: n accesses to read and n to write, for the first n threads.
type shadow struct {
	tab    []slot
	gen    uint32
	used   int
	n      int
	chunks [][]acc
}

type slot struct {
	addr uintptr
	gen  uint32
	at   uint32
}

const chunk = 256 // words

// reset starts a phase of n threads.
func (h *shadow) reset(n int) {
	h.gen++
	h.used = 0
	if h.tab == nil || len(h.tab) > 1<<15 {
		h.tab = make([]slot, 1<<11)
	}
	if n != h.n || len(h.chunks) > 64 {
		h.n, h.chunks = n, nil
	}
}

// widen makes room for more threads.
func (h *shadow) widen(n int) {
	old := *h
	h.n, h.chunks = n, nil
	for i := 0; i < old.used; i++ {
		from, to := old.cell(i), h.fresh(i)
		copy(to, from[:old.n])
		copy(to[n:], from[old.n:])
	}
}

func (h *shadow) cell(i int) []acc {
	c := h.chunks[i/chunk]
	i = i % chunk * 2 * h.n
	return c[i : i+2*h.n]
}

func (h *shadow) fresh(i int) []acc {
	if i/chunk == len(h.chunks) {
		h.chunks = append(h.chunks, make([]acc, chunk*2*h.n))
	}
	c := h.cell(i)
	for j := range c {
		c[j] = acc{}
	}
	return c
}

// get is what is known of the word at a.
func (h *shadow) get(a uintptr) (r, w []acc) {
	if h.used*2 >= len(h.tab) {
		old := h.tab
		h.tab = make([]slot, 2*len(old))
		for i := range old {
			if old[i].gen == h.gen && old[i].addr != 0 {
				*h.slot(old[i].addr) = old[i]
			}
		}
	}
	var c []acc
	if p := h.slot(a); p.addr != a || p.gen != h.gen {
		*p = slot{a, h.gen, uint32(h.used)}
		c = h.fresh(h.used)
		h.used++
	} else {
		c = h.cell(int(p.at))
	}
	return c[:h.n], c[h.n:]
}

func (h *shadow) slot(a uintptr) *slot {
	m := uintptr(len(h.tab) - 1)
	i := (a * 0x9e3779b97f4a7c15 >> 20) & m
	for {
		c := &h.tab[i]
		if c.gen != h.gen || c.addr == 0 || c.addr == a {
			return c
		}
		i = (i + 1) & m
	}
}

func (s *Sim) access(addr, size uintptr, write bool, site uint32) {
	if size == 0 || s.NoRace || len(s.threads) == 1 || s.killed || s.cur.ID >= MaxThreads {
		return
	}
	s.Stats.RaceChecks++
	t := s.cur
	threads := s.threads
	if len(threads) > MaxThreads {
		threads = threads[:MaxThreads]
	}
	if len(threads) > s.shadow.n {
		s.shadow.widen(MaxThreads)
	}
	end := addr + size
	for g := addr >> 3; g<<3 < end; g++ {
		mask := uint8(0xff)
		if g<<3 < addr {
			mask &= 0xff << (addr - g<<3)
		}
		if e := end - g<<3; e < 8 {
			mask &= 0xff >> (8 - e)
		}
		r, w := s.shadow.get(g)
		for u := range threads {
			if u == t.ID {
				continue
			}
			if a := &w[u]; a.mask&mask != 0 && a.clock > t.vc[u] {
				s.race(t, u, a.site, true, write, site)
			}
			if write {
				if a := &r[u]; a.mask&mask != 0 && a.clock > t.vc[u] {
					s.race(t, u, a.site, false, write, site)
				}
			}
		}
		a := &r[t.ID]
		if write {
			a = &w[t.ID]
		}
		if a.clock == t.vc[t.ID] {
			a.mask |= mask
		} else {
			*a = acc{clock: t.vc[t.ID], mask: mask}
		}
		a.site = site
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

func (s *Sim) race(t *Thread, u int, usite uint32, uw, w bool, site uint32) {
	s.Fail("data-race", fmt.Sprintf("unsynchronised %s at %s by client %d (operation %d) conflicts with %s at %s by client %d",
		rw(w), SiteName(site), t.ID, t.Op, rw(uw), SiteName(usite), u))
}

// VC is the clock carried by a synchronisation object.
type VC struct {
	phase uint32
	c     [MaxThreads]uint32
}

// Acquire joins the object's clock into the running thread.
func (v *VC) Acquire() {
	s := S
	if s == nil || !s.conc || v.phase != s.phase {
		return
	}
	t := s.cur
	for i := range v.c {
		if v.c[i] > t.vc[i] {
			t.vc[i] = v.c[i]
		}
	}
}

// Release joins the running thread's clock into the object.
func (v *VC) Release() {
	s := S
	if s == nil || !s.conc {
		return
	}
	if v.phase != s.phase {
		*v = VC{phase: s.phase}
	}
	t := s.cur
	for i := range v.c {
		if t.vc[i] > v.c[i] {
			v.c[i] = t.vc[i]
		}
	}
	if t.ID < MaxThreads {
		t.vc[t.ID]++
	}
}

// Wait blocks the running thread until pred holds; outside a simulation it must hold already.
func Wait(pred func() bool, what string) {
	if S == nil {
		if !pred() {
			panic("simrt: blocking on " + what + " outside a simulation")
		}
		return
	}
	S.Block(pred, what)
}

// Fatal reports misuse that the real runtime treats as a fatal error.
func Fatal(msg string) {
	if S == nil {
		panic("simrt: " + msg)
	}
	if S.killed {
		panic(kill{})
	}
	S.Fail("fatal", msg)
}

// Aborting reports whether the current run is being torn down.
func Aborting() bool { return S != nil && S.killed }

// AtomicAccess is a synchronising access of an atomic variable.
func AtomicAccess(p unsafe.Pointer, size uintptr, write bool) {
	if never {
		sink = p
	}
	s := S
	if s == nil {
		return
	}
	s.step(0, true)
	if !s.conc {
		return
	}
	if s.avPhase != s.phase || s.av == nil {
		s.avPhase = s.phase
		s.av = map[uintptr]*VC{}
	}
	v := s.av[uintptr(p)]
	if v == nil {
		v = &VC{}
		s.av[uintptr(p)] = v
	}
	v.Acquire()
	s.access(uintptr(p), size, write, 0)
	v.Release()
}
