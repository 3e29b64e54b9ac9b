package main

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/liyue201/gostl/ds/heap"
	pqueue "github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/utils/comparator"
)

type elem struct{ P, ID int }

// pqState is a multiset of elements, sorted by (priority, id). dirty means an
// injected comparator failure may have disturbed the order since the queue was
// last empty.
type pqState struct {
	e     []elem
	dirty bool
	rev   bool
	cost  bool
	h     uint64
}

func (s *pqState) Hash() uint64 {
	if s.h == 0 {
		h := hashInts(11, b2i(s.dirty))
		for _, x := range s.e {
			h = hashInts(h, x.P, x.ID)
		}
		s.h = h | 1
	}
	return s.h
}
func (s *pqState) String() string {
	d := ""
	if s.dirty {
		d = " (order disturbed)"
	}
	return fmt.Sprintf("%d elements %v%s", len(s.e), s.e, d)
}

func (s *pqState) find(x elem) (int, bool) {
	i := sort.Search(len(s.e), func(i int) bool {
		return s.e[i].P > x.P || s.e[i].P == x.P && s.e[i].ID >= x.ID
	})
	return i, i < len(s.e) && s.e[i] == x
}

func (s *pqState) copy(n int) *pqState {
	return &pqState{e: append(make([]elem, 0, n), s.e...), dirty: s.dirty, rev: s.rev, cost: s.cost}
}

func (s *pqState) add(x elem) *pqState {
	i, _ := s.find(x)
	n := s.copy(len(s.e) + 1)
	n.e = append(n.e, elem{})
	copy(n.e[i+1:], n.e[i:])
	n.e[i] = x
	return n
}

func (s *pqState) remove(i int) *pqState {
	n := s.copy(len(s.e))
	n.e = append(n.e[:i], n.e[i+1:]...)
	if len(n.e) == 0 {
		n.dirty = false
	}
	return n
}

func (s *pqState) best() int {
	if s.rev {
		return s.e[len(s.e)-1].P
	}
	return s.e[0].P
}

func (s *pqState) taint() *pqState {
	if s.dirty || len(s.e) == 0 {
		return s
	}
	n := s.copy(len(s.e))
	n.dirty = true
	return n
}

func (s *pqState) Step(op *Op, r *Res) []State {
	n := len(s.e)
	if s.cost && r.P == Normal && op.F == nil {
		if lg := bits.Len(uint(n + 2)); (op.K == "push" || op.K == "pop" || op.K == "hfix" || op.K == "hrem") && r.C > 6*lg+12 {
			return nil
		}
		if op.K == "pushn" {
			n += op.A[1]
		}
		if lg := bits.Len(uint(n + 2)); r.M > 6*lg+12 {
			return nil
		}
		n = len(s.e)
	}
	if r.P == Panicked {
		switch op.K {
		case "pop", "top":
			return same(s, n == 0)
		}
		return nil
	}
	switch op.K {
	case "push":
		x := s.add(elem{op.A[0], op.A[1]})
		if r.broken() {
			return []State{s.taint(), x.taint()}
		}
		return one(x)
	case "pushn":
		x := s.copy(n + op.A[1])
		for i := 0; i < op.A[1]; i++ {
			x.e = append(x.e, elem{(op.A[0] + i*op.A[2]) % 997, op.A[3] + i})
		}
		sort.Slice(x.e, func(i, j int) bool {
			return x.e[i].P < x.e[j].P || x.e[i].P == x.e[j].P && x.e[i].ID < x.e[j].ID
		})
		return one(x)
	case "cycle":
		if n == 0 {
			return same(s, len(r.V) == 0)
		}
		return same(s, eq(r.V, []int{s.best(), 0}))
	case "pop":
		if r.broken() {
			out := []State{s.taint()}
			for i := range s.e {
				if s.dirty || s.e[i].P == s.best() {
					out = append(out, s.remove(i).taint())
				}
			}
			return out
		}
		if n == 0 || len(r.V) != 2 {
			return nil
		}
		i, ok := s.find(elem{r.V[0], r.V[1]})
		if !ok || !s.dirty && r.V[0] != s.best() {
			return nil
		}
		return one(s.remove(i))
	case "top":
		if r.broken() {
			return one(s)
		}
		if n == 0 || len(r.V) != 2 {
			return nil
		}
		_, ok := s.find(elem{r.V[0], r.V[1]})
		return same(s, ok && (s.dirty || r.V[0] == s.best()))
	case "size":
		return same(s, r.broken() || eq(r.V, []int{n}))
	case "empty":
		return same(s, r.broken() || eq(r.V, b1(n == 0)))
	case "clear":
		x := &pqState{rev: s.rev, cost: s.cost}
		if r.broken() {
			return []State{s, x}
		}
		return one(x)
	case "drain":
		// pops until empty, then checks that a further pop panics
		if r.broken() {
			return nil
		}
		if len(r.V) != 2*n+1 || r.V[2*n] != 1 {
			return nil
		}
		x := State(s)
		for i := 0; i < n; i++ {
			y := x.Step(&Op{K: "pop"}, &Res{V: r.V[2*i : 2*i+2]})
			if len(y) == 0 {
				return nil
			}
			x = y[0]
		}
		return one(&pqState{rev: s.rev, cost: s.cost})
	case "hrem":
		if n == 0 {
			return same(s, len(r.V) == 0)
		}
		if r.broken() {
			out := []State{s.taint()}
			for i := range s.e {
				out = append(out, s.remove(i).taint())
			}
			return out
		}
		if len(r.V) != 4 || r.V[0] != r.V[2] || r.V[1] != r.V[3] {
			return nil
		}
		i, ok := s.find(elem{r.V[0], r.V[1]})
		if !ok {
			return nil
		}
		return one(s.remove(i))
	case "hfix":
		if n == 0 {
			return same(s, len(r.V) == 0)
		}
		if len(r.V) != 2 {
			return nil
		}
		i, ok := s.find(elem{r.V[0], r.V[1]})
		if !ok {
			return nil
		}
		x := s.remove(i)
		x.dirty = s.dirty
		x = x.add(elem{op.A[1], r.V[1]})
		if r.broken() {
			return one(x.taint())
		}
		return one(x)
	case "hinit":
		x := s.copy(n)
		x.dirty = r.broken() && n > 0
		return one(x)
	}
	panic("model: unknown op " + op.K)
}

type pqInst struct {
	push  func(elem)
	pop   func() elem
	top   func() elem
	size  func() int
	empty func() bool
	clear func()
	h     *elemHeap
}

func elemCmp(c *Ctx, rev bool) comparator.Comparator[elem] {
	cmp := comparator.Comparator[elem](func(a, b elem) int {
		c.callback("cmp")
		return comparator.IntComparator(a.P, b.P)
	})
	if rev {
		return comparator.Reverse(cmp)
	}
	return cmp
}

func newPQ(c *Ctx) Inst {
	q := pqueue.New[elem](elemCmp(c, c.P["rev"] == 1), shared(c, "pq", func() []pqueue.Option {
		if c.P["safe"] == 1 {
			return []pqueue.Option{pqueue.WithGoroutineSafe()}
		}
		return nil
	})...)
	return &pqInst{push: q.Push, pop: q.Pop, top: q.Top, size: q.Size, empty: q.Empty, clear: q.Clear}
}

// elemHeap is the caller's collection behind the heap functions.
type elemHeap struct {
	e   []elem
	cmp comparator.Comparator[elem]
}

func (h *elemHeap) Len() int           { return len(h.e) }
func (h *elemHeap) Less(i, j int) bool { return h.cmp(h.e[i], h.e[j]) < 0 }
func (h *elemHeap) Swap(i, j int)      { h.e[i], h.e[j] = h.e[j], h.e[i] }
func (h *elemHeap) Push(x elem)        { h.e = append(h.e, x) }
func (h *elemHeap) Pop() elem          { x := h.e[len(h.e)-1]; h.e = h.e[:len(h.e)-1]; return x }

func newHeap(c *Ctx) Inst {
	h := &elemHeap{cmp: elemCmp(c, c.P["rev"] == 1)}
	heap.Init[elem](h)
	return &pqInst{h: h,
		push: func(x elem) { heap.Push[elem](h, x) },
		pop:  func() elem { return heap.Pop[elem](h) },
		top: func() elem {
			if len(h.e) == 0 {
				panic("empty")
			}
			return h.e[0]
		},
		size: h.Len, empty: func() bool { return h.Len() == 0 }, clear: func() { h.e = nil },
	}
}

func (q *pqInst) Exec(c *Ctx, op *Op, r *Res) {
	switch op.K {
	case "push":
		q.push(elem{op.A[0], op.A[1]})
	case "pushn":
		for i := 0; i < op.A[1]; i++ {
			b := c.cur().cmps
			q.push(elem{(op.A[0] + i*op.A[2]) % 997, op.A[3] + i})
			r.M = max(r.M, c.cur().cmps-b)
		}
	case "cycle": // takes the top and puts it back, again and again
		for i := 0; i < op.A[0] && q.size() > 0; i++ {
			c.reclaim()
			b := c.cur().cmps
			x := q.pop()
			if i == 0 {
				r.put(x.P, 0)
			} else if x.P != r.V[0] {
				r.V[1]++
			}
			r.M = max(r.M, c.cur().cmps-b)
			b = c.cur().cmps
			q.push(x)
			r.M = max(r.M, c.cur().cmps-b)
		}
	case "pop":
		x := q.pop()
		r.put(x.P, x.ID)
	case "top":
		x := q.top()
		r.put(x.P, x.ID)
	case "size":
		r.put(q.size())
	case "empty":
		r.bool(q.empty())
	case "clear":
		q.clear()
	case "drain":
		for n := q.size(); n > 0; n-- {
			b := c.cur().cmps
			x := q.pop()
			r.M = max(r.M, c.cur().cmps-b)
			r.put(x.P, x.ID)
		}
		r.bool(func() (p bool) {
			defer func() {
				if x := recover(); x != nil {
					p = !isRuntimeAbort(x)
					if !p {
						panic(x)
					}
				}
			}()
			q.pop()
			return
		}())
	case "hrem":
		if n := q.size(); n > 0 {
			i := mod(op.A[0], n)
			want := q.h.e[i]
			x := heap.Remove[elem](q.h, i)
			r.put(want.P, want.ID, x.P, x.ID)
		}
	case "hfix":
		if n := q.size(); n > 0 {
			i := mod(op.A[0], n)
			r.put(q.h.e[i].P, q.h.e[i].ID)
			q.h.e[i].P = op.A[1]
			heap.Fix[elem](q.h, i)
		}
	case "hinit":
		heap.Init[elem](q.h)
	default:
		panic("exec: unknown op " + op.K)
	}
}
