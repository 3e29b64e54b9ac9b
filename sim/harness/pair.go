package main

import (
	"fmt"
	"sort"

	"github.com/liyue201/gostl/algorithm"
	algosort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- two or three sets and the operations between them; A[0] of every op picks the set

const maxSets = 3

type pairState struct {
	s [maxSets]*ordState
}

func (s *pairState) Hash() uint64 {
	return hashInts(41, int(s.s[0].Hash()), int(s.s[1].Hash()), int(s.s[2].Hash()))
}
func (s *pairState) String() string {
	return "A=" + s.s[0].String() + " B=" + s.s[1].String() + " C=" + s.s[2].String()
}

func algebra(which string, x, y *ordState) []int {
	var out []int
	for _, k := range x.k {
		in := y.lb(k) < y.ub(k)
		if which == "union" || (which == "inter") == in {
			out = append(out, k)
		}
	}
	if which == "union" {
		n := &ordState{sp: x.sp, k: out, v: make([]int, len(out))}
		for _, k := range y.k {
			n = n.insert(k, 0)
		}
		out = n.k
	}
	return out
}

func (s *pairState) Step(op *Op, r *Res) []State {
	i := op.A[0]
	switch op.K {
	case "union", "inter", "diff":
		if r.P == Panicked {
			return nil
		}
		if r.broken() {
			return one(s)
		}
		return same(s, r.S == "" && eq(r.V, algebra(op.K, s.s[i], s.s[op.A[1]])))
	}
	sub := Op{K: op.K, A: op.A[1:], F: op.F}
	var out []State
	for _, t := range s.s[i].Step(&sub, r) {
		n := &pairState{s.s}
		n.s[i] = t.(*ordState)
		out = append(out, n)
	}
	return out
}

type pairInst struct{ o [maxSets]*ordInst }

func newPair(c *Ctx) (Inst, State) {
	p, s := &pairInst{}, &pairState{}
	for i := range p.o {
		x := makeOrd(c, "set")
		p.o[i], s.s[i] = x.in, &ordState{sp: x.sp}
	}
	return p, s
}

func (p *pairInst) Exec(c *Ctx, op *Op, r *Res) {
	switch op.K {
	case "union", "inter", "diff":
		// [set, other, extra code]: the result, then proof that it is an independent, working set
		res := p.o[op.A[0]].alg(op.K, p.o[op.A[1]])
		keys := func() (out []int) {
			d := res.content()
			for i := 0; i < len(d); i += 2 {
				out = append(out, d[i])
			}
			return
		}
		got := keys()
		r.V = got
		if got == nil {
			r.V = []int{}
		}
		back := res.iterDump(res.last(), true)
		if res.size() != len(got) || len(back) != 2*len(got) {
			r.S = fmt.Sprintf("result has size %d, %d entries forward and %d backward", res.size(), len(got), len(back)/2)
			return
		}
		x := op.A[2]
		for _, k := range got {
			if k == x {
				x = -1
			}
			if !res.has(k) {
				r.S = fmt.Sprintf("result does not contain its entry %d", k)
				return
			}
		}
		if x >= 0 {
			res.ins(x, 0)
			if !res.has(x) || res.size() != len(got)+1 {
				r.S = "result cannot be modified"
			}
		}
		for _, k := range got {
			res.del(k)
		}
		if x >= 0 {
			res.del(x)
		}
		if res.size() != 0 {
			r.S = "result cannot be emptied"
		}
	default:
		sub := Op{K: op.K, A: op.A[1:], F: op.F}
		p.o[op.A[0]].Exec(c, &sub, r)
	}
}

// ---- disjoint ranges of one container under the rearranging algorithms

// rangeState is the exact content of one range; elements are key*keyScale+id.
type rangeState struct{ a []int }

func (s *rangeState) Hash() uint64   { return hashInts(51, s.a...) }
func (s *rangeState) String() string { return short(s.a) }

func keysOf(a []int) []int {
	out := make([]int, len(a))
	for i, x := range a {
		out[i] = x / keyScale
	}
	return out
}

// nextPerm is the next permutation of keys in lexicographic order.
func nextPerm(k []int) ([]int, bool) {
	k = clone(k)
	i := len(k) - 2
	for i >= 0 && k[i] >= k[i+1] {
		i--
	}
	if i < 0 {
		return k, false
	}
	j := len(k) - 1
	for k[j] <= k[i] {
		j--
	}
	k[i], k[j] = k[j], k[i]
	for l, m := i+1, len(k)-1; l < m; l, m = l+1, m-1 {
		k[l], k[m] = k[m], k[l]
	}
	return k, true
}

func (s *rangeState) Step(op *Op, r *Res) []State {
	if r.P == Panicked {
		return nil
	}
	n := len(s.a)
	ret, v := 0, r.V
	if op.K == "next" && !r.broken() {
		if len(v) == 0 {
			return nil
		}
		ret, v = v[0], v[1:]
	}
	if len(v) != n || !eq(sorted(v), sorted(s.a)) && op.K != "write" {
		return nil
	}
	to := one(&rangeState{clone(v)})
	if r.broken() {
		return to
	}
	k, was := keysOf(v), keysOf(s.a)
	switch op.K {
	case "sort":
		return same(to[0], sort.IntsAreSorted(k))
	case "stable":
		w := clone(s.a)
		sort.SliceStable(w, func(i, j int) bool { return w[i]/keyScale < w[j]/keyScale })
		return same(to[0], eq(v, w))
	case "nth":
		if n == 0 {
			return to
		}
		i := op.A[0]
		return same(to[0], i >= n || k[i] == sorted(k)[i])
	case "next":
		want, ok := nextPerm(was)
		if b2i(ok) != ret {
			return nil
		}
		return same(to[0], !ok || eq(k, want))
	case "rev":
		for i := range v {
			if v[i] != s.a[n-1-i] {
				return nil
			}
		}
		return to
	case "read":
		return same(to[0], eq(v, s.a))
	case "write":
		// overwrites the range with fresh elements
		return same(to[0], eq(v, op.A))
	}
	panic("model: unknown op " + op.K)
}

type rangeInst struct {
	at     func(i int) iterator.RandomAccessIterator[int]
	lo, hi int
	noRead bool
}

func (o *rangeInst) read(r *Res) {
	for i := o.lo; i < o.hi; i++ {
		r.V = append(r.V, o.at(i).Value())
	}
}

func (o *rangeInst) Exec(c *Ctx, op *Op, r *Res) {
	f, l := o.at(o.lo), o.at(o.hi)
	defer func() {
		if c.s.Killed() {
			return
		}
		// also when the call was interrupted: what does the range hold now?
		o.read(r)
	}()
	switch op.K {
	case "sort":
		algosort.Sort[int](f, l, c.keyCmp)
	case "stable":
		algosort.Stable[int](f, l, c.keyCmp)
	case "nth":
		if o.hi > o.lo {
			algosort.NthElement[int](f, l, op.A[0], c.keyCmp)
		}
	case "next":
		r.bool(algosort.NextPermutation[int](f, l, c.keyCmp))
	case "rev":
		algorithm.Reverse[int](f, l)
	case "write":
		for i := o.lo; i < o.hi; i++ {
			o.at(i).SetValue(op.A[i-o.lo])
		}
	case "read":
	default:
		panic("exec: unknown op " + op.K)
	}
}

// newRangeContainer builds the container the ranges live in, holding v.
func newRangeContainer(kind string, front int, v []int) func(i int) iterator.RandomAccessIterator[int] {
	switch kind {
	case "array":
		a := array.New[int](len(v))
		for i, x := range v {
			a.Set(i, x)
		}
		return func(i int) iterator.RandomAccessIterator[int] { return a.IterAt(i) }
	case "slicew":
		w := slice.NewSliceWrapper(clone(v))
		return func(i int) iterator.RandomAccessIterator[int] { return w.Begin().IteratorAt(i) }
	case "deque":
		d := deque.New[int]()
		if front > len(v) {
			front = len(v)
		}
		for i := front - 1; i >= 0; i-- {
			d.PushFront(v[i])
		}
		for _, x := range v[front:] {
			d.PushBack(x)
		}
		return func(i int) iterator.RandomAccessIterator[int] { return d.IterAt(i) }
	}
	w := vector.New[int]()
	for _, x := range v {
		w.PushBack(x)
	}
	return func(i int) iterator.RandomAccessIterator[int] { return w.IterAt(i) }
}
