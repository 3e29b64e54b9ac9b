package main

import (
	"fmt"
	"simrt"
	"strings"

	"github.com/liyue201/gostl/algorithm"
	algosort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// seqState is the reference model of every sequence: a plain slice.
type seqState struct {
	a []int
	h uint64
}

func (s *seqState) Hash() uint64 {
	if s.h == 0 {
		s.h = hashInts(3, s.a...) | 1
	}
	return s.h
}
func (s *seqState) String() string { return fmt.Sprintf("%d elements %s", len(s.a), short(s.a)) }

func seqText(a []int) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, x := range a {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprint(&b, x)
	}
	b.WriteByte(']')
	return b.String()
}

func mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	return ((i % n) + n) % n
}

func without(a []int, i, j int) []int { return append(clone(a[:i]), a[j:]...) }
func with(a []int, i int, v ...int) []int {
	return append(append(clone(a[:i]), v...), a[i:]...)
}
func move(a []int, i, j int) []int { // element i ends up at position j of the result
	x := a[i]
	return with(without(a, i, i+1), j, x)
}

func (s *seqState) Step(op *Op, r *Res) []State {
	n := len(s.a)
	a := func(i int) int { return op.A[i] }
	to := func(b []int) []State {
		if r.broken() {
			return []State{s, &seqState{a: b}}
		}
		return one(&seqState{a: b})
	}
	if r.P == Panicked {
		switch op.K {
		case "popf", "popb", "front", "back":
			return same(s, n == 0)
		}
		return nil
	}
	switch op.K {
	case "pushb":
		return to(with(s.a, n, a(0)))
	case "pushf":
		return to(with(s.a, 0, a(0)))
	case "pushbn":
		b := clone(s.a)
		for i := 0; i < a(1); i++ {
			b = append(b, a(0)+i)
		}
		return to(b)
	case "pushfn":
		b := make([]int, 0, n+a(1))
		for i := a(1) - 1; i >= 0; i-- {
			b = append(b, a(0)+i)
		}
		return to(append(b, s.a...))
	case "cyclef", "cycleb": // a push at the end and a pop at the front or end, again and again
		all, k := clone(s.a), 0
		for i := 0; i < a(1); i++ {
			all = append(all, a(0)+i)
			x := all[len(all)-1]
			if op.K == "cyclef" {
				x = all[k]
				k++
			} else {
				all = all[:len(all)-1]
			}
			if r.broken() || len(r.V) != a(1) || r.V[i] != x {
				return nil
			}
		}
		return one(&seqState{a: clone(all[k:])})
	case "popfn":
		k := a(0)
		if k > n {
			k = n
		}
		if !r.broken() && !eq(r.V, s.a[:k]) {
			return nil
		}
		return to(clone(s.a[k:]))
	case "popbn":
		k := a(0)
		if k > n {
			k = n
		}
		if !r.broken() {
			if len(r.V) != k {
				return nil
			}
			for i := 0; i < k; i++ {
				if r.V[i] != s.a[n-1-i] {
					return nil
				}
			}
		}
		return to(clone(s.a[:n-k]))
	case "popf", "popb":
		if n == 0 {
			if r.broken() {
				return one(s)
			}
			return nil
		}
		i := 0
		if op.K == "popb" {
			i = n - 1
		}
		if !r.broken() && !eq(r.V, s.a[i:i+1]) {
			return nil
		}
		return to(without(s.a, i, i+1))
	case "clear":
		return to(nil)
	}
	if r.broken() {
		return one(s)
	}
	switch op.K {
	case "front", "back":
		if n == 0 {
			return nil
		}
		i := 0
		if op.K == "back" {
			i = n - 1
		}
		return same(s, eq(r.V, s.a[i:i+1]))
	case "size":
		return same(s, eq(r.V, []int{n}))
	case "empty":
		return same(s, eq(r.V, b1(n == 0)))
	case "str", "cont":
		return same(s, r.S == seqText(s.a) || r.S == itemText(s.a))
	case "dump", "data":
		return same(s, eq(r.V, s.a) && r.S == "")
	case "trav", "copy":
		w := s.a
		if a(0) > 0 && a(0) < n {
			w = w[:a(0)]
		}
		return same(s, eq(r.V, w) && r.S == "")
	case "rdump":
		b := make([]int, n)
		for i, x := range s.a {
			b[n-1-i] = x
		}
		return same(s, eq(r.V, b))
	case "at", "iat":
		if n == 0 {
			return same(s, len(r.V) == 0)
		}
		return same(s, eq(r.V, []int{s.a[mod(a(0), n)]}))
	case "set", "iset":
		if n == 0 {
			return one(s)
		}
		if r.S != "" {
			return nil
		}
		b := clone(s.a)
		b[mod(a(0), n)] = a(1)
		return to(b)
	case "insat", "iins":
		return to(with(s.a, mod(a(0), n+1), a(1)))
	case "ers", "iers":
		if n == 0 {
			return one(s)
		}
		i := mod(a(0), n)
		return to(without(s.a, i, i+1))
	case "erange", "ierange":
		i := mod(a(0), n+1)
		j := i + mod(a(1), n+1-i)
		return to(without(s.a, i, j))
	case "insatn":
		b := clone(s.a)
		for j := 0; j < a(1); j++ {
			b = with(b, mod(a(0)+2*j, len(b)+1), a(2)+j)
		}
		return to(b)
	case "ersn":
		b := clone(s.a)
		for j := 0; j < a(1) && len(b) > 0; j++ {
			i := mod(a(0)+j, len(b))
			b = without(b, i, i+1)
		}
		return to(b)
	case "fill":
		b := make([]int, n)
		for i := range b {
			b[i] = a(0)
		}
		return to(b)
	case "resize":
		return to(clone(s.a[:mod(a(0), n+1)]))
	case "clone", "reserve", "shrink", "eqit", "swapfresh", "oob", "foreign":
		return same(s, r.S == "")
	case "attach":
		return to(clone(op.A))
	// lists
	case "insafter":
		if n == 0 {
			return one(s)
		}
		return to(with(s.a, mod(a(0), n)+1, a(1)))
	case "insbefore":
		if n == 0 {
			return one(s)
		}
		return to(with(s.a, mod(a(0), n), a(1)))
	case "rem":
		if n == 0 {
			return one(s)
		}
		i := mod(a(0), n)
		if !eq(r.V, s.a[i:i+1]) {
			return nil
		}
		return to(without(s.a, i, i+1))
	case "mtf":
		if n == 0 {
			return one(s)
		}
		return to(move(s.a, mod(a(0), n), 0))
	case "mtb":
		if n == 0 {
			return one(s)
		}
		return to(move(s.a, mod(a(0), n), n-1))
	case "mafter":
		if n == 0 {
			return one(s)
		}
		i, j := mod(a(0), n), mod(a(1), n)
		if i == j {
			return one(s)
		}
		b := without(s.a, i, i+1)
		if j > i {
			j--
		}
		return to(with(b, j+1, s.a[i]))
	case "pblist":
		return same2(&seqState{a: with(s.a, n, op.A...)}, r.S == "")
	case "pflist":
		return same2(&seqState{a: with(s.a, 0, op.A...)}, r.S == "")
	case "pbself", "pfself":
		return to(with(s.a, n, s.a...))
	// algorithms over the positions [i, j)
	case "acount", "afind", "alb", "aub", "abin", "amax", "amin", "aany", "aall", "anone", "acountif", "afindif":
		return same(s, eq(r.V, s.alg(op)))
	case "lcount", "lfind":
		return same(s, eq(r.V, s.alg(&Op{K: "a" + op.K[1:], A: []int{a(0), 0, n}})))
	}
	panic("model: unknown op " + op.K)
}

func same2(s State, ok bool) []State { return same(s, ok) }

func span(n, i, j int) (int, int) {
	i = mod(i, n+1)
	return i, i + mod(j, n+1-i)
}

// alg is what each searching algorithm must return; ordered ones see s.a sorted.
func (s *seqState) alg(op *Op) []int {
	n := len(s.a)
	i, j := span(n, op.A[1], op.A[2])
	if op.K == "acount" && op.A[1] == 0 && op.A[2] == n {
		i, j = 0, n
	}
	if op.K == "afind" && op.A[1] == 0 && op.A[2] == n {
		i, j = 0, n
	}
	v := op.A[0]
	w := s.a[i:j]
	key := func(x int) int { return x / keyScale }
	cnt, first, lb, ub, even := 0, j, j, j, 0
	firstEven := j
	for p, x := range w {
		if key(x) == key(v) {
			cnt++
			if first == j {
				first = i + p
			}
		}
		if lb == j && key(x) >= key(v) {
			lb = i + p
		}
		if ub == j && key(x) > key(v) {
			ub = i + p
		}
		if key(x)%2 == 0 {
			even++
			if firstEven == j {
				firstEven = i + p
			}
		}
	}
	switch op.K {
	case "acount":
		return []int{cnt}
	case "afind":
		return []int{first}
	case "alb":
		return []int{lb}
	case "aub":
		return []int{ub}
	case "abin":
		return b1(cnt > 0)
	case "acountif":
		return []int{even}
	case "afindif":
		return []int{firstEven}
	case "aany":
		return b1(even > 0)
	case "aall":
		return b1(even == len(w))
	case "anone":
		return b1(even == 0)
	}
	if len(w) == 0 {
		return []int{j}
	}
	b := 0
	for p := range w {
		if op.K == "amax" && key(w[p]) > key(w[b]) || op.K == "amin" && key(w[p]) < key(w[b]) {
			b = p
		}
	}
	return []int{i + b}
}

// keyScale separates the ordering key of an element from its identity.
const keyScale = 1000

// seqInst adapts one real sequence.
type seqInst struct {
	size   func() int
	fn     map[string]func(a []int, r *Res)
	reload func() // used by ops that replace the instance
}

func (o *seqInst) Exec(c *Ctx, op *Op, r *Res) {
	f := o.fn[op.K]
	if f == nil {
		panic("exec: unknown op " + op.K)
	}
	f(op.A, r)
}

// randomAccess is what vector, array, deque and slice wrapper have in common.
type randomAccess struct {
	at       func(i int) iterator.RandomAccessIterator[int]
	begin    func() iterator.RandomAccessIterator[int]
	end      func() iterator.RandomAccessIterator[int]
	first    func() iterator.RandomAccessIterator[int]
	last     func() iterator.RandomAccessIterator[int]
	size     func() int
	beginEnd bool
}

func (c *Ctx) keyCmp(a, b int) int {
	c.callback("cmp")
	a, b = a/keyScale, b/keyScale
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (c *Ctx) even(it iterator.ConstIterator[int]) bool {
	c.callback("cmp")
	return it.Value()/keyScale%2 == 0
}

// iterOps adds the operations built on random access iterators.
func iterOps(c *Ctx, o *seqInst, ra randomAccess) {
	o.fn["dump"] = func(a []int, r *Res) {
		r.V = []int{}
		end := ra.end()
		for it := ra.begin(); !it.Equal(end); it.Next() {
			if !it.IsValid() {
				r.S = "iterator invalid inside the range"
				r.V = append(r.V, -1)
				return
			}
			r.put(it.Value())
		}
		if end.IsValid() {
			r.S = "the end of the range is a valid iterator"
		}
	}
	o.fn["rdump"] = func(a []int, r *Res) {
		r.V = []int{}
		if ra.size() == 0 {
			return
		}
		for it := ra.last(); it.IsValid(); it.Prev() {
			r.put(it.Value())
		}
	}
	o.fn["iat"] = func(a []int, r *Res) {
		if n := ra.size(); n > 0 {
			it := ra.first().IteratorAt(mod(a[0], n)).Clone().(iterator.RandomAccessIterator[int])
			if it.Position() != mod(a[0], n) {
				r.put(-1)
			}
			r.put(it.Value())
		}
	}
	o.fn["iset"] = func(a []int, r *Res) {
		if n := ra.size(); n > 0 {
			ra.at(mod(a[0], n)).SetValue(a[1])
		}
	}
	o.fn["eqit"] = func(a []int, r *Res) {
		n := ra.size()
		if n == 0 {
			return
		}
		i, j := mod(a[0], n), mod(a[1], n)
		x, y := ra.at(i), ra.at(j)
		if x.Equal(y) != (i == j) || !x.Equal(x.Clone()) || x.Equal(ra.end()) || !ra.begin().Equal(ra.first()) || x.Equal(foreignIter{}) {
			r.S = "iterator equality wrong"
		}
	}
	rng := func(a []int) (int, int, iterator.RandomAccessIterator[int], iterator.RandomAccessIterator[int]) {
		i, j := span(ra.size(), a[1], a[2])
		return i, j, ra.at(i), ra.at(j)
	}
	pos := func(it iterator.ConstIterator[int]) int { return it.(iterator.RandomAccessIterator[int]).Position() }
	o.fn["acount"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(algorithm.Count[int](f, l, a[0], c.keyCmp))
	}
	o.fn["acountif"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(algorithm.CountIf[int](f, l, c.even))
	}
	o.fn["afind"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(pos(algorithm.Find[int](f, l, a[0], c.keyCmp)))
	}
	o.fn["afindif"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(pos(algorithm.FindIf[int](f, l, c.even)))
	}
	o.fn["amax"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(pos(algorithm.MaxElement[int](f, l, c.keyCmp)))
	}
	o.fn["amin"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(pos(algorithm.MinElement[int](f, l, c.keyCmp)))
	}
	o.fn["aany"] = func(a []int, r *Res) { _, _, f, l := rng(a); r.bool(algorithm.AnyOf[int](f, l, c.even)) }
	o.fn["aall"] = func(a []int, r *Res) { _, _, f, l := rng(a); r.bool(algorithm.AllOf[int](f, l, c.even)) }
	o.fn["anone"] = func(a []int, r *Res) { _, _, f, l := rng(a); r.bool(algorithm.NoneOf[int](f, l, c.even)) }
	o.fn["alb"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(algosort.LowerBound[int](f, l, a[0], c.keyCmp).Position())
	}
	o.fn["aub"] = func(a []int, r *Res) {
		_, _, f, l := rng(a)
		r.put(algosort.UpperBound[int](f, l, a[0], c.keyCmp).Position())
	}
	o.fn["abin"] = func(a []int, r *Res) { _, _, f, l := rng(a); r.bool(algosort.BinarySearch[int](f, l, a[0], c.keyCmp)) }
}

// panics reports whether f panics; a call that is being killed keeps unwinding.
func panics(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if simrt.IsKill(x) {
				panic(x)
			}
			ok = true
		}
	}()
	f()
	return
}

// foreignIter is an iterator of no container of the library.
type foreignIter struct{}

func (foreignIter) IsValid() bool                                { return false }
func (i foreignIter) Next() iterator.ConstIterator[int]          { return i }
func (foreignIter) Value() int                                   { return 0 }
func (i foreignIter) Clone() iterator.ConstIterator[int]         { return i }
func (foreignIter) Equal(other iterator.ConstIterator[int]) bool { return false }

func newVector(c *Ctx) Inst {
	v := vector.New[int](shared(c, "vector", func() []vector.Option {
		if n := c.P["cap"]; n > 0 {
			return []vector.Option{vector.WithCapacity(n)}
		}
		return nil
	})...)
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["pushb"] = func(a []int, r *Res) { v.PushBack(a[0]) }
	f["pushbn"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			v.PushBack(a[0] + i)
		}
	}
	f["popb"] = func(a []int, r *Res) { r.put(v.PopBack()) }
	f["front"] = func(a []int, r *Res) { r.put(v.Front()) }
	f["back"] = func(a []int, r *Res) { r.put(v.Back()) }
	f["size"] = func(a []int, r *Res) { r.put(v.Size()) }
	f["empty"] = func(a []int, r *Res) { r.bool(v.Empty()) }
	f["clear"] = func(a []int, r *Res) { v.Clear() }
	f["str"] = func(a []int, r *Res) { r.S = v.String() }
	f["at"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			r.put(v.At(mod(a[0], n)))
		}
	}
	f["set"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.SetAt(mod(a[0], n), a[1])
		}
	}
	f["insat"] = func(a []int, r *Res) { v.InsertAt(mod(a[0], v.Size()+1), a[1]) }
	f["iins"] = func(a []int, r *Res) {
		i := mod(a[0], v.Size()+1)
		if it := v.Insert(v.IterAt(i), a[1]); it.Position() != i {
			r.S = "bad iterator"
		}
	}
	f["ers"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.EraseAt(mod(a[0], n))
		}
	}
	f["iers"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.Erase(v.IterAt(mod(a[0], n)))
		}
	}
	f["erange"] = func(a []int, r *Res) {
		n := v.Size()
		i := mod(a[0], n+1)
		v.EraseIndexRange(i, i+mod(a[1], n+1-i))
	}
	f["ierange"] = func(a []int, r *Res) {
		n := v.Size()
		i := mod(a[0], n+1)
		v.EraseRange(v.IterAt(i), v.IterAt(i+mod(a[1], n+1-i)))
	}
	f["data"] = func(a []int, r *Res) { r.V = append([]int{}, v.Data()...) }
	// positions outside the vector change nothing
	f["oob"] = func(a []int, r *Res) {
		n := v.Size()
		v.SetAt(n+a[0], a[1])
		v.SetAt(-1-a[0], a[1])
		v.InsertAt(n+1+a[0], a[1])
		v.InsertAt(-1-a[0], a[1])
		v.EraseAt(n + a[0])
		v.EraseAt(-1 - a[0])
		v.EraseIndexRange(0, n+1+a[0])
		v.EraseIndexRange(-1-a[0], n)
		v.EraseIndexRange(1, 0)
		panics(func() { v.At(n + a[0]) })
		panics(func() { v.At(-1 - a[0]) })
		if v.Size() != n {
			r.S = "size changed"
		}
	}
	f["resize"] = func(a []int, r *Res) { v.Resize(mod(a[0], v.Size()+1)) }
	f["reserve"] = func(a []int, r *Res) {
		n := mod(a[0], 200)
		v.Reserve(n)
		if v.Capacity() < n {
			r.S = "capacity below the reservation"
		}
	}
	f["shrink"] = func(a []int, r *Res) { v.ShrinkToFit() }
	clones, twin, twinText := 0, v, v.String()
	f["clone"] = func(a []int, r *Res) {
		if clones > 0 && twin.String() != twinText {
			r.S = "a copy changed with the vector it was made from or of"
		}
		old := v
		v = vector.NewFromVector(old)
		if clones++; clones%2 == 0 {
			old, v = v, old
		}
		if clones%3 != 0 {
			if n := old.Size(); n > 0 {
				old.SetAt(n/2, -7)
				old.PushBack(-8)
				old.EraseAt(0)
			}
			old.PushBack(-9)
		}
		twin, twinText = old, old.String()
	}
	iterOps(c, o, randomAccess{
		at:    func(i int) iterator.RandomAccessIterator[int] { return v.IterAt(i) },
		begin: func() iterator.RandomAccessIterator[int] { return v.Begin() },
		end:   func() iterator.RandomAccessIterator[int] { return v.End() },
		first: func() iterator.RandomAccessIterator[int] { return v.First() },
		last:  func() iterator.RandomAccessIterator[int] { return v.Last() },
		size:  func() int { return v.Size() },
	})
	return o
}

func newArray(c *Ctx, n int) Inst {
	v := array.New[int](n)
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["front"] = func(a []int, r *Res) { r.put(v.Front()) }
	f["back"] = func(a []int, r *Res) { r.put(v.Back()) }
	f["size"] = func(a []int, r *Res) { r.put(v.Size()) }
	f["empty"] = func(a []int, r *Res) { r.bool(v.Empty()) }
	f["str"] = func(a []int, r *Res) { r.S = v.String() }
	f["at"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			r.put(v.At(mod(a[0], n)))
		}
	}
	f["set"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.Set(mod(a[0], n), a[1])
		}
	}
	f["data"] = func(a []int, r *Res) { r.V = append([]int{}, v.Data()...) }
	f["oob"] = func(a []int, r *Res) {
		n := v.Size()
		v.Set(n+a[0], a[1])
		v.Set(-1-a[0], a[1])
		panics(func() { v.At(n + a[0]) })
		panics(func() { v.At(-1 - a[0]) })
		w := array.New[int](n + 1)
		w.SwapArray(v)
		v.SwapArray(w)
		if v.Size() != n || w.Size() != n+1 || w.At(n) != 0 {
			r.S = "arrays of different sizes were swapped"
		}
	}
	f["fill"] = func(a []int, r *Res) { v.Fill(a[0]) }
	clones, twin, twinText := 0, v, v.String()
	f["clone"] = func(a []int, r *Res) {
		if clones > 0 && twin.String() != twinText {
			r.S = "a copy changed with the array it was made from or of"
		}
		old := v
		v = array.NewFromArray(old)
		if clones++; clones%2 == 0 {
			old, v = v, old
		}
		if clones%3 != 0 {
			old.Fill(-7)
		}
		twin, twinText = old, old.String()
	}
	f["swapfresh"] = func(a []int, r *Res) {
		w := array.New[int](v.Size())
		w.Fill(-5)
		w.SwapArray(v)
		if v.Size() > 0 && v.At(0) != -5 {
			r.S = "swap lost"
		}
		v.Fill(-6)
		w.SwapArray(v)
		if w.Size() > 0 && w.At(0) != -6 {
			r.S = "swap back lost"
		}
	}
	iterOps(c, o, randomAccess{
		at:    func(i int) iterator.RandomAccessIterator[int] { return v.IterAt(i) },
		begin: func() iterator.RandomAccessIterator[int] { return v.Begin() },
		end:   func() iterator.RandomAccessIterator[int] { return v.End() },
		first: func() iterator.RandomAccessIterator[int] { return v.First() },
		last:  func() iterator.RandomAccessIterator[int] { return v.Last() },
		size:  func() int { return v.Size() },
	})
	return o
}

func newSliceWrapper(c *Ctx, n int) Inst {
	v := slice.NewSliceWrapper(make([]int, n))
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["size"] = func(a []int, r *Res) { r.put(v.Len()) }
	f["at"] = func(a []int, r *Res) {
		if n := v.Len(); n > 0 {
			r.put(v.At(mod(a[0], n)))
		}
	}
	f["set"] = func(a []int, r *Res) {
		if n := v.Len(); n > 0 {
			v.Set(mod(a[0], n), a[1])
		}
	}
	f["oob"] = func(a []int, r *Res) {
		n := v.Len()
		v.Set(n+a[0], a[1])
		v.Set(-1-a[0], a[1])
		panics(func() { v.At(n + a[0]) })
		panics(func() { v.At(-1 - a[0]) })
	}
	f["attach"] = func(a []int, r *Res) { v.Attach(clone(a)) }
	iterOps(c, o, randomAccess{
		at:    func(i int) iterator.RandomAccessIterator[int] { return v.Begin().IteratorAt(i) },
		begin: func() iterator.RandomAccessIterator[int] { return v.Begin() },
		end:   func() iterator.RandomAccessIterator[int] { return v.End() },
		first: func() iterator.RandomAccessIterator[int] { return v.First() },
		last:  func() iterator.RandomAccessIterator[int] { return v.Last() },
		size:  func() int { return v.Len() },
	})
	// iterators of two wrappers at the same position are not equal
	f["eqit"] = func(a []int, r *Res) {
		w := slice.NewSliceWrapper(make([]int, v.Len()))
		if v.Begin().Equal(w.Begin()) || !v.Begin().Equal(v.Begin()) || v.Begin().Equal(foreignIter{}) {
			r.S = "iterator equality wrong"
		}
	}
	return o
}

func newDeque(c *Ctx) Inst {
	v := deque.New[int]()
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	contOps(o, v)
	f["at"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			r.put(v.At(mod(a[0], n)))
		}
	}
	f["set"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.Set(mod(a[0], n), a[1])
		}
	}
	f["insat"] = func(a []int, r *Res) { v.Insert(mod(a[0], v.Size()+1), a[1]) }
	f["oob"] = func(a []int, r *Res) {
		n := v.Size()
		v.Insert(n+1+a[0], a[1])
		v.Insert(-1-a[0], a[1])
		v.EraseAt(n + a[0])
		v.EraseAt(-1 - a[0])
		v.EraseRange(0, n+1+a[0])
		v.EraseRange(-1-a[0], n)
		v.EraseRange(1, 0)
		panics(func() { v.At(n + a[0]) })
		panics(func() { v.At(-1 - a[0]) })
		if v.Set(n+a[0], a[1]) == nil || v.Set(-1-a[0], a[1]) == nil {
			r.S = "setting a position outside the deque reports no error"
		}
	}
	// a sweep of insertions or erasures crosses every segment boundary on its way
	f["insatn"] = func(a []int, r *Res) {
		for j := 0; j < a[1]; j++ {
			v.Insert(mod(a[0]+2*j, v.Size()+1), a[2]+j)
		}
	}
	f["ersn"] = func(a []int, r *Res) {
		for j := 0; j < a[1] && !v.Empty(); j++ {
			v.EraseAt(mod(a[0]+j, v.Size()))
		}
	}
	f["ers"] = func(a []int, r *Res) {
		if n := v.Size(); n > 0 {
			v.EraseAt(mod(a[0], n))
		}
	}
	f["erange"] = func(a []int, r *Res) {
		n := v.Size()
		i := mod(a[0], n+1)
		v.EraseRange(i, i+mod(a[1], n+1-i))
	}
	iterOps(c, o, randomAccess{
		at:    func(i int) iterator.RandomAccessIterator[int] { return v.IterAt(i) },
		begin: func() iterator.RandomAccessIterator[int] { return v.Begin() },
		end:   func() iterator.RandomAccessIterator[int] { return v.End() },
		first: func() iterator.RandomAccessIterator[int] { return v.First() },
		last:  func() iterator.RandomAccessIterator[int] { return v.Last() },
		size:  func() int { return v.Size() },
	})
	return o
}

// contOps adds the operations of the container interface.
func contOps(o *seqInst, v container.Container[int]) {
	f := o.fn
	f["pushb"] = func(a []int, r *Res) { v.PushBack(a[0]) }
	f["pushf"] = func(a []int, r *Res) { v.PushFront(a[0]) }
	f["pushbn"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			v.PushBack(a[0] + i)
		}
	}
	f["pushfn"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			v.PushFront(a[0] + i)
		}
	}
	f["popfn"] = func(a []int, r *Res) {
		r.V = []int{}
		for i := 0; i < a[0] && !v.Empty(); i++ {
			r.put(v.PopFront())
		}
	}
	f["popbn"] = func(a []int, r *Res) {
		r.V = []int{}
		for i := 0; i < a[0] && !v.Empty(); i++ {
			r.put(v.PopBack())
		}
	}
	f["cyclef"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			v.PushBack(a[0] + i)
			r.put(v.PopFront())
		}
	}
	f["cycleb"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			v.PushBack(a[0] + i)
			r.put(v.PopBack())
		}
	}
	f["popf"] = func(a []int, r *Res) { r.put(v.PopFront()) }
	f["popb"] = func(a []int, r *Res) { r.put(v.PopBack()) }
	f["front"] = func(a []int, r *Res) { r.put(v.Front()) }
	f["back"] = func(a []int, r *Res) { r.put(v.Back()) }
	f["size"] = func(a []int, r *Res) { r.put(v.Size()) }
	f["empty"] = func(a []int, r *Res) { r.bool(v.Empty()) }
	f["clear"] = func(a []int, r *Res) { v.Clear() }
	f["str"] = func(a []int, r *Res) { r.S = v.String() }
}

func newBidList(c *Ctx) Inst {
	l := bidlist.New[int]()
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	contOps(o, l)
	node := func(i int) *bidlist.Node[int] {
		i = mod(i, l.Len())
		n := l.FrontNode()
		for ; i > 0; i-- {
			n = n.Next()
		}
		return n
	}
	f["dump"] = func(a []int, r *Res) {
		r.V = []int{}
		for n := l.FrontNode(); n != nil; n = n.Next() {
			r.put(n.Value)
		}
	}
	f["rdump"] = func(a []int, r *Res) {
		r.V = []int{}
		for it := bidlist.NewIterator(l.BackNode()); it.IsValid(); it.Prev() {
			r.put(it.Value())
		}
	}
	f["trav"] = func(a []int, r *Res) {
		n := 0
		r.V = []int{}
		l.Traversal(func(x int) bool { r.put(x); n++; c.callback("visit"); return n != a[0] })
	}
	f["copy"] = func(a []int, r *Res) {
		n := 0
		r.V = []int{}
		m := bidlist.New[int]()
		l.Traversal(func(x int) bool { r.put(x); m.PushBack(x); n++; c.callback("visit"); return n != a[0] })
		if m.String() != seqText(r.V) {
			r.S = "copy differs"
		}
	}
	f["insafter"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			l.InsertAfter(a[1], node(a[0]))
		}
	}
	f["insbefore"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			l.InsertBefore(a[1], node(a[0]))
		}
	}
	f["rem"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			r.put(l.Remove(node(a[0])))
		}
	}
	f["mtf"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			l.MoveToFront(node(a[0]))
		}
	}
	f["mtb"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			l.MoveToBack(node(a[0]))
		}
	}
	f["mafter"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			l.MoveAfter(node(a[0]), node(a[1]))
		}
	}
	other := func(a []int) *bidlist.List[int] {
		m := bidlist.New[int]()
		for _, x := range a {
			m.PushBack(x)
		}
		return m
	}
	// some of the lists given are kept, and must stay as they are
	var kept *bidlist.List[int]
	var keptText string
	lists := 0
	keep := func(m *bidlist.List[int], a []int, r *Res, change func()) {
		if kept != nil && kept.String() != keptText {
			r.S = "a list appended or prepended earlier changed"
		}
		if lists++; lists%2 == 1 {
			change()
			return
		}
		kept, keptText = m, seqText(a)
	}
	f["pblist"] = func(a []int, r *Res) {
		m := other(a)
		l.PushBackList(m)
		if m.String() != seqText(a) {
			r.S = "the appended list changed"
		}
		keep(m, a, r, func() { m.Clear() })
	}
	f["pflist"] = func(a []int, r *Res) {
		m := other(a)
		l.PushFrontList(m)
		if m.String() != seqText(a) {
			r.S = "the prepended list changed"
		}
		keep(m, a, r, func() {
			for !m.Empty() {
				m.PopBack()
			}
		})
	}
	f["pbself"] = func(a []int, r *Res) { l.PushBackList(l) }
	f["pfself"] = func(a []int, r *Res) { l.PushFrontList(l) }
	f["iset"] = func(a []int, r *Res) {
		if l.Len() > 0 {
			bidlist.NewIterator(node(a[0])).SetValue(a[1])
		}
	}
	f["eqit"] = func(a []int, r *Res) {
		end := bidlist.NewIterator[int](nil)
		end.SetValue(1)
		if l.Len() == 0 {
			return
		}
		x, y := bidlist.NewIterator(node(a[0])), bidlist.NewIterator(node(a[1]))
		if x.Equal(y) != (mod(a[0], l.Len()) == mod(a[1], l.Len())) || !x.Equal(x.Clone()) || x.Equal(end) || x.Equal(foreignIter{}) {
			r.S = "iterator equality wrong"
		}
	}
	// nodes of another list, and a node that left this one, leave the list alone
	f["foreign"] = func(a []int, r *Res) {
		m := bidlist.New[int]()
		m.PushBack(a[0])
		m.PushFront(a[1])
		m.PushBack(a[0] + 1)
		was := m.String()
		try := func(l *bidlist.List[int], x, own *bidlist.Node[int]) {
			v := x.Value
			if l.InsertAfter(1, x) != nil || l.InsertBefore(1, x) != nil || l.Remove(x) != v {
				r.S = "a foreign node was accepted"
			}
			l.MoveToFront(x)
			l.MoveToBack(x)
			if own != nil {
				l.MoveAfter(x, own)
				l.MoveAfter(own, x)
			}
		}
		for x := m.FrontNode(); x != nil; x = x.Next() {
			try(l, x, l.FrontNode())
		}
		for x := l.FrontNode(); x != nil; x = x.Next() {
			try(m, x, m.BackNode())
		}
		if m.String() != was || m.Len() != 3 {
			r.S = "the other list changed"
		}
		x := m.FrontNode().Next()
		m.Remove(x)
		try(m, x, m.FrontNode())
		try(l, x, l.BackNode())
		if m.Len() != 2 || m.FrontNode().Next() != m.BackNode() || m.BackNode().Prev() != m.FrontNode() || m.BackNode().Next() != nil || m.FrontNode().Prev() != nil {
			r.S = "the other list is damaged"
		}
	}
	lcount(c, f, func() (iterator.ConstIterator[int], iterator.ConstIterator[int]) {
		return bidlist.NewIterator(l.FrontNode()), bidlist.NewIterator[int](nil)
	})
	return o
}

// lcount adds the scanning algorithms on forward iterators.
func lcount(c *Ctx, f map[string]func([]int, *Res), rng func() (iterator.ConstIterator[int], iterator.ConstIterator[int])) {
	f["lcount"] = func(a []int, r *Res) {
		x, y := rng()
		r.put(algorithm.Count[int](x, y, a[0], c.keyCmp))
	}
	f["lfind"] = func(a []int, r *Res) {
		x, y := rng()
		it := algorithm.Find[int](x, y, a[0], c.keyCmp)
		p := 0
		for z := x.Clone(); !z.Equal(it); z.Next() {
			p++
		}
		r.put(p)
	}
}

func newSimpleList(c *Ctx) Inst {
	l := simplelist.New[int]()
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	node := func(i int) (pre, n *simplelist.Node[int]) {
		n = l.FrontNode()
		for ; i > 0; i-- {
			pre, n = n, n.Next()
		}
		return
	}
	f["pushb"] = func(a []int, r *Res) { l.PushBack(a[0]) }
	f["pushf"] = func(a []int, r *Res) { l.PushFront(a[0]) }
	f["size"] = func(a []int, r *Res) { r.put(l.Len()) }
	f["str"] = func(a []int, r *Res) { r.S = l.String() }
	f["dump"] = func(a []int, r *Res) {
		r.V = []int{}
		for it := simplelist.NewIterator(l.FrontNode()); it.IsValid(); it.Next() {
			r.put(it.Value())
		}
		if b := l.BackNode(); b != nil && (len(r.V) == 0 || b.Value != r.V[len(r.V)-1]) || b == nil && len(r.V) > 0 {
			r.put(-1)
		}
	}
	f["trav"] = func(a []int, r *Res) {
		n := 0
		r.V = []int{}
		l.Traversal(func(x int) bool { r.put(x); n++; c.callback("visit"); return n != a[0] })
	}
	f["copy"] = func(a []int, r *Res) {
		n := 0
		r.V = []int{}
		m := simplelist.New[int]()
		l.Traversal(func(x int) bool { r.put(x); m.PushBack(x); n++; c.callback("visit"); return n != a[0] })
		if m.String() != seqText(r.V) {
			r.S = "copy differs"
		}
	}
	f["insafter"] = func(a []int, r *Res) {
		if n := l.Len(); n > 0 {
			_, x := node(mod(a[0], n))
			l.InsertAfter(a[1], x)
		}
	}
	f["rem"] = func(a []int, r *Res) {
		if n := l.Len(); n > 0 {
			r.put(l.Remove(node(mod(a[0], n))))
		}
	}
	f["mtf"] = func(a []int, r *Res) {
		if n := l.Len(); n > 0 {
			l.MoveToFront(node(mod(a[0], n)))
		}
	}
	f["mtb"] = func(a []int, r *Res) {
		if n := l.Len(); n > 0 {
			l.MoveToBack(node(mod(a[0], n)))
		}
	}
	f["iset"] = func(a []int, r *Res) {
		if n := l.Len(); n > 0 {
			_, x := node(mod(a[0], n))
			it := simplelist.NewIterator(x)
			it.SetValue(a[1])
			if it.Value() != a[1] {
				r.S = "value not set"
			}
		}
	}
	f["eqit"] = func(a []int, r *Res) {
		end := simplelist.NewIterator[int](nil)
		end.SetValue(1)
		if l.Len() == 0 {
			return
		}
		_, p := node(mod(a[0], l.Len()))
		_, q := node(mod(a[1], l.Len()))
		x, y := simplelist.NewIterator(p), simplelist.NewIterator(q)
		if x.Equal(y) != (p == q) || !x.Equal(x.Clone()) || x.Equal(end) || x.Equal(foreignIter{}) {
			r.S = "iterator equality wrong"
		}
	}
	lcount(c, f, func() (iterator.ConstIterator[int], iterator.ConstIterator[int]) {
		return simplelist.NewIterator(l.FrontNode()), simplelist.NewIterator[int](nil)
	})
	return o
}

// item is the element of a queue or stack that stands for a code.
func item(v int) any {
	if v == 0 || v%8 == 6 {
		return boxed(v)
	}
	return v
}

func itemText(a []int) string {
	b := make([]any, len(a))
	for i, x := range a {
		b[i] = item(x)
	}
	return fmt.Sprint(b)
}

// callerCont is a container supplied by the caller of queue and stack. It has
// no protection of its own and fails when the simulator says so.
type callerCont struct {
	c *Ctx
	a []int
}

const contSite = 1<<32 - 2

func (k *callerCont) load() []int {
	k.c.callback("cont")
	return simrt.RdV(&k.a, contSite)
}
func (k *callerCont) store(a []int) {
	*simrt.Wr(&k.a, contSite) = a
	k.c.callback("cont")
}
func (k *callerCont) PushBack(v any)  { a := k.load(); k.store(with(a, len(a), unboxed(v))) }
func (k *callerCont) PushFront(v any) { a := k.load(); k.store(with(a, 0, unboxed(v))) }
func (k *callerCont) Front() any {
	a := k.load()
	if len(a) == 0 {
		panic("container is empty")
	}
	return item(a[0])
}
func (k *callerCont) Back() any {
	a := k.load()
	if len(a) == 0 {
		panic("container is empty")
	}
	return item(a[len(a)-1])
}
func (k *callerCont) PopFront() any {
	a := k.load()
	if len(a) == 0 {
		panic("container is empty")
	}
	k.store(clone(a[1:]))
	return item(a[0])
}
func (k *callerCont) PopBack() any {
	a := k.load()
	if len(a) == 0 {
		panic("container is empty")
	}
	k.store(clone(a[:len(a)-1]))
	return item(a[len(a)-1])
}
func (k *callerCont) Empty() bool    { return len(k.load()) == 0 }
func (k *callerCont) Size() int      { return len(k.load()) }
func (k *callerCont) String() string { return itemText(k.load()) }
func (k *callerCont) Clear()         { k.load(); k.store(nil) }

// contPre is what a container supplied by the caller holds already.
func contPre(c *Ctx) (out []int) {
	if c.P["cont"] >= 2 {
		for i := 0; i < c.P["contpre"]; i++ {
			out = append(out, 70000000+i)
		}
	}
	return
}

func newQueue(c *Ctx) Inst {
	opts := shared(c, "queue", func() []queue.Option[any] {
		var o []queue.Option[any]
		if c.P["cont"] == 1 {
			o = append(o, queue.WithListContainer[any]())
		}
		if c.P["safe"] == 1 {
			o = append(o, queue.WithGoroutineSafe[any]())
		}
		return inOrder(c, o)
	})
	var own container.Container[any] // supplied by the caller
	switch c.P["cont"] {
	case 2:
		own = deque.New[any]()
		opts = inOrder(c, append(inOrder(c, opts), queue.WithContainer[any](own)))
	case 3:
		own = bidlist.New[any]()
		opts = inOrder(c, append(inOrder(c, opts), queue.WithContainer[any](own)))
	case 4:
		own = &callerCont{c: c}
		opts = inOrder(c, append(inOrder(c, opts), queue.WithContainer[any](own)))
	}
	for _, x := range contPre(c) {
		own.PushBack(item(x))
	}
	q := queue.New[any](opts...)
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["pushb"] = func(a []int, r *Res) { q.Push(item(a[0])) }
	f["pushbn"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			q.Push(item(a[0] + i))
		}
	}
	f["popfn"] = func(a []int, r *Res) {
		r.V = []int{}
		for i := 0; i < a[0] && !q.Empty(); i++ {
			r.put(unboxed(q.Pop()))
		}
	}
	f["cyclef"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			q.Push(item(a[0] + i))
			r.put(unboxed(q.Pop()))
		}
	}
	f["popf"] = func(a []int, r *Res) { r.put(unboxed(q.Pop())) }
	f["front"] = func(a []int, r *Res) { r.put(unboxed(q.Front())) }
	f["back"] = func(a []int, r *Res) { r.put(unboxed(q.Back())) }
	f["size"] = func(a []int, r *Res) { r.put(q.Size()) }
	f["empty"] = func(a []int, r *Res) { r.bool(q.Empty()) }
	f["clear"] = func(a []int, r *Res) { q.Clear() }
	f["str"] = func(a []int, r *Res) { r.S = q.String() }
	f["cont"] = func(a []int, r *Res) { r.S = own.String() }
	return o
}

func newStack(c *Ctx) Inst {
	opts := shared(c, "stack", func() []stack.Option[any] {
		var o []stack.Option[any]
		if c.P["cont"] == 1 {
			o = append(o, stack.WithListContainer[any]())
		}
		if c.P["safe"] == 1 {
			o = append(o, stack.WithGoroutineSafe[any]())
		}
		return inOrder(c, o)
	})
	var own container.Container[any] // supplied by the caller
	switch c.P["cont"] {
	case 2:
		own = deque.New[any]()
		opts = inOrder(c, append(inOrder(c, opts), stack.WithContainer[any](own)))
	case 3:
		own = bidlist.New[any]()
		opts = inOrder(c, append(inOrder(c, opts), stack.WithContainer[any](own)))
	case 4:
		own = &callerCont{c: c}
		opts = inOrder(c, append(inOrder(c, opts), stack.WithContainer[any](own)))
	}
	for _, x := range contPre(c) {
		own.PushBack(item(x))
	}
	q := stack.New[any](opts...)
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["pushb"] = func(a []int, r *Res) { q.Push(item(a[0])) }
	f["pushbn"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			q.Push(item(a[0] + i))
		}
	}
	f["popbn"] = func(a []int, r *Res) {
		r.V = []int{}
		for i := 0; i < a[0] && !q.Empty(); i++ {
			r.put(unboxed(q.Pop()))
		}
	}
	f["cycleb"] = func(a []int, r *Res) {
		for i := 0; i < a[1]; i++ {
			q.Push(item(a[0] + i))
			r.put(unboxed(q.Pop()))
		}
	}
	f["popb"] = func(a []int, r *Res) { r.put(unboxed(q.Pop())) }
	f["back"] = func(a []int, r *Res) { r.put(unboxed(q.Top())) }
	f["size"] = func(a []int, r *Res) { r.put(q.Size()) }
	f["empty"] = func(a []int, r *Res) { r.bool(q.Empty()) }
	f["clear"] = func(a []int, r *Res) { q.Clear() }
	f["str"] = func(a []int, r *Res) { r.S = q.String() }
	f["cont"] = func(a []int, r *Res) { r.S = own.String() }
	return o
}

// bitmap

type bitState struct {
	b string // one byte per bit
	h uint64
}

func (s *bitState) Hash() uint64 {
	h := uint64(7)
	for i := 0; i < len(s.b); i++ {
		h = (h ^ uint64(s.b[i])) * 0x100000001b3
	}
	return h
}
func (s *bitState) String() string { return fmt.Sprintf("%d bits", len(s.b)) }

func (s *bitState) Step(op *Op, r *Res) []State {
	if r.P != Normal {
		return nil
	}
	n := len(s.b)
	put := func(i int, v byte) []State {
		b := []byte(s.b)
		b[i] = v
		return one(&bitState{b: string(b)})
	}
	switch op.K {
	case "bset", "bunset":
		i := op.A[0]
		if !eq(r.V, b1(i < n)) {
			return nil
		}
		if i >= n {
			return one(s)
		}
		if op.K == "bset" {
			return put(i, 1)
		}
		return put(i, 0)
	case "bget":
		return same(s, eq(r.V, b1(op.A[0] < n && s.b[op.A[0]] == 1)))
	case "size":
		return same(s, eq(r.V, []int{n}))
	case "clear":
		return one(&bitState{b: strings.Repeat("\x00", n)})
	case "bresize":
		m := (op.A[0] + 7) / 8 * 8
		if m <= n {
			return one(&bitState{b: s.b[:m]})
		}
		return one(&bitState{b: s.b + strings.Repeat("\x00", m-n)})
	case "dump", "brestore", "bproc":
		if len(r.V) != n || r.S != "" {
			return nil
		}
		for i := range r.V {
			if r.V[i] != int(s.b[i]) {
				return nil
			}
		}
		return one(s)
	}
	panic("model: unknown op " + op.K)
}

func newBitmap(c *Ctx, n int) Inst {
	b := bitmap.New(uint64(n))
	o := &seqInst{fn: map[string]func([]int, *Res){}}
	f := o.fn
	f["bset"] = func(a []int, r *Res) { r.bool(b.Set(uint64(a[0]))) }
	f["bunset"] = func(a []int, r *Res) { r.bool(b.Unset(uint64(a[0]))) }
	f["bget"] = func(a []int, r *Res) { r.bool(b.IsSet(uint64(a[0]))) }
	f["size"] = func(a []int, r *Res) { r.put(int(b.Size())) }
	f["clear"] = func(a []int, r *Res) { b.Clear() }
	f["bresize"] = func(a []int, r *Res) { b.Resize(uint64(a[0])) }
	f["dump"] = func(a []int, r *Res) {
		r.V = []int{}
		for i := uint64(0); i < b.Size(); i++ {
			r.bool(b.IsSet(i))
		}
	}
	// export, rebuild from a copy, scribble over the original
	f["brestore"] = func(a []int, r *Res) {
		data := append([]byte{}, b.Data()...)
		old := b
		b = bitmap.NewFromData(data)
		if old.Size() != b.Size() {
			r.S = "size changed"
		}
		old.Clear()
		old.Set(0)
		old.Resize(8)
		f["dump"](a, r)
	}
	// the process exports the bitmap, ends, and a new one continues from the bytes
	f["bproc"] = func(a []int, r *Res) {
		data := append([]byte{}, b.Data()...)
		c.restart()
		b = bitmap.NewFromData(data)
		f["dump"](a, r)
	}
	return o
}
