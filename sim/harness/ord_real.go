package main

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/ds/hamt"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

type ordIter struct {
	valid      func() bool
	next, prev func()
	kv         func() (int, int)
}

// ordInst adapts one real keyed structure to integer codes.
type ordInst struct {
	ins               func(k, v int)
	get               func(k int) (int, bool)
	del               func(k int) bool
	delit             func(k int)
	iset              func(k, v int) string
	eqit              func(k int) ([]int, string)
	delall            func(k int)
	has               func(k int) bool
	size              func() int
	empty             func() bool
	clear             func()
	find, lb, ub      func(k int) ordIter
	first, last, begn func() ordIter
	trav              func(f func(k, v int) bool)
	keys              func() []int
	str               func() string
	count             func(k int) int
	tree              func() (known, valid bool)
	fresh             func() *ordInst
	alg               func(which string, o *ordInst) *ordInst
	scan              func(which string, k, v int) int
	raw               any
}

// sameIter judges the equality of iterators: of the lower and upper bound of a
// key, of first and begin, of a clone; an iterator of nothing equals none.
func sameIter[V any, I iterator.ConstIterator[V]](lb, ub, first, begin I) (v []int, s string) {
	v = []int{b2i(lb.Equal(ub)), b2i(first.IsValid())}
	if !first.Equal(begin) || !lb.Equal(lb.Clone()) || lb.Equal(alienIter[V]{}) || ub.Equal(lb) != lb.Equal(ub) {
		s = "iterator equality wrong"
	}
	return
}

type alienIter[V any] struct{}

func (alienIter[V]) IsValid() bool                          { return false }
func (i alienIter[V]) Next() iterator.ConstIterator[V]      { return i }
func (alienIter[V]) Value() (v V)                           { return }
func (i alienIter[V]) Clone() iterator.ConstIterator[V]     { return i }
func (alienIter[V]) Equal(o iterator.ConstIterator[V]) bool { return false }

// ordReal is a real structure with its model specification.
type ordReal struct {
	in *ordInst
	sp *ordSpec
}

// boxed makes the stored value of a value code: nil, numbers, pointers, and slices,
// which == cannot compare.
func boxed(v int) any {
	switch {
	case v == 0:
		return nil
	case v%8 == 3:
		return &v
	case v%8 == 6:
		return []int{v}
	}
	return v
}

func unboxed(v any) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	case *int:
		return *x
	case []int:
		return x[0]
	}
	return -7777
}

func boxedCmp(a, b any) int { return comparator.IntComparator(unboxed(a), unboxed(b)) }

func wrapCmp[K any](c *Ctx, cd codec[K], rev bool) comparator.Comparator[K] {
	base := cd.cmp
	if rev {
		base = comparator.Reverse(base)
	}
	return func(a, b K) int {
		c.callback("cmp")
		return base(a, b)
	}
}

// scan runs one of the scanning algorithms over everything from begin on; for
// "ifind" the answer is the position, for "imax" and "imin" the element, -1 if none.
func scan[T any](which string, begin iterator.ConstIterator[T], x T, cmp comparator.Comparator[T], from func(T) int) int {
	end := begin.Clone()
	for end.IsValid() {
		end.Next()
	}
	switch which {
	case "icount":
		return algorithm.Count(begin, end, x, cmp)
	case "ifind":
		p := 0
		for it := algorithm.Find(begin, end, x, cmp); !begin.Equal(it); begin.Next() {
			p++
		}
		return p
	}
	it := end
	if which == "imax" {
		it = algorithm.MaxElement(begin, end, cmp)
	} else {
		it = algorithm.MinElement(begin, end, cmp)
	}
	if !it.IsValid() {
		return -1
	}
	return from(it.Value())
}

// findTree looks for the red-black tree inside a structure, wherever it keeps it.
func findTree(p any) interface{ IsRbTree() (bool, error) } {
	v := reflect.ValueOf(p)
	if t, ok := p.(interface{ IsRbTree() (bool, error) }); ok {
		return t
	}
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer && !f.IsNil() {
			x := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
			if t, ok := x.(interface{ IsRbTree() (bool, error) }); ok {
				return t
			}
		}
	}
	return nil
}

func treeCheck(p any) func() (bool, bool) {
	return func() (bool, bool) {
		t := findTree(p)
		if t == nil {
			return false, false
		}
		ok, _ := t.IsRbTree()
		return true, ok
	}
}

func newMap[K any](c *Ctx, cd codec[K], rev bool, opts []treemap.Option) *ordInst {
	m := treemap.New[K, any](wrapCmp(c, cd, rev), opts...)
	it := func(i *treemap.MapIterator[K, any]) ordIter {
		return ordIter{i.IsValid, func() { i.Next() }, func() { i.Prev() }, func() (int, int) { return cd.from(i.Key()), unboxed(i.Value()) }}
	}
	o := &ordInst{raw: m}
	o.ins = func(k, v int) { m.Insert(cd.to(k), boxed(v)) }
	o.get = func(k int) (int, bool) { v, err := m.Get(cd.to(k)); return unboxed(v), err == nil }
	o.del = func(k int) bool { m.Erase(cd.to(k)); return false }
	o.delit = func(k int) {
		if i := m.Find(cd.to(k)); i.IsValid() {
			m.EraseIter(i)
		}
	}
	o.has = func(k int) bool { return m.Contains(cd.to(k)) }
	o.size, o.clear = m.Size, m.Clear
	o.find = func(k int) ordIter { return it(m.Find(cd.to(k))) }
	o.lb = func(k int) ordIter { return it(m.LowerBound(cd.to(k))) }
	o.ub = func(k int) ordIter { return it(m.UpperBound(cd.to(k))) }
	o.first = func() ordIter { return it(m.First()) }
	o.last = func() ordIter { return it(m.Last()) }
	o.begn = func() ordIter { return it(m.Begin()) }
	o.trav = func(f func(k, v int) bool) { m.Traversal(func(k K, v any) bool { return f(cd.from(k), unboxed(v)) }) }
	o.scan = func(which string, k, v int) int {
		return scan[any](which, m.Begin(), boxed(v), boxedCmp, unboxed)
	}
	o.tree = treeCheck(m)
	o.iset = func(k, v int) string {
		if i := m.Find(cd.to(k)); i.IsValid() {
			i.SetValue(boxed(v))
			if unboxed(i.Value()) != v {
				return "value not set"
			}
		}
		return ""
	}
	o.eqit = func(k int) ([]int, string) {
		return sameIter[any](m.LowerBound(cd.to(k)), m.UpperBound(cd.to(k)), m.First(), m.Begin())
	}
	o.fresh = func() *ordInst { return newMap(c, cd, rev, opts) }
	return o
}

func newMultiMap[K any](c *Ctx, cd codec[K], rev bool, opts []treemap.Option) *ordInst {
	m := treemap.NewMultiMap[K, any](wrapCmp(c, cd, rev), opts...)
	it := func(i *treemap.MapIterator[K, any]) ordIter {
		return ordIter{i.IsValid, func() { i.Next() }, func() { i.Prev() }, func() (int, int) { return cd.from(i.Key()), unboxed(i.Value()) }}
	}
	o := &ordInst{raw: m}
	o.ins = func(k, v int) { m.Insert(cd.to(k), boxed(v)) }
	o.get = func(k int) (int, bool) { v, err := m.Get(cd.to(k)); return unboxed(v), err == nil }
	o.del = func(k int) bool { m.Erase(cd.to(k)); return false }
	o.has = func(k int) bool { return m.Contains(cd.to(k)) }
	o.size, o.clear = m.Size, m.Clear
	o.find = func(k int) ordIter { return it(m.Find(cd.to(k))) }
	o.lb = func(k int) ordIter { return it(m.LowerBound(cd.to(k))) }
	o.ub = func(k int) ordIter { return it(m.UpperBound(cd.to(k))) }
	o.first = func() ordIter { return it(m.First()) }
	o.last = func() ordIter { return it(m.Last()) }
	o.begn = func() ordIter { return it(m.Begin()) }
	o.trav = func(f func(k, v int) bool) { m.Traversal(func(k K, v any) bool { return f(cd.from(k), unboxed(v)) }) }
	o.scan = func(which string, k, v int) int {
		return scan[any](which, m.Begin(), boxed(v), boxedCmp, unboxed)
	}
	o.tree = treeCheck(m)
	o.iset = func(k, v int) string {
		if i := m.Find(cd.to(k)); i.IsValid() {
			i.SetValue(boxed(v))
			if unboxed(i.Value()) != v {
				return "value not set"
			}
		}
		return ""
	}
	o.eqit = func(k int) ([]int, string) {
		return sameIter[any](m.LowerBound(cd.to(k)), m.UpperBound(cd.to(k)), m.First(), m.Begin())
	}
	o.fresh = func() *ordInst { return newMultiMap(c, cd, rev, opts) }
	return o
}

func wrapSet[K any](c *Ctx, cd codec[K], rev bool, s *set.Set[K]) *ordInst {
	it := func(i *set.SetIterator[K]) ordIter {
		return ordIter{i.IsValid, func() { i.Next() }, func() { i.Prev() }, func() (int, int) { return cd.from(i.Value()), 0 }}
	}
	o := &ordInst{raw: s}
	o.ins = func(k, v int) { s.Insert(cd.to(k)) }
	o.del = func(k int) bool { s.Erase(cd.to(k)); return false }
	o.has = func(k int) bool { return s.Contains(cd.to(k)) }
	o.size, o.clear, o.str = s.Size, s.Clear, s.String
	o.find = func(k int) ordIter { return it(s.Find(cd.to(k))) }
	o.lb = func(k int) ordIter { return it(s.LowerBound(cd.to(k))) }
	o.ub = func(k int) ordIter { return it(s.UpperBound(cd.to(k))) }
	o.first = func() ordIter { return it(s.First()) }
	o.last = func() ordIter { return it(s.Last()) }
	o.begn = func() ordIter { return it(s.Begin()) }
	o.trav = func(f func(k, v int) bool) { s.Traversal(func(k K) bool { return f(cd.from(k), 0) }) }
	o.scan = func(which string, k, v int) int {
		return scan[K](which, s.Begin(), cd.to(k), wrapCmp(c, cd, rev), cd.from)
	}
	o.tree = treeCheck(s)
	o.eqit = func(k int) ([]int, string) {
		return sameIter[K](s.LowerBound(cd.to(k)), s.UpperBound(cd.to(k)), s.First(), s.Begin())
	}
	o.alg = func(which string, other *ordInst) *ordInst {
		x := other.raw.(*set.Set[K])
		var r *set.Set[K]
		switch which {
		case "union":
			r = s.Union(x)
		case "inter":
			r = s.Intersect(x)
		default:
			r = s.Diff(x)
		}
		return wrapSet(c, cd, rev, r)
	}
	return o
}

func newSet[K any](c *Ctx, cd codec[K], rev bool, opts []set.Option) *ordInst {
	o := wrapSet(c, cd, rev, set.New[K](wrapCmp(c, cd, rev), opts...))
	o.fresh = func() *ordInst { return newSet(c, cd, rev, opts) }
	return o
}

func newMultiSet[K any](c *Ctx, cd codec[K], rev bool, opts []set.Option) *ordInst {
	s := set.NewMultiSet[K](wrapCmp(c, cd, rev), opts...)
	it := func(i *set.SetIterator[K]) ordIter {
		return ordIter{i.IsValid, func() { i.Next() }, func() { i.Prev() }, func() (int, int) { return cd.from(i.Value()), 0 }}
	}
	o := &ordInst{raw: s}
	o.ins = func(k, v int) { s.Insert(cd.to(k)) }
	o.del = func(k int) bool { s.Erase(cd.to(k)); return false }
	o.delall = func(k int) { s.EraseAll(cd.to(k)) }
	o.count = func(k int) int { return s.Count(cd.to(k)) }
	o.has = func(k int) bool { return s.Contains(cd.to(k)) }
	o.size, o.clear, o.str = s.Size, s.Clear, s.String
	o.find = func(k int) ordIter { return it(s.Find(cd.to(k))) }
	o.lb = func(k int) ordIter { return it(s.LowerBound(cd.to(k))) }
	o.ub = func(k int) ordIter { return it(s.UpperBound(cd.to(k))) }
	o.first = func() ordIter { return it(s.First()) }
	o.last = func() ordIter { return it(s.Last()) }
	o.begn = func() ordIter { return it(s.Begin()) }
	o.trav = func(f func(k, v int) bool) { s.Traversal(func(k K) bool { return f(cd.from(k), 0) }) }
	o.scan = func(which string, k, v int) int {
		return scan[K](which, s.Begin(), cd.to(k), wrapCmp(c, cd, rev), cd.from)
	}
	o.tree = treeCheck(s)
	o.eqit = func(k int) ([]int, string) {
		return sameIter[K](s.LowerBound(cd.to(k)), s.UpperBound(cd.to(k)), s.First(), s.Begin())
	}
	o.fresh = func() *ordInst { return newMultiSet(c, cd, rev, opts) }
	return o
}

func newSkiplist[K any](c *Ctx, cd codec[K], rev bool, opts []skiplist.Option) *ordInst {
	s := skiplist.New[K, any](wrapCmp(c, cd, rev), opts...)
	o := &ordInst{raw: s}
	o.ins = func(k, v int) { s.Insert(cd.to(k), boxed(v)) }
	o.get = func(k int) (int, bool) { v, err := s.Get(cd.to(k)); return unboxed(v), err == nil }
	o.del = func(k int) bool { return s.Remove(cd.to(k)) }
	o.size = s.Len
	o.trav = func(f func(k, v int) bool) { s.Traversal(func(k K, v any) bool { return f(cd.from(k), unboxed(v)) }) }
	o.keys = func() []int {
		var out []int
		for _, k := range s.Keys() {
			out = append(out, cd.from(k))
		}
		return out
	}
	o.fresh = func() *ordInst { return newSkiplist(c, cd, rev, opts) }
	return o
}

func newRbTree[K any](c *Ctx, cd codec[K], rev bool) *ordInst {
	t := rbtree.New[K, any](wrapCmp(c, cd, rev))
	it := func(i *rbtree.RbTreeIterator[K, any]) ordIter {
		return ordIter{i.IsValid, func() { i.Next() }, func() { i.Prev() }, func() (int, int) { return cd.from(i.Key()), unboxed(i.Value()) }}
	}
	nit := func(n *rbtree.Node[K, any]) ordIter {
		return ordIter{func() bool { return n != nil }, func() { n = n.Next() }, func() { n = n.Prev() }, func() (int, int) { return cd.from(n.Key()), unboxed(n.Value()) }}
	}
	o := &ordInst{raw: t}
	o.ins = func(k, v int) { t.Insert(cd.to(k), boxed(v)) }
	o.get = func(k int) (int, bool) { v, err := t.Find(cd.to(k)); return unboxed(v), err == nil }
	o.del = func(k int) bool { t.Delete(t.FindNode(cd.to(k))); return false }
	o.has = func(k int) bool { return t.FindNode(cd.to(k)) != nil }
	o.size, o.clear, o.empty = t.Size, t.Clear, t.Empty
	o.find = func(k int) ordIter { return nit(t.FindNode(cd.to(k))) }
	o.lb = func(k int) ordIter { return it(rbtree.NewIterator(t.FindLowerBoundNode(cd.to(k)))) }
	o.ub = func(k int) ordIter { return it(rbtree.NewIterator(t.FindUpperBoundNode(cd.to(k)))) }
	o.first = func() ordIter { return it(t.IterFirst()) }
	o.last = func() ordIter {
		if t.Size()%2 == 0 {
			return it(t.IterLast())
		}
		return nit(t.RBegin())
	}
	o.begn = func() ordIter { return nit(t.Begin()) }
	o.trav = func(f func(k, v int) bool) { t.Traversal(func(k K, v any) bool { return f(cd.from(k), unboxed(v)) }) }
	o.tree = treeCheck(t)
	o.iset = func(k, v int) string {
		if n := t.FindNode(cd.to(k)); n != nil {
			i := rbtree.NewIterator(n)
			if err := i.SetValue(boxed(v)); err != nil || unboxed(i.Value()) != v || unboxed(n.Value()) != v {
				return "value not set"
			}
		}
		return ""
	}
	o.eqit = func(k int) ([]int, string) {
		return sameIter[any](rbtree.NewIterator(t.FindLowerBoundNode(cd.to(k))), rbtree.NewIterator(t.FindUpperBoundNode(cd.to(k))), t.IterFirst(), rbtree.NewIterator(t.Begin()))
	}
	o.fresh = func() *ordInst { return newRbTree(c, cd, rev) }
	return o
}

// hash trie

func hamtKey(c int) hamt.Key {
	switch {
	case c == 0:
		return hamt.Key("")
	case c%3 == 0:
		return hamt.Key{byte(c), byte(c >> 8), byte(c >> 16), 0}
	}
	return hamt.Key(strKey(c))
}

func hamtCode(k []byte) int {
	if len(k) == 4 {
		return int(k[0]) | int(k[1])<<8 | int(k[2])<<16
	}
	return strCode(string(k))
}

func newHamt(c *Ctx, opts []hamt.Option) *ordInst {
	h := hamt.New[any](opts...)
	o := &ordInst{raw: h}
	o.ins = func(k, v int) { h.Insert(hamtKey(k), boxed(v)) }
	o.get = func(k int) (int, bool) { v, err := h.Get(hamtKey(k)); return unboxed(v), err == nil }
	o.del = func(k int) bool { return h.Erase(hamtKey(k)) }
	o.trav = func(f func(k, v int) bool) {
		h.Traversal(func(k hamt.Key, v any) bool { return f(hamtCode(k), unboxed(v)) })
	}
	o.keys = func() []int {
		out := []int{}
		for _, k := range h.Keys() {
			out = append(out, hamtCode(k))
		}
		return out
	}
	o.str = nil
	o.begn = nil
	o.fresh = func() *ordInst { return newHamt(c, opts) }
	return o
}

func hamtStringKeys(o *ordInst) []int {
	out := []int{}
	for _, k := range o.raw.(*hamt.Hamt[any]).StringKeys() {
		out = append(out, hamtCode([]byte(k)))
	}
	return out
}

// makeOrd builds the structure named by kind with the parameters of the run.
func makeOrd(c *Ctx, kind string) ordReal {
	rev := c.P["rev"] == 1
	safe := c.P["safe"] == 1
	if kind == "hamt" {
		opts := shared(c, "hamt", func() []hamt.Option {
			if safe {
				return []hamt.Option{hamt.WithGoroutineSafe()}
			}
			return nil
		})
		return ordReal{newHamt(c, opts), &ordSpec{vals: true, unordered: true, delRet: true, show: strKey}}
	}
	m := keyMaker{
		i:       func(cd codec[int]) ordReal { return build(c, kind, cd, rev, safe) },
		str:     func(cd codec[string]) ordReal { return build(c, kind, cd, rev, safe) },
		f64:     func(cd codec[float64]) ordReal { return build(c, kind, cd, rev, safe) },
		f32:     func(cd codec[float32]) ordReal { return build(c, kind, cd, rev, safe) },
		c128:    func(cd codec[complex128]) ordReal { return build(c, kind, cd, rev, safe) },
		c64:     func(cd codec[complex64]) ordReal { return build(c, kind, cd, rev, safe) },
		boolean: func(cd codec[bool]) ordReal { return build(c, kind, cd, rev, safe) },
		i8:      func(cd codec[int8]) ordReal { return build(c, kind, cd, rev, safe) },
		u8:      func(cd codec[uint8]) ordReal { return build(c, kind, cd, rev, safe) },
		u64:     func(cd codec[uint64]) ordReal { return build(c, kind, cd, rev, safe) },
		i16:     func(cd codec[int16]) ordReal { return build(c, kind, cd, rev, safe) },
		u16:     func(cd codec[uint16]) ordReal { return build(c, kind, cd, rev, safe) },
		i32:     func(cd codec[int32]) ordReal { return build(c, kind, cd, rev, safe) },
		u32:     func(cd codec[uint32]) ordReal { return build(c, kind, cd, rev, safe) },
		i64:     func(cd codec[int64]) ordReal { return build(c, kind, cd, rev, safe) },
		u:       func(cd codec[uint]) ordReal { return build(c, kind, cd, rev, safe) },
		up:      func(cd codec[uintptr]) ordReal { return build(c, kind, cd, rev, safe) },
		slice:   func(cd codec[sliceKey]) ordReal { return build(c, kind, cd, rev, safe) },
		part:    func(cd codec[structKey]) ordReal { return build(c, kind, cd, rev, safe) },
	}
	return withKey(c.P["kt"], c.P["kb"], c.P["kcap"], m)
}

// inOrder is a copy of the options, backwards in some runs: their order is the
// caller's choice.
func inOrder[O any](c *Ctx, o []O) []O {
	out := append([]O{}, o...)
	if c.P["optord"] == 1 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

// shared returns option values that every instance of a run is created from.
func shared[O any](c *Ctx, name string, mk func() []O) []O {
	if v, ok := c.opts[name]; ok {
		return v.([]O)
	}
	v := mk()
	c.opts[name] = v
	return v
}

func build[K any](c *Ctx, kind string, cd codec[K], rev, safe bool) ordReal {
	sp := &ordSpec{rev: rev, show: func(code int) string {
		if code < 0 || code >= cd.n {
			return fmt.Sprintf("key code %d", code)
		}
		return fmt.Sprintf("%v", cd.to(code))
	}}
	var in *ordInst
	mapOpts := func() []treemap.Option {
		return shared(c, "treemap", func() []treemap.Option {
			if safe {
				return []treemap.Option{treemap.WithGoroutineSafe()}
			}
			return nil
		})
	}
	setOpts := func() []set.Option {
		return shared(c, "set", func() []set.Option {
			if safe {
				return []set.Option{set.WithGoroutineSafe()}
			}
			return nil
		})
	}
	switch kind {
	case "map":
		sp.vals, sp.balance = true, "tree"
		in = newMap(c, cd, rev, mapOpts())
	case "multimap":
		sp.vals, sp.multi, sp.delAll, sp.balance = true, true, true, "tree"
		in = newMultiMap(c, cd, rev, mapOpts())
	case "set":
		sp.balance = "tree"
		in = newSet(c, cd, rev, setOpts())
	case "multiset":
		sp.multi, sp.balance = true, "tree"
		in = newMultiSet(c, cd, rev, setOpts())
	case "skiplist":
		sp.vals, sp.delRet, sp.balance = true, true, "skip"
		sp.maxLevel = c.P["maxlevel"]
		in = newSkiplist(c, cd, rev, shared(c, "skiplist", func() []skiplist.Option {
			var o []skiplist.Option
			if ml := c.P["maxlevel"]; ml > 0 {
				o = append(o, skiplist.WithMaxLevel(ml))
			}
			if safe {
				o = append(o, skiplist.WithGoroutineSafe())
			}
			return inOrder(c, o)
		}))
	case "rbtree":
		sp.vals, sp.multi, sp.balance = true, true, "tree"
		in = newRbTree(c, cd, rev)
	default:
		panic("unknown kind " + kind)
	}
	return ordReal{in, sp}
}

func b1(ok bool) []int { return []int{b2i(ok)} }

func (o *ordInst) iterDump(it ordIter, back bool) []int {
	var out []int
	for n := 0; it.valid(); n++ {
		if n > 1<<20 {
			panic("iteration does not end")
		}
		k, v := it.kv()
		out = append(out, k, v)
		if back {
			it.prev()
		} else {
			it.next()
		}
	}
	return out
}

func (it ordIter) q() []int {
	if !it.valid() {
		return []int{0}
	}
	k, v := it.kv()
	return []int{1, k, v}
}

func (o *ordInst) content() []int {
	if o.first != nil {
		return o.iterDump(o.first(), false)
	}
	var out []int
	o.trav(func(k, v int) bool { out = append(out, k, v); return true })
	return out
}

// Exec performs one call on the real structure.
func (o *ordInst) Exec(c *Ctx, op *Op, r *Res) {
	a := func(i int) int { return op.A[i] }
	switch op.K {
	case "ins":
		o.ins(a(0), a(1))
	case "insn":
		for _, x := range blockCodes(op.A) {
			c.reclaim()
			o.ins(x[0], x[1])
		}
	case "deln":
		for _, x := range blockCodes(op.A) {
			c.reclaim()
			o.del(x[0])
		}
	case "churn": // the block is inserted, perhaps looked up, and erased again and again
		missed := 0
		for i := 0; i < a(5); i++ {
			for _, x := range blockCodes(op.A[:5]) {
				c.reclaim()
				o.ins(x[0], x[1])
			}
			for _, x := range blockCodes(op.A[:5]) {
				if len(op.A) <= 6 {
					break
				}
				var ok bool
				if o.has != nil {
					ok = o.has(x[0])
				} else {
					_, ok = o.get(x[0])
				}
				if !ok {
					missed++
				}
			}
			for _, x := range blockCodes(op.A[:5]) {
				o.del(x[0])
			}
		}
		r.put(missed)
	case "get":
		if v, ok := o.get(a(0)); ok {
			r.put(1, v)
		} else {
			r.put(0)
		}
	case "del":
		ok := o.del(a(0))
		r.bool(ok)
	case "delit":
		o.delit(a(0))
	case "delall":
		o.delall(a(0))
	case "iset":
		r.S = o.iset(a(0), a(1))
	case "eqit":
		r.V, r.S = o.eqit(a(0))
	case "has":
		r.bool(o.has(a(0)))
	case "count":
		r.put(o.count(a(0)))
	case "size":
		r.put(o.size())
	case "empty":
		r.bool(o.empty())
	case "clear":
		o.clear()
	case "find":
		r.bool(o.find(a(0)).valid())
	case "lb":
		r.bool(o.lb(a(0)).valid())
	case "ub":
		r.bool(o.ub(a(0)).valid())
	case "first":
		r.bool(o.first().valid())
	case "last":
		r.bool(o.last().valid())
	case "begin":
		r.bool(o.begn().valid())
	case "findq":
		r.V = o.find(a(0)).q()
	case "lbq":
		r.V = o.lb(a(0)).q()
	case "ubq":
		r.V = o.ub(a(0)).q()
	case "firstq":
		r.V = o.first().q()
	case "lastq":
		r.V = o.last().q()
	case "beginq":
		r.V = o.begn().q()
	case "trav":
		n := 0
		o.trav(func(k, v int) bool {
			r.V = append(r.V, k, v)
			n++
			c.callback("visit")
			return n != a(0)
		})
	case "copy":
		f := o.fresh()
		n := 0
		o.trav(func(k, v int) bool {
			r.V = append(r.V, k, v)
			n++
			f.ins(k, v)
			c.callback("visit")
			return n != a(0)
		})
		got := f.content()
		if f.first == nil && f.find == nil && f.size == nil {
			if len(got) != len(r.V) {
				r.S = "copy differs"
			}
		} else if !eq(got, r.V) {
			r.S = fmt.Sprintf("copy differs: %v", short(got))
		}
	case "keys":
		r.V = append([]int{}, o.keys()...)
	case "skeys":
		r.V = hamtStringKeys(o)
	case "str":
		r.S = o.str()
	case "icount", "ifind", "imax", "imin":
		r.put(o.scan(op.K, a(0), a(1)))
	case "dump":
		r.V = o.content()
	case "rdump":
		r.V = o.iterDump(o.last(), true)
	case "bal":
		o.bal(c, r, a(0), a(1) == 1)
	default:
		panic("exec: unknown op " + op.K)
	}
}

// bal measures lookups, insertions and removals: comparator calls per call, for
// present and absent keys. The writes leave the content as it was.
func (o *ordInst) bal(c *Ctx, r *Res, universe int, multi bool) {
	oc := c.cur()
	var codes []int
	d := o.content()
	step := len(d)/2/100 + 1
	for i := 0; i < len(d)/2; i += step {
		codes = append(codes, d[2*i], d[2*i]+1)
	}
	codes = append(codes, 0, universe-1)
	worst, total, n := 0, 0, 0
	look := func(f func()) {
		b := oc.cmps
		f()
		x := oc.cmps - b
		total += x
		n++
		if x > worst {
			worst = x
		}
	}
	for _, k := range codes {
		if k >= universe {
			k = universe - 1
		}
		k := k
		if o.get != nil {
			look(func() { o.get(k) })
		}
		if o.has != nil {
			look(func() { o.has(k) })
		}
		if o.find != nil {
			look(func() { o.find(k) })
			look(func() { o.lb(k) })
			look(func() { o.ub(k) })
		}
	}
	known, valid := false, false
	if o.tree != nil {
		known, valid = o.tree()
	}
	lookups := []int{worst, total, n}
	worst, total, n = 0, 0, 0
	in := map[int]int{}
	for i := 0; i < len(d); i += 2 {
		in[d[i]] = d[i+1]
	}
	for _, k := range codes {
		k := min(k, universe-1)
		if v, ok := in[k]; !ok {
			look(func() { o.del(k) })
			look(func() { o.ins(k, 0) })
			look(func() { o.del(k) })
		} else if !multi {
			look(func() { o.ins(k, v) })
		}
	}
	r.V = append(lookups, b2i(known), b2i(valid), worst, total, n)
}
