package main

import (
	"fmt"

	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
)

var nestKinds = []string{"map", "multimap", "set", "multiset", "skiplist", "rbtree", "hamt", "pq", "queue", "stack", "vector", "deque",
	"bidlist", "simplelist", "ring", "bloom", "bitmap", "pair"}

// sameOpts are the option values the instances of the run are created from.
func sameOpts[O any](c *Ctx, name string) []O {
	if o, ok := c.opts[name].([]O); ok {
		return o
	}
	return nil
}

// nest makes an instance of its own and uses it: what a comparator, a visitor or a
// container of the caller may do in the middle of a call on another instance.
func (c *Ctx) nest(kind string) {
	must := func(what string, ok bool) {
		if !ok {
			panic(fmt.Sprintf("a new %s used inside a callback: %s", kind, what))
		}
	}
	cmp := comparator.Comparator[int](comparator.IntComparator)
	switch kind {
	case "map":
		m := treemap.New[int, int](cmp, sameOpts[treemap.Option](c, "treemap")...)
		for i := 5; i > 0; i-- {
			m.Insert(i, i*i)
		}
		m.Erase(2)
		v, err := m.Get(3)
		must("Get", err == nil && v == 9)
		n := 0
		m.Traversal(func(k, v int) bool { n += k; return true })
		must("contents", m.Size() == 4 && n == 13 && !m.Contains(2) && m.First().Key() == 1 && m.LowerBound(2).Key() == 3)
	case "multimap":
		m := treemap.NewMultiMap[int, int](cmp, sameOpts[treemap.Option](c, "treemap")...)
		for i := 0; i < 6; i++ {
			m.Insert(i%3, i)
		}
		m.Erase(1)
		v, err := m.Get(2)
		must("contents", err == nil && v == 2 && m.Size() == 4 && !m.Contains(1))
	case "set":
		m := set.New[int](cmp, sameOpts[set.Option](c, "set")...)
		for i := 5; i > 0; i-- {
			m.Insert(i)
		}
		m.Erase(4)
		must("contents", m.Size() == 4 && m.Contains(5) && !m.Contains(4) && m.String() == "[1 2 3 5]")
	case "multiset":
		m := set.NewMultiSet[int](cmp, sameOpts[set.Option](c, "set")...)
		for i := 0; i < 6; i++ {
			m.Insert(i % 3)
		}
		m.EraseAll(1)
		m.Erase(2)
		must("contents", m.Size() == 3 && m.Count(0) == 2 && m.Count(1) == 0 && m.String() == "[0 0 2]")
	case "pair":
		a, b := set.New[int](cmp, sameOpts[set.Option](c, "set")...), set.New[int](cmp, sameOpts[set.Option](c, "set")...)
		for i := 0; i < 4; i++ {
			a.Insert(i)
			b.Insert(i + 2)
		}
		must("set algebra", a.Union(b).Size() == 6 && a.Intersect(b).String() == "[2 3]" && a.Diff(b).String() == "[0 1]")
	case "skiplist":
		s := skiplist.New[int, int](cmp, sameOpts[skiplist.Option](c, "skiplist")...)
		for i := 5; i > 0; i-- {
			s.Insert(i, -i)
		}
		ok := s.Remove(2)
		v, err := s.Get(4)
		k := s.Keys()
		must("contents", ok && err == nil && v == -4 && s.Len() == 4 && len(k) == 4 && k[0] == 1 && k[3] == 5)
	case "rbtree":
		t := rbtree.New[int, int](cmp)
		for i := 7; i > 0; i-- {
			t.Insert(i, -i)
		}
		t.Delete(t.FindNode(4))
		v, err := t.Find(5)
		must("contents", err == nil && v == -5 && t.Size() == 6 && t.FindNode(4) == nil && t.Last().Key() == 7)
	case "hamt":
		h := hamt.New[int](sameOpts[hamt.Option](c, "hamt")...)
		for i := 1; i < 6; i++ {
			h.Insert(hamtKey(i), i)
		}
		ok := h.Erase(hamtKey(2))
		v, err := h.Get(hamtKey(5))
		must("contents", ok && err == nil && v == 5 && len(h.Keys()) == 4)
	case "pq":
		q := priorityqueue.New[int](cmp, sameOpts[priorityqueue.Option](c, "pq")...)
		for i := 5; i > 0; i-- {
			q.Push(i)
		}
		a, b := q.Pop(), q.Pop()
		must("contents", a == 1 && b == 2 && q.Top() == 3 && q.Size() == 3)
	case "queue":
		q := queue.New[int](queue.WithGoroutineSafe[int]())
		q.Push(1)
		q.Push(2)
		q.Push(3)
		must("contents", q.Pop() == 1 && q.Front() == 2 && q.Back() == 3 && q.Size() == 2)
	case "stack":
		s := stack.New[int](stack.WithGoroutineSafe[int]())
		s.Push(1)
		s.Push(2)
		must("contents", s.Pop() == 2 && s.Top() == 1 && s.Size() == 1)
	case "vector":
		v := vector.New[int]()
		for _, x := range []int{5, 2, 9, 2, 7, 1} {
			v.PushBack(x)
		}
		sort.Stable[int](v.Begin(), v.End(), cmp)
		must("contents", eq(v.Data(), []int{1, 2, 2, 5, 7, 9}))
		sort.Sort[int](v.Begin(), v.End(), comparator.Reverse(cmp))
		must("contents", eq(v.Data(), []int{9, 7, 5, 2, 2, 1}))
	case "deque":
		d := deque.New[int]()
		for i := 0; i < 5; i++ {
			d.PushBack(i)
			d.PushFront(-i)
		}
		must("contents", d.PopFront() == -4 && d.PopBack() == 4 && d.Size() == 8 && d.At(3) == 0)
	case "bidlist":
		l := bidlist.New[int]()
		l.PushBack(1)
		l.PushBack(2)
		l.PushFront(0)
		n := 0
		l.Traversal(func(x int) bool { n = n*10 + x; return true })
		must("contents", l.Len() == 3 && n == 12)
	case "simplelist":
		l := simplelist.New[int]()
		l.PushBack(1)
		l.PushBack(2)
		l.PushFront(3)
		n := 0
		l.Traversal(func(x int) bool { n = n*10 + x; return true })
		must("contents", l.Len() == 3 && n == 312)
	case "ring":
		k := ketama.New(ketama.WithReplicas(3), ketama.WithGoroutineSafe())
		_, none := k.Get("key")
		k.Add("a")
		n, ok := k.Get("key")
		k.Remove("a")
		must("contents", !none && ok && n == "a" && k.Empty())
	case "bloom":
		f := bloom.New(100, 3, bloom.WithGoroutineSafe())
		f.Add("x")
		must("contents", f.Contains("x"))
	case "bitmap":
		b := bitmap.New(20)
		b.Set(7)
		must("contents", b.IsSet(7) && !b.IsSet(8))
	}
}
