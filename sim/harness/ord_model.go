package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// ordSpec is the fixed part of the reference model of the keyed structures.
type ordSpec struct {
	multi     bool // equal keys allowed, kept in insertion order
	vals      bool // entries carry values
	unordered bool // traversal order unspecified (hash trie)
	rev       bool // comparator reversed
	delAll    bool // "del" removes every equal entry
	delRet    bool // "del" reports whether it removed something
	balance   string
	maxLevel  int
	cost      bool
	show      func(code int) string
}

// ordState is a sequence of entries in the comparator's order.
type ordState struct {
	sp   *ordSpec
	k, v []int
	h    uint64
}

func (s *ordState) Hash() uint64 {
	if s.h == 0 {
		s.h = hashInts(hashInts(1, s.k...), s.v...) | 1
	}
	return s.h
}

func (s *ordState) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d entries {", len(s.k))
	for i := range s.k {
		if i > 40 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %d", s.k[i])
		if s.sp.vals {
			fmt.Fprintf(&b, ":%d", s.v[i])
		}
	}
	return b.String() + " }"
}

func (s *ordState) lb(k int) int {
	if s.sp.rev {
		return sort.Search(len(s.k), func(i int) bool { return s.k[i] <= k })
	}
	return sort.Search(len(s.k), func(i int) bool { return s.k[i] >= k })
}

func (s *ordState) ub(k int) int {
	if s.sp.rev {
		return sort.Search(len(s.k), func(i int) bool { return s.k[i] < k })
	}
	return sort.Search(len(s.k), func(i int) bool { return s.k[i] > k })
}

func (s *ordState) insert(k, v int) *ordState {
	if !s.sp.vals {
		v = 0
	}
	i, j := s.lb(k), s.ub(k)
	if !s.sp.multi && i < j {
		if !s.sp.vals || s.v[i] == v {
			return s
		}
		n := &ordState{sp: s.sp, k: s.k, v: clone(s.v)}
		n.v[i] = v
		return n
	}
	n := &ordState{sp: s.sp, k: make([]int, 0, len(s.k)+1), v: make([]int, 0, len(s.k)+1)}
	n.k = append(append(append(n.k, s.k[:j]...), k), s.k[j:]...)
	n.v = append(append(append(n.v, s.v[:j]...), v), s.v[j:]...)
	return n
}

// insertAll is insert of one after the other.
func (s *ordState) insertAll(x [][2]int) *ordState {
	if len(x) == 0 {
		return s
	}
	n := &ordState{sp: s.sp, k: make([]int, 0, len(s.k)+len(x)), v: make([]int, 0, len(s.k)+len(x))}
	add := append([][2]int(nil), x...)
	sort.SliceStable(add, func(i, j int) bool {
		if s.sp.rev {
			return add[i][0] > add[j][0]
		}
		return add[i][0] < add[j][0]
	})
	put := func(k, v int) {
		if !s.sp.vals {
			v = 0
		}
		if m := len(n.k); !s.sp.multi && m > 0 && n.k[m-1] == k {
			n.v[m-1] = v
			return
		}
		n.k, n.v = append(n.k, k), append(n.v, v)
	}
	i := 0
	for _, e := range add {
		for ; i < len(s.k) && (s.k[i] == e[0] || (s.k[i] < e[0]) != s.sp.rev); i++ {
			put(s.k[i], s.v[i])
		}
		put(e[0], e[1])
	}
	for ; i < len(s.k); i++ {
		put(s.k[i], s.v[i])
	}
	return n
}

// cutAll erases one after the other.
func (s *ordState) cutAll(x [][2]int) *ordState {
	left := map[int]int{}
	for _, e := range x {
		left[e[0]]++
	}
	n := &ordState{sp: s.sp, k: make([]int, 0, len(s.k)), v: make([]int, 0, len(s.k))}
	for i, k := range s.k {
		if left[k] > 0 {
			if !s.sp.delAll {
				left[k]--
			}
			continue
		}
		n.k, n.v = append(n.k, k), append(n.v, s.v[i])
	}
	return n
}

func (s *ordState) cut(i, j int) *ordState {
	if i >= j {
		return s
	}
	n := &ordState{sp: s.sp}
	n.k = append(append(make([]int, 0, len(s.k)), s.k[:i]...), s.k[j:]...)
	n.v = append(append(make([]int, 0, len(s.k)), s.v[:i]...), s.v[j:]...)
	return n
}

// subsets returns every state in which some of the entries i..j-1 are gone.
func (s *ordState) subsets(i, j int) []State {
	if j-i > 10 {
		panic(inconclusive("too many equal entries for an interrupted erase"))
	}
	var out []State
	for m := 0; m < 1<<(j-i); m++ {
		n := &ordState{sp: s.sp}
		for x := range s.k {
			if x >= i && x < j && m>>(x-i)&1 == 1 {
				continue
			}
			n.k = append(n.k, s.k[x])
			n.v = append(n.v, s.v[x])
		}
		out = append(out, n)
	}
	return out
}

type inconclusive string

func (s *ordState) pairs(i int) []int {
	if i < 0 || i >= len(s.k) {
		return []int{0}
	}
	if s.sp.vals {
		return []int{1, s.k[i], s.v[i]}
	}
	return []int{1, s.k[i], 0}
}

// visited checks a traversal's record against the contents; limit 0 means none.
func (s *ordState) visited(v []int, limit int, prefix bool) bool {
	if len(v)%2 != 0 {
		return false
	}
	n := len(v) / 2
	want := len(s.k)
	if limit > 0 && limit < want {
		want = limit
	}
	if prefix {
		if n > len(s.k) {
			return false
		}
	} else if n != want {
		return false
	}
	if !s.sp.unordered {
		for i := 0; i < n; i++ {
			if v[2*i] != s.k[i] || v[2*i+1] != s.v[i] {
				return false
			}
		}
		return true
	}
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		j := s.lb(v[2*i])
		if seen[v[2*i]] || j >= len(s.k) || s.k[j] != v[2*i] || s.v[j] != v[2*i+1] {
			return false
		}
		seen[v[2*i]] = true
	}
	return true
}

func (s *ordState) text() string {
	var b strings.Builder
	b.WriteByte('[')
	for i, k := range s.k {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(s.sp.show(k))
	}
	b.WriteByte(']')
	return b.String()
}

func (s *ordState) interleave() []int {
	v := make([]int, 0, 2*len(s.k))
	for i := range s.k {
		v = append(v, s.k[i], s.v[i])
	}
	return v
}

func (s *ordState) Step(op *Op, r *Res) []State {
	if r.P == Panicked {
		return nil
	}
	a := func(i int) int { return op.A[i] }
	cut := r.broken()
	switch op.K {
	case "ins":
		n := s.insert(a(0), a(1))
		if cut {
			return []State{s, n}
		}
		return one(n)
	case "insn": // a block of inserts, never interrupted
		return one(s.insertAll(blockCodes(op.A)))
	case "churn":
		n := s
		for i := 0; i < a(5); i++ {
			n = n.insertAll(blockCodes(op.A[:5])).cutAll(blockCodes(op.A[:5]))
			if !s.sp.multi || !s.sp.vals || s.sp.delAll {
				break // once more changes nothing
			}
		}
		if !eq(r.V, []int{0}) {
			return nil
		}
		return one(n)
	case "deln":
		return one(s.cutAll(blockCodes(op.A)))
	case "del", "delit", "delall":
		i, j := s.lb(a(0)), s.ub(a(0))
		if op.K != "delall" && !s.sp.delAll && j > i+1 {
			if s.sp.vals {
				// only the first may go
				if cut {
					return []State{s, s.cut(i, i+1)}
				}
				return one(s.cut(i, i+1))
			}
			j = i + 1
		}
		if cut {
			if j-i > 1 {
				return s.subsets(i, j)
			}
			return []State{s, s.cut(i, j)}
		}
		if s.sp.delRet && !eq(r.V, []int{b2i(j > i)}) {
			return nil
		}
		return one(s.cut(i, j))
	case "clear":
		return one(&ordState{sp: s.sp})
	case "iset":
		i := s.lb(a(0))
		if i == s.ub(a(0)) {
			return same(s, r.S == "")
		}
		n := &ordState{sp: s.sp, k: s.k, v: clone(s.v)}
		n.v[i] = a(1)
		return same(n, r.S == "")
	}
	// reading calls
	if cut {
		switch op.K {
		case "trav", "copy":
			return same(s, s.visited(r.V, 0, true))
		}
		return one(s)
	}
	var want []int
	switch op.K {
	case "get":
		if i, j := s.lb(a(0)), s.ub(a(0)); i < j {
			want = []int{1, s.v[i]}
		} else {
			want = []int{0}
		}
	case "has":
		want = []int{b2i(s.lb(a(0)) < s.ub(a(0)))}
	case "count":
		want = []int{s.ub(a(0)) - s.lb(a(0))}
	case "size":
		want = []int{len(s.k)}
	case "empty":
		want = []int{b2i(len(s.k) == 0)}
	case "find":
		want = []int{b2i(s.lb(a(0)) < s.ub(a(0)))}
	case "lb":
		want = []int{b2i(s.lb(a(0)) < len(s.k))}
	case "ub":
		want = []int{b2i(s.ub(a(0)) < len(s.k))}
	case "first", "last", "begin":
		want = []int{b2i(len(s.k) > 0)}
	case "findq":
		i := s.lb(a(0))
		if i == s.ub(a(0)) {
			i = -1
		}
		want = s.pairs(i)
	case "lbq":
		want = s.pairs(s.lb(a(0)))
	case "ubq":
		want = s.pairs(s.ub(a(0)))
	case "firstq", "beginq":
		want = s.pairs(0)
	case "lastq":
		want = s.pairs(len(s.k) - 1)
	case "icount", "ifind", "imax", "imin":
		want = []int{s.scan(op.K, a(b2i(s.sp.vals)))}
	case "trav":
		return same(s, s.visited(r.V, a(0), false))
	case "eqit":
		return same(s, r.S == "" && eq(r.V, []int{b2i(s.lb(a(0)) == s.ub(a(0))), b2i(len(s.k) > 0)}))
	case "copy":
		return same(s, s.visited(r.V, a(0), false) && r.S == "")
	case "keys", "skeys":
		if s.sp.unordered {
			return same(s, eq(sorted(r.V), sorted(s.k)))
		}
		want = s.k
	case "str":
		t := s.text() // an empty first element may go without its separator
		return same(s, r.S == t || r.S == "["+strings.TrimLeft(t[1:], " "))
	case "dump":
		if s.sp.unordered {
			return same(s, s.visited(r.V, 0, false))
		}
		want = s.interleave()
	case "rdump":
		w := s.interleave()
		want = make([]int, 0, len(w))
		for i := len(s.k) - 1; i >= 0; i-- {
			want = append(want, s.k[i], s.v[i])
		}
	case "bal":
		// r.V = [worst lookup, total, lookups, tree known, tree valid, worst write, total, writes]
		n := len(s.k)
		lg := bits.Len(uint(n + 1))
		if len(r.V) != 8 || (r.V[3] == 1 && r.V[4] != 1) {
			return nil
		}
		if s.sp.balance == "tree" {
			return same(s, r.V[0] <= 8*lg+16 && r.V[5] <= 12*lg+24)
		}
		return same(s, r.V[1] <= r.V[2]*(10*lg+20) && r.V[6] <= r.V[7]*(12*lg+24))
	default:
		panic("model: unknown op " + op.K)
	}
	return same(s, eq(r.V, want))
}

// scan is the reference for the scanning algorithms on iterators: over the values
// of a map, over the elements of a set.
func (s *ordState) scan(which string, x int) int {
	seq := s.v
	if !s.sp.vals {
		seq = s.k
	}
	n, first, best := 0, len(seq), -1
	for i, y := range seq {
		if y == x {
			if n == 0 {
				first = i
			}
			n++
		}
		if best < 0 {
			best = y
			continue
		}
		more := y > best
		if s.sp.rev && !s.sp.vals {
			more = !more
		}
		if y != best && more == (which == "imax") {
			best = y
		}
	}
	switch which {
	case "icount":
		return n
	case "ifind":
		return first
	}
	return best
}

// blockCodes expands a block op [start, count, stride, modulus, value0] into (key, value) pairs.
func blockCodes(a []int) [][2]int {
	out := make([][2]int, 0, a[1])
	for i := 0; i < a[1]; i++ {
		k := a[0] + i*a[2]
		if a[3] > 0 {
			k = ((k % a[3]) + a[3]) % a[3]
		}
		out = append(out, [2]int{k, a[4] + i})
	}
	return out
}
