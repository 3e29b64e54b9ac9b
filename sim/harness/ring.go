package main

import (
	"fmt"
	"simrt"
	"strings"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/ketama"
)

// outside runs f as if no simulation were in progress: used by oracles that ask
// a fresh, sequentially built instance.
func outside(f func()) {
	s := simrt.S
	simrt.S = nil
	defer func() { simrt.S = s }()
	f()
}

// ---- consistent-hash ring

func nodeName(i int) string {
	switch i {
	case 0:
		return "10.0.0.1:11211"
	case 1:
		return "10.0.0.2:11211"
	case 2:
		return ""
	case 3:
		return "node-with-a-rather-long-name.example.internal:11211"
	}
	if i == 6 {
		return "n4n4"
	}
	return fmt.Sprintf("n%d", i)
}

// maxNodes is the number of node names there are.
const maxNodes = 60

var nodeCodes = func() map[string]int {
	m := map[string]int{}
	for i := 0; i < maxNodes; i++ {
		m[nodeName(i)] = i
	}
	return m
}()

// ringNodes is the number of nodes a run may use.
func ringNodes(P map[string]int) int { return max(5, P["rnodes"]) }

func nodeCode(s string) int {
	if i, ok := nodeCodes[s]; ok {
		return i
	}
	return -2
}

// ringOracle answers what a ring with exactly the given members returns.
type ringOracle struct {
	replicas int
	rings    map[int]*ketama.Ketama
	memo     map[[2]int]int
	nodes    int
}

func (o *ringOracle) get(mask, key int) int {
	if mask == 0 {
		return -1
	}
	if v, ok := o.memo[[2]int{mask, key}]; ok {
		return v
	}
	res := -3
	outside(func() {
		k := o.rings[mask]
		if k == nil {
			k = ketama.New(ketama.WithReplicas(o.replicas))
			for i := 0; i < o.nodes; i++ {
				if mask>>i&1 == 1 {
					k.Add(nodeName(i))
				}
			}
			o.rings[mask] = k
		}
		if s, ok := k.Get(ringKey(key)); ok {
			res = nodeCode(s)
		}
	})
	o.memo[[2]int{mask, key}] = res
	return res
}

func ringKey(i int) string {
	switch {
	case i == 0:
		return ""
	case i <= 4:
		return nodeName(i)
	case i%50 == 7:
		return strings.Repeat("k", 100+i)
	}
	return fmt.Sprintf("key%d", i)
}

type ringState struct {
	mask int
	o    *ringOracle
}

func (s *ringState) Hash() uint64   { return hashInts(21, s.mask) }
func (s *ringState) String() string { return fmt.Sprintf("members %b", s.mask) }

func (s *ringState) Step(op *Op, r *Res) []State {
	if r.P != Normal {
		return nil
	}
	switch op.K {
	case "radd", "rrem":
		m := s.mask
		for _, i := range op.A {
			if op.K == "radd" {
				m |= 1 << i
			} else {
				m &^= 1 << i
			}
		}
		return one(&ringState{m, s.o})
	case "rcycle":
		return one(&ringState{s.mask &^ (1 << op.A[0]), s.o})
	case "rproc": // the new process is told its members
		t := &ringState{0, s.o}
		for _, i := range op.A[2:] {
			t.mask |= 1 << i
		}
		return t.Step(&Op{K: "rgetn", A: op.A[:2]}, r)
	case "rget", "rgetn":
		n := 1
		if op.K != "rget" {
			n = op.A[1]
		}
		if len(r.V) != n {
			return nil
		}
		for i := 0; i < n; i++ {
			v := r.V[i]
			if v >= 0 && s.mask>>v&1 == 0 || v != s.o.get(s.mask, op.A[0]+i) {
				return nil
			}
		}
		return one(s)
	case "empty":
		return same(s, eq(r.V, b1(s.mask == 0)))
	case "remap":
		// minimal movement between this membership and each that differs by one node
		for b := 0; b < s.o.nodes; b++ {
			small, large := s.mask&^(1<<b), s.mask|1<<b
			for k := op.A[0]; k < op.A[0]+op.A[1]; k++ {
				x, y := s.o.get(small, k), s.o.get(large, k)
				if y != x && y != b {
					return nil
				}
			}
		}
		return one(s)
	}
	panic("model: unknown op " + op.K)
}

type ringInst struct {
	k *ketama.Ketama
	o *ringOracle
}

func ringOpts(c *Ctx) []ketama.Option {
	rep := c.P["replicas"]
	return shared(c, "ring", func() []ketama.Option {
		o := []ketama.Option{ketama.WithReplicas(rep)}
		if c.P["safe"] == 1 {
			o = append(o, ketama.WithGoroutineSafe())
		}
		return inOrder(c, o)
	})
}

func newRing(c *Ctx) (Inst, State) {
	opts := ringOpts(c)
	or := &ringOracle{replicas: c.P["replicas"], rings: map[int]*ketama.Ketama{}, memo: map[[2]int]int{}, nodes: ringNodes(c.P)}
	return &ringInst{ketama.New(opts...), or}, &ringState{0, or}
}

func (o *ringInst) get(key int) int {
	if s, ok := o.k.Get(ringKey(key)); ok {
		return nodeCode(s)
	}
	return -1
}

func (o *ringInst) Exec(c *Ctx, op *Op, r *Res) {
	names := func() (out []string) {
		for _, i := range op.A {
			out = append(out, nodeName(i))
		}
		return
	}
	switch op.K {
	case "radd":
		o.k.Add(names()...)
	case "rrem":
		o.k.Remove(names()...)
	case "rcycle": // a member comes and goes again and again
		for i := 0; i < op.A[1]; i++ {
			c.reclaim()
			o.k.Add(nodeName(op.A[0]))
			o.k.Remove(nodeName(op.A[0]))
		}
	case "rget":
		r.put(o.get(op.A[0]))
	case "rgetn":
		for i := 0; i < op.A[1]; i++ {
			r.put(o.get(op.A[0] + i))
		}
	case "empty":
		r.bool(o.k.Empty())
	case "rproc":
		// the client process is restarted and told the members again
		c.restart()
		o.o.rings = map[int]*ketama.Ketama{}
		o.k = ketama.New(ringOpts(c)...)
		ms := append([]int{}, op.A[2:]...)
		rng := simrt.NewRng(uint64(op.A[0]))
		for i := len(ms) - 1; i > 0; i-- {
			j := rng.Intn(i + 1)
			ms[i], ms[j] = ms[j], ms[i]
		}
		for _, i := range ms {
			o.k.Add(nodeName(i))
		}
		for i := 0; i < op.A[1]; i++ {
			r.put(o.get(op.A[0] + i))
		}
	case "remap":
	default:
		panic("exec: unknown op " + op.K)
	}
}

// ---- bloom filter

// bloomOracle answers what a filter with exactly the given values returns.
type bloomOracle struct {
	mk   func(opts ...bloom.Option) *bloom.BloomFilter // a new filter of the run's size
	memo map[uint64]*bloom.BloomFilter
	ans  map[uint64]*[probes]int8 // 0 not asked yet, 1 no, 2 yes
}

func bloomVal(i int) string {
	if i == 0 {
		return ""
	}
	if i%16 == 9 {
		return strings.Repeat("v", 60+i) + fmt.Sprint(i)
	}
	return strings.Repeat("v", i%7) + fmt.Sprint(i)
}

func (o *bloomOracle) filter(mask uint64) *bloom.BloomFilter {
	f := o.memo[mask]
	if f == nil {
		f = o.mk()
		for i := 0; i < 64; i++ {
			if mask>>uint(i)&1 == 1 {
				f.Add(bloomVal(i))
			}
		}
		o.memo[mask] = f
	}
	return f
}

func (o *bloomOracle) has(mask uint64, i int) (ok bool) {
	a := o.ans[mask]
	if a == nil {
		a = new([probes]int8)
		o.ans[mask] = a
	}
	if a[i] == 0 {
		outside(func() { ok = o.filter(mask).Contains(bloomVal(i)) })
		a[i] = int8(1 + b2i(ok))
	}
	return a[i] == 2
}

type bloomState struct {
	mask uint64
	disk [4]uint64 // values in the bytes exported to each slot
	o    *bloomOracle
}

func (s *bloomState) Hash() uint64 {
	return hashInts(31, int(s.mask), int(s.disk[0]), int(s.disk[1]), int(s.disk[2]), int(s.disk[3]))
}
func (s *bloomState) String() string { return fmt.Sprintf("values %b, on disk %b", s.mask, s.disk) }

func (s *bloomState) Step(op *Op, r *Res) []State {
	if r.P != Normal {
		return nil
	}
	switch op.K {
	case "fadd":
		return one(&bloomState{s.mask | 1<<uint(op.A[0]), s.disk, s.o})
	case "faddn":
		m := s.mask
		for i := 0; i < min(op.A[1], op.A[2]); i++ {
			m |= 1 << uint(op.A[0]+i)
		}
		return one(&bloomState{m, s.disk, s.o})
	case "fhas", "fhasn", "fdata", "frestore", "fproc":
		start, n := 0, probes
		if op.K == "fhas" {
			start, n = op.A[0], 1
		} else if op.K == "fhasn" {
			start, n = op.A[0], op.A[1]
		}
		if len(r.V) != n || r.S != "" {
			return nil
		}
		m := s.mask
		if op.K == "frestore" {
			m = s.disk[op.A[0]]
		}
		for j := 0; j < n; j++ {
			i := start + j
			added := i < 64 && m>>uint(i)&1 == 1
			if added && r.V[j] != 1 || m == 0 && r.V[j] != 0 || r.V[j] != b2i(s.o.has(m, i)) {
				return nil
			}
		}
		t := *s
		t.mask = m
		if op.K == "fdata" && op.A[0] >= 0 {
			t.disk[op.A[0]] = m
		}
		return one(&t)
	}
	panic("model: unknown op " + op.K)
}

// probes is the number of values whose membership describes a filter.
const probes = 80

type bloomInst struct {
	c    *Ctx
	f    *bloom.BloomFilter
	mk   func(opts ...bloom.Option) *bloom.BloomFilter
	disk map[int][]byte // what the simulated disk holds
	opts []bloom.Option
	or   *bloomOracle
}

func bloomOpts(c *Ctx) []bloom.Option {
	return shared(c, "bloom", func() []bloom.Option {
		if c.P["safe"] == 1 {
			return []bloom.Option{bloom.WithGoroutineSafe()}
		}
		return nil
	})
}

// reborn gives the instance what a new process has.
func (o *bloomInst) reborn() {
	o.f, o.opts = nil, bloomOpts(o.c)
	o.or.memo = map[uint64]*bloom.BloomFilter{} // the answers given stay binding
}

func newBloom(c *Ctx) (Inst, State) {
	m, k := uint64(c.P["m"]), uint64(c.P["k"])
	opts := bloomOpts(c)
	mk := func(opts ...bloom.Option) *bloom.BloomFilter { return bloom.New(m, k, opts...) }
	switch c.P["bctor"] {
	case 1:
		n, fp := uint64(c.P["est"]), []float64{0.5, 0.1, 0.01, 0.001}[c.P["fp"]%4]
		mk = func(opts ...bloom.Option) *bloom.BloomFilter { return bloom.NewWithEstimates(n, fp, opts...) }
	case 2:
		mk = func(opts ...bloom.Option) *bloom.BloomFilter {
			return bloom.NewFromData(bloom.New(m, k).Data(), opts...)
		}
	}
	or := &bloomOracle{mk: mk, memo: map[uint64]*bloom.BloomFilter{}, ans: map[uint64]*[probes]int8{}}
	return &bloomInst{c: c, f: mk(opts...), mk: mk, opts: opts, or: or, disk: map[int][]byte{}}, &bloomState{o: or}
}

func answers(f *bloom.BloomFilter) (out []int) {
	for i := 0; i < probes; i++ {
		out = append(out, b2i(f.Contains(bloomVal(i))))
	}
	return
}

func (o *bloomInst) Exec(c *Ctx, op *Op, r *Res) {
	switch op.K {
	case "fadd":
		o.f.Add(bloomVal(op.A[0]))
	case "faddn": // a block of values, added again and again
		for i := 0; i < op.A[2]; i++ {
			c.reclaim()
			o.f.Add(bloomVal(op.A[0] + i%op.A[1]))
		}
	case "fhas":
		r.bool(o.f.Contains(bloomVal(op.A[0])))
	case "fhasn":
		for i := 0; i < op.A[1]; i++ {
			r.bool(o.f.Contains(bloomVal(op.A[0] + i)))
		}
	case "fdata":
		// export to the simulated disk, then describe the bytes by the answers of
		// a private filter rebuilt from a copy
		data := o.f.Data()
		if op.A[0] >= 0 {
			o.disk[op.A[0]] = append([]byte{}, data...)
		}
		outside(func() {
			g := bloom.NewFromData(append([]byte{}, data...))
			r.V = answers(g)
			// the exported bytes belong to the caller
			for i := range data {
				data[i] ^= 0xff
			}
		})
	case "fproc":
		// the process exports its filter, ends, and a new one continues from the bytes
		data := append([]byte{}, o.f.Data()...)
		c.restart()
		o.reborn()
		o.f = bloom.NewFromData(data, o.opts...)
		r.V = answers(o.f)
	case "frestore":
		// quiescent: restart from the bytes on disk and check independence
		if o.disk[op.A[0]] == nil { // nothing was ever written there: a new filter
			outside(func() { o.disk[op.A[0]] = append([]byte{}, o.mk().Data()...) })
		}
		data := append([]byte{}, o.disk[op.A[0]]...)
		f := bloom.NewFromData(data, o.opts...)
		g := bloom.NewFromData(data, o.opts...)
		before := answers(f)
		g.Add(bloomVal(70 + op.A[1]%5))
		g.Add(bloomVal(75))
		if !eq(answers(f), before) {
			r.S = "adding to one rebuilt filter changed another; "
		}
		old := o.f
		if old != nil {
			was := answers(old)
			f2 := bloom.NewFromData(data, o.opts...)
			f2.Add(bloomVal(76))
			if !eq(answers(old), was) {
				r.S += "adding to a rebuilt filter changed the original; "
			}
		}
		h := bloom.NewFromData(data, o.opts...)
		if !eq(answers(h), before) {
			r.S += "adding to a rebuilt filter changed the exported bytes; "
		}
		for i := range data {
			data[i] = byte(op.A[2])
		}
		if !eq(answers(f), before) {
			r.S += "overwriting the byte buffer changed the rebuilt filter; "
		}
		again := f.Data()
		if !eq(answers(bloom.NewFromData(again)), before) {
			r.S += "a second export differs; "
		}
		o.f = f
		r.V = answers(f)
	default:
		panic("exec: unknown op " + op.K)
	}
}
