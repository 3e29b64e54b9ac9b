// Package simmaphash stands in for hash/maphash: seeds come from the simulated
// process, so they differ between one process and the next and nothing else.
package simmaphash

import (
	"simrt"
	"simrt/simfnv"
)

// Seed selects a hash function.
type Seed struct{ s uint64 }

// MakeSeed returns a new random seed.
func MakeSeed() Seed { return Seed{simrt.Entropy64() | 1} }

// Hash computes a seeded hash of a byte sequence. The zero Hash picks a seed on
// first use.
type Hash struct {
	_     [0]func()
	seed  Seed
	state uint64
	begun bool
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
	if !h.begun {
		h.state, h.begun = start(h.seed), true
	}
}

func start(s Seed) uint64 { return 0xcbf29ce484222325 ^ s.s }

func mix(h uint64, b byte) uint64 { return (h ^ uint64(b)) * 0x100000001b3 }

func finish(h uint64) uint64 {
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	return simfnv.Degrade(h)
}

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	for _, c := range b {
		h.state = mix(h.state, c)
	}
	return len(b), nil
}

func (h *Hash) WriteString(s string) (int, error) {
	h.init()
	for i := 0; i < len(s); i++ {
		h.state = mix(h.state, s[i])
	}
	return len(s), nil
}

func (h *Hash) WriteByte(b byte) error {
	h.init()
	h.state = mix(h.state, b)
	return nil
}

func (h *Hash) Sum64() uint64 { h.init(); return finish(h.state) }

func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(x>>uint(i)))
	}
	return b
}

func (h *Hash) Seed() Seed     { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed) { h.need(s); h.seed, h.begun = s, false }
func (h *Hash) Reset()         { h.begun = false }
func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }

func (h *Hash) need(s Seed) {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
}

// Bytes is the hash of b.
func Bytes(s Seed, b []byte) uint64 {
	var h Hash
	h.SetSeed(s)
	h.Write(b)
	return h.Sum64()
}

// String is the hash of v.
func String(s Seed, v string) uint64 {
	var h Hash
	h.SetSeed(s)
	h.WriteString(v)
	return h.Sum64()
}

// Comparable is the hash of v.
func Comparable[T comparable](s Seed, v T) uint64 {
	var h Hash
	h.SetSeed(s)
	WriteComparable(&h, v)
	return h.Sum64()
}

// WriteComparable adds v to h.
func WriteComparable[T comparable](h *Hash, v T) { h.WriteString(simrt.Stable(v)) }
