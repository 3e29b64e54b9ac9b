// Package simfnv stands in for hash/fnv: the real hash, optionally degraded by
// the simulator so that hash collisions of every degree occur.
package simfnv

import (
	"hash"
	real "hash/fnv"
	"simrt"
)

// Degrade maps a hash value according to the simulation's hash mode.
func Degrade(h uint64) uint64 {
	s := simrt.S
	if s == nil {
		return h
	}
	switch s.HashMode {
	case 1: // everything collides
		return 0xdeadbeefcafef00d ^ s.HashSeed
	case 2: // two values, agreeing in all but the top bits
		return (h&1)<<63 | s.HashSeed&(1<<63-1)
	case 3: // long common prefix (low bits), few distinct values in the top bits
		return h<<60 | s.HashSeed&(1<<60-1)
	case 4: // differ only in the middle
		return (h&7)<<30 | s.HashSeed&^(7<<30)
	case 5: // few values per level at several depths
		return h & 0x1041041041041041
	case 6: // eight distinct hash values spread over the word
		return (h & 7) * 0x9e3779b97f4a7c15
	case 7: // the extreme values
		return [4]uint64{0, ^uint64(0), 1, 1 << 63}[h&3]
	case 8: // one six-bit group differs, at any depth
		return s.HashSeed ^ (h>>8&3)<<(h%11*6)
	}
	return h
}

type h64 struct{ hash.Hash64 }

func (h h64) Sum64() uint64 { return Degrade(h.Hash64.Sum64()) }

func New64() hash.Hash64  { return h64{real.New64()} }
func New64a() hash.Hash64 { return h64{real.New64a()} }
func New32() hash.Hash32  { return real.New32() }
func New32a() hash.Hash32 { return real.New32a() }
func New128() hash.Hash   { return real.New128() }
func New128a() hash.Hash  { return real.New128a() }
