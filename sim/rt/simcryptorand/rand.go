// Package simcryptorand stands in for crypto/rand: the simulated process's
// source of randomness.
package simcryptorand

import (
	"io"
	"math/big"
	"simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Entropy64() >> 32)
	}
	return len(b), nil
}

// Reader is the source of randomness.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int returns a value in [0, max).
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, (max.BitLen()+7)/8+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

// Text returns 26 random letters and digits.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
