package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/utils/comparator"
)

// codec maps small integer codes to keys of a real type; the comparator orders
// the keys as the codes are ordered (reversed if rev).
type codec[K any] struct {
	to   func(int) K
	from func(K) int
	cmp  comparator.Comparator[K]
	n    int
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func intCodec[K integer](cmp comparator.Comparator[K], off, n int) codec[K] {
	return codec[K]{
		to:   func(c int) K { return K(c - off) },
		from: func(k K) int { return int(k) + off },
		cmp:  cmp, n: n,
	}
}

func floatTo(c int) float64 {
	switch c {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(-1)
	}
	return float64(c-6) * 0.25
}

func floatFrom(f float64) int {
	switch {
	case math.IsNaN(f):
		return 0
	case math.IsInf(f, -1):
		return 1
	}
	return int(f*4) + 6
}

const big = 1 << 20

func strKey(c int) string {
	if c == 0 {
		return ""
	}
	return fmt.Sprintf("key-%07d", c)
}

func strCode(s string) int {
	if s == "" {
		return 0
	}
	if len(s) < 5 {
		return -1
	}
	n, err := strconv.Atoi(s[4:])
	if err != nil {
		return -1
	}
	return n
}

// edgeInt is an int codec whose smallest key is the smallest int.
func edgeInt(cmp comparator.Comparator[int]) codec[int] {
	return codec[int]{
		to: func(c int) int {
			if c == 0 {
				return math.MinInt
			}
			return (c - 5) * 3
		},
		from: func(k int) int {
			if k == math.MinInt {
				return 0
			}
			return k/3 + 5
		},
		cmp: cmp, n: big,
	}
}

// A spread places cap codes in the order-preserving unsigned image of a key
// type: code c is at base + c*step.
type spread struct{ base, step uint64 }

// keySpread draws the placement of kcap codes among the values lo..hi of the
// image: over all of it, from its smallest value, up to its largest, or around
// mid, the image of zero.
func keySpread(mode int, kcap int, lo, hi, mid uint64) spread {
	n := uint64(max(kcap, 2))
	step := (hi - lo) / (n - 1)
	switch mode {
	case 1:
		return spread{lo, step}
	case 2:
		return spread{hi - step*(n-1), step}
	case 3:
		return spread{lo, 1}
	case 4:
		return spread{hi - (n - 1), 1}
	}
	step = min(step, 2)
	base := mid - step*(n/2)
	if n/2 > (mid-lo)/step {
		base = lo
	} else if n-1-n/2 > (hi-mid)/step {
		base = hi - step*(n-1)
	}
	return spread{base, step}
}

func (s spread) at(c int) uint64   { return s.base + uint64(c)*s.step }
func (s spread) code(u uint64) int { return int((u - s.base) / s.step) }

// wideInt is a codec over the whole range of an integer type of w bits.
func wideInt[K integer](cmp comparator.Comparator[K], kb, kcap, w int) codec[K] {
	mask := uint64(math.MaxUint64) >> (64 - w)
	var flip uint64
	if zero := K(0); zero-1 < zero {
		flip = 1 << (w - 1)
	}
	s := keySpread(kb, kcap, 0, mask, 1<<(w-1))
	return codec[K]{
		to:   func(c int) K { mustCode(c, kcap); return K(s.at(c) ^ flip) },
		from: func(k K) int { return s.code((uint64(k) & mask) ^ flip) },
		cmp:  cmp, n: kcap,
	}
}

// wideFloat gives the keys of a codec over the floats from -Inf to +Inf. -0 is
// left out when +0 is in: they are equal.
func wideFloat(kb, kcap, w int) (func(int) float64, func(float64) int) {
	sign := uint64(1) << (w - 1)
	inf := math.Float64bits(math.Inf(1))
	if w == 32 {
		inf = uint64(math.Float32bits(float32(math.Inf(1))))
	}
	mask := uint64(math.MaxUint64) >> (64 - w)
	s := keySpread(kb, kcap, ^(inf|sign)&mask, inf|sign, sign)
	to := func(c int) float64 {
		mustCode(c, kcap)
		u := s.at(c)
		if u&sign != 0 {
			u ^= sign
		} else {
			u = ^u & mask
		}
		if w == 32 {
			return float64(math.Float32frombits(uint32(u)))
		}
		return math.Float64frombits(u)
	}
	from := func(f float64) int {
		u := math.Float64bits(f)
		if w == 32 {
			u = uint64(math.Float32bits(float32(f)))
		}
		if u&sign != 0 {
			u = ^u & mask
		} else {
			u |= sign
		}
		return s.code(u)
	}
	return to, from
}

var imags = [4]float64{math.Inf(-1), -1.5, 0, math.Inf(1)}

// wideComplex is wideFloat with four imaginary parts.
func wideComplex(kb, kcap, w int) (func(int) complex128, func(complex128) int) {
	to, from := wideFloat(kb, kcap/4+1, w)
	return func(c int) complex128 { mustCode(c, kcap); return complex(to(c/4), imags[c%4]) },
		func(k complex128) int {
			for i, x := range imags {
				if x == imag(k) {
					return from(real(k))*4 + i
				}
			}
			return -1
		}
}

// wideStr gives string keys of unequal lengths, many the beginning of others:
// the digits of the code without its trailing zeros, after a prefix.
func wideStr(kb, kcap int) (func(int) string, func(string) int) {
	alpha := [...]string{"\x00a\xff", "ab", "09", "\x7f\x80", "a\xc3\xe9"}[(kb-1)%5]
	prefix := ""
	if kb == 2 {
		prefix = "a common beginning of all the keys, of some length: "
	}
	b, digits := len(alpha), 1
	for p := b; p < kcap; p *= b {
		digits++
	}
	to := func(c int) string {
		mustCode(c, kcap)
		d := make([]byte, digits)
		for i := digits - 1; i >= 0; i-- {
			d[i] = alpha[c%b]
			c /= b
		}
		for len(d) > 0 && d[len(d)-1] == alpha[0] {
			d = d[:len(d)-1]
		}
		return prefix + string(d)
	}
	from := func(s string) int {
		if len(s) < len(prefix) || s[:len(prefix)] != prefix || len(s)-len(prefix) > digits {
			return -1
		}
		s = s[len(prefix):]
		n := 0
		for i := 0; i < digits; i++ {
			n *= b
			if i < len(s) {
				j := strings.IndexByte(alpha, s[i])
				if j < 0 {
					return -1
				}
				n += j
			}
		}
		return n
	}
	return to, from
}

func mustCode(c, kcap int) {
	if c < 0 || c >= kcap {
		panic(fmt.Sprintf("harness: key code %d out of %d", c, kcap))
	}
}

// wideKey is withKey with keys from the ends of their type's range, far apart,
// or of unequal lengths.
func wideKey(kt, kb, kcap int, m keyMaker) ordReal {
	f64, fc64 := wideFloat(kb, kcap, 64)
	switch kt {
	case 1, 18:
		to, from := wideStr(kb, kcap)
		if kt == 1 {
			return m.str(codec[string]{to, from, comparator.StringComparator, kcap})
		}
		return m.str(codec[string]{to, from, comparator.OrderedTypeCmp[string], kcap})
	case 2:
		return m.f64(codec[float64]{f64, fc64, comparator.Float64Comparator, kcap})
	case 19:
		return m.f64(codec[float64]{f64, fc64, comparator.OrderedTypeCmp[float64], kcap})
	case 3:
		to, from := wideFloat(kb, kcap, 32)
		return m.f32(codec[float32]{func(c int) float32 { return float32(to(c)) }, func(f float32) int { return from(float64(f)) }, comparator.Float32Comparator, kcap})
	case 4:
		to, from := wideComplex(kb, kcap, 64)
		return m.c128(codec[complex128]{to, from, comparator.Complex128Comparator, kcap})
	case 5:
		to, from := wideComplex(kb, kcap, 32)
		return m.c64(codec[complex64]{func(c int) complex64 { return complex64(to(c)) }, func(k complex64) int { return from(complex128(k)) }, comparator.Complex64Comparator, kcap})
	case 7:
		return m.i8(wideInt(comparator.Comparator[int8](comparator.Int8Comparator), kb, kcap, 8))
	case 8:
		return m.u8(wideInt(comparator.Comparator[uint8](comparator.Uint8Comparator), kb, kcap, 8))
	case 9:
		return m.u64(wideInt(comparator.Comparator[uint64](comparator.Uint64Comparator), kb, kcap, 64))
	case 10:
		return m.i16(wideInt(comparator.Comparator[int16](comparator.Int16Comparator), kb, kcap, 16))
	case 11:
		return m.u16(wideInt(comparator.Comparator[uint16](comparator.Uint16Comparator), kb, kcap, 16))
	case 12:
		return m.i32(wideInt(comparator.Comparator[int32](comparator.Int32Comparator), kb, kcap, 32))
	case 13:
		return m.u32(wideInt(comparator.Comparator[uint32](comparator.Uint32Comparator), kb, kcap, 32))
	case 14:
		return m.i64(wideInt(comparator.Comparator[int64](comparator.Int64Comparator), kb, kcap, 64))
	case 15:
		return m.u(wideInt(comparator.Comparator[uint](comparator.UintComparator), kb, kcap, 64))
	case 16:
		return m.up(wideInt(comparator.Comparator[uintptr](comparator.UintptrComparator), kb, kcap, 64))
	case 17:
		return m.i(wideInt(comparator.Comparator[int](comparator.OrderedTypeCmp[int]), kb, kcap, 64))
	}
	return m.i(wideInt(comparator.Comparator[int](comparator.IntComparator), kb, kcap, 64))
}

// keyTypes is the number of key types; keyUniverse the number of codes of each.
const keyTypes = 22

var keyUniverse = [keyTypes]int{big, big, big, 60000, big, big, 2, 250, 250, big, 60000, 60000, big, big, big, big, big, big, big, big, big, big}
var keyNames = [keyTypes]string{"int", "string", "float64", "float32", "complex128", "complex64", "bool", "int8", "uint8", "uint64",
	"int16", "uint16", "int32", "uint32", "int64", "uint", "uintptr", "int/OrderedTypeCmp", "string/OrderedTypeCmp", "float64/OrderedTypeCmp", "slice", "struct"}

// sliceKey is a key that == cannot compare.
type sliceKey []int

// structKey is a key of which the comparator looks at one part only: equal keys
// are hardly ever the same.
type structKey struct{ k, tag int }

func (k structKey) String() string { return strconv.Itoa(k.k) }

// withKey calls the maker for the chosen key type.
func withKey(kt, kb, kcap int, m keyMaker) ordReal {
	if kb > 0 && kt != 6 && kt < 20 {
		return wideKey(kt, kb, kcap, m)
	}
	switch kt {
	case 1:
		return m.str(codec[string]{strKey, strCode, comparator.StringComparator, big})
	case 2:
		return m.f64(codec[float64]{floatTo, floatFrom, comparator.Float64Comparator, big})
	case 3:
		return m.f32(codec[float32]{func(c int) float32 { return float32(floatTo(c)) }, func(f float32) int { return floatFrom(float64(f)) }, comparator.Float32Comparator, 60000})
	case 4:
		return m.c128(codec[complex128]{func(c int) complex128 { return complex(float64(c/4), float64(c%4)) }, func(k complex128) int { return int(real(k))*4 + int(imag(k)) }, comparator.Complex128Comparator, big})
	case 5:
		return m.c64(codec[complex64]{func(c int) complex64 { return complex(float32(c/4), float32(c%4)) }, func(k complex64) int { return int(real(k))*4 + int(imag(k)) }, comparator.Complex64Comparator, big})
	case 6:
		return m.boolean(codec[bool]{func(c int) bool { return c > 0 }, b2i, comparator.BoolComparator, 2})
	case 7:
		return m.i8(intCodec(comparator.Comparator[int8](comparator.Int8Comparator), 125, 250))
	case 8:
		return m.u8(intCodec(comparator.Comparator[uint8](comparator.Uint8Comparator), 0, 250))
	case 9:
		return m.u64(codec[uint64]{func(c int) uint64 { return uint64(c) << 43 }, func(k uint64) int { return int(k >> 43) }, comparator.Uint64Comparator, big})
	case 10:
		return m.i16(intCodec(comparator.Comparator[int16](comparator.Int16Comparator), 30000, 60000))
	case 11:
		return m.u16(intCodec(comparator.Comparator[uint16](comparator.Uint16Comparator), 0, 60000))
	case 12:
		return m.i32(intCodec(comparator.Comparator[int32](comparator.Int32Comparator), 1<<19, big))
	case 13:
		return m.u32(intCodec(comparator.Comparator[uint32](comparator.Uint32Comparator), 0, big))
	case 14:
		return m.i64(codec[int64]{func(c int) int64 { return int64(c)<<43 - 1<<62 }, func(k int64) int { return int((k + 1<<62) >> 43) }, comparator.Int64Comparator, big})
	case 15:
		return m.u(intCodec(comparator.Comparator[uint](comparator.UintComparator), 0, big))
	case 16:
		return m.up(intCodec(comparator.Comparator[uintptr](comparator.UintptrComparator), 0, big))
	case 17:
		return m.i(edgeInt(comparator.OrderedTypeCmp[int]))
	case 18:
		return m.str(codec[string]{strKey, strCode, comparator.OrderedTypeCmp[string], big})
	case 19:
		// without NaN and infinities, which OrderedTypeCmp does not order
		return m.f64(codec[float64]{func(c int) float64 { return float64(c) * 0.5 }, func(f float64) int { return int(f * 2) }, comparator.OrderedTypeCmp[float64], big})
	case 20:
		return m.slice(codec[sliceKey]{
			to:   func(c int) sliceKey { return sliceKey{c / 100, c % 100} },
			from: func(k sliceKey) int { return k[0]*100 + k[1] },
			cmp: func(a, b sliceKey) int {
				if x := comparator.IntComparator(a[0], b[0]); x != 0 {
					return x
				}
				return comparator.IntComparator(a[1], b[1])
			}, n: big})
	case 21:
		n := 0
		return m.part(codec[structKey]{
			to:   func(c int) structKey { n++; return structKey{c, n} },
			from: func(k structKey) int { return k.k },
			cmp:  func(a, b structKey) int { return comparator.IntComparator(a.k, b.k) }, n: big})
	}
	return m.i(edgeInt(comparator.IntComparator))
}

// keyMaker is one generic constructor instantiated for every key type.
type keyMaker struct {
	i       func(codec[int]) ordReal
	str     func(codec[string]) ordReal
	f64     func(codec[float64]) ordReal
	f32     func(codec[float32]) ordReal
	c128    func(codec[complex128]) ordReal
	c64     func(codec[complex64]) ordReal
	boolean func(codec[bool]) ordReal
	i8      func(codec[int8]) ordReal
	u8      func(codec[uint8]) ordReal
	u64     func(codec[uint64]) ordReal
	i16     func(codec[int16]) ordReal
	u16     func(codec[uint16]) ordReal
	i32     func(codec[int32]) ordReal
	u32     func(codec[uint32]) ordReal
	i64     func(codec[int64]) ordReal
	u       func(codec[uint]) ordReal
	up      func(codec[uintptr]) ordReal
	slice   func(codec[sliceKey]) ordReal
	part    func(codec[structKey]) ordReal
}
