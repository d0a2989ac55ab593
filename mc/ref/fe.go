// Package ref is the reference model: an independent, deliberately plain
// implementation of GF(2^255-19), the Edwards curve, the ristretto255 group as
// specified in RFC 9496, and integers modulo the group order.  It shares no
// code and no constants with the library under test; all constants are computed.
package ref

import (
	"math/big"
	"math/bits"
)

// Fe is a field element, always fully reduced, little-endian 64-bit limbs.
type Fe [4]uint64

var (
	P    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	pL   = Fe{0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff}
	Zero = Fe{}
	One  = Fe{1}
)

func (a Fe) Big() *big.Int {
	b := a.Bytes()
	return LEToBig(b[:])
}

// LEToBig interprets b little endian.
func LEToBig(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// BigToLE writes x (0 <= x < 2^(8n)) little endian in n bytes.
func BigToLE(x *big.Int, n int) []byte {
	r := make([]byte, n)
	b := x.Bytes()
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return r
}

// FeBig returns x mod p.
func FeBig(x *big.Int) Fe {
	var m big.Int
	m.Mod(x, P)
	var b [32]byte
	copy(b[:], BigToLE(&m, 32))
	return FeRaw(b).canon()
}

func FeInt(x int64) Fe { return FeBig(big.NewInt(x)) }

// FeRaw loads all 256 bits unreduced.
func FeRaw(b [32]byte) Fe {
	var r Fe
	for i := 0; i < 4; i++ {
		for j := 7; j >= 0; j-- {
			r[i] = r[i]<<8 | uint64(b[8*i+j])
		}
	}
	return r
}

// FeBytes loads 255 bits (the top bit is ignored) and reduces modulo p.
func FeBytes(b [32]byte) Fe {
	r := FeRaw(b)
	r[3] &= 0x7fffffffffffffff
	return r.canon()
}

func (a Fe) Bytes() [32]byte {
	var r [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[8*i+j] = byte(a[i] >> (8 * uint(j)))
		}
	}
	return r
}

// canon subtracts p while a >= p  (a < 2^256).
func (a Fe) canon() Fe {
	for a[3] >= 0x7fffffffffffffff {
		var r Fe
		var br uint64
		r[0], br = bits.Sub64(a[0], pL[0], 0)
		r[1], br = bits.Sub64(a[1], pL[1], br)
		r[2], br = bits.Sub64(a[2], pL[2], br)
		r[3], br = bits.Sub64(a[3], pL[3], br)
		if br != 0 {
			return a
		}
		a = r
	}
	return a
}

func (a Fe) Add(b Fe) Fe {
	var r Fe
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	return r.canon() // a+b < 2^256
}

func (a Fe) Sub(b Fe) Fe {
	var r Fe
	var br uint64
	for i := 0; i < 4; i++ {
		r[i], br = bits.Sub64(a[i], b[i], br)
	}
	if br != 0 {
		var c uint64
		for i := 0; i < 4; i++ {
			r[i], c = bits.Add64(r[i], pL[i], c)
		}
	}
	return r
}

func (a Fe) Neg() Fe { return Zero.Sub(a) }

// Mul is schoolbook multiplication followed by folding with 2^256 = 38.
func (a Fe) Mul(b Fe) Fe {
	var t0, t1, t2, t3, t4, t5, t6, t7 uint64
	{
		var c, hi, lo, k uint64
		hi, lo = bits.Mul64(a[0], b[0])
		lo, c = bits.Add64(lo, t0, 0)
		hi += c
		t0, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[0], b[1])
		lo, c = bits.Add64(lo, t1, 0)
		hi += c
		t1, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[0], b[2])
		lo, c = bits.Add64(lo, t2, 0)
		hi += c
		t2, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[0], b[3])
		lo, c = bits.Add64(lo, t3, 0)
		hi += c
		t3, c = bits.Add64(lo, k, 0)
		k = hi + c
		t4 = k
	}
	{
		var c, hi, lo, k uint64
		hi, lo = bits.Mul64(a[1], b[0])
		lo, c = bits.Add64(lo, t1, 0)
		hi += c
		t1, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[1], b[1])
		lo, c = bits.Add64(lo, t2, 0)
		hi += c
		t2, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[1], b[2])
		lo, c = bits.Add64(lo, t3, 0)
		hi += c
		t3, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[1], b[3])
		lo, c = bits.Add64(lo, t4, 0)
		hi += c
		t4, c = bits.Add64(lo, k, 0)
		k = hi + c
		t5 = k
	}
	{
		var c, hi, lo, k uint64
		hi, lo = bits.Mul64(a[2], b[0])
		lo, c = bits.Add64(lo, t2, 0)
		hi += c
		t2, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[2], b[1])
		lo, c = bits.Add64(lo, t3, 0)
		hi += c
		t3, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[2], b[2])
		lo, c = bits.Add64(lo, t4, 0)
		hi += c
		t4, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[2], b[3])
		lo, c = bits.Add64(lo, t5, 0)
		hi += c
		t5, c = bits.Add64(lo, k, 0)
		k = hi + c
		t6 = k
	}
	{
		var c, hi, lo, k uint64
		hi, lo = bits.Mul64(a[3], b[0])
		lo, c = bits.Add64(lo, t3, 0)
		hi += c
		t3, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[3], b[1])
		lo, c = bits.Add64(lo, t4, 0)
		hi += c
		t4, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[3], b[2])
		lo, c = bits.Add64(lo, t5, 0)
		hi += c
		t5, c = bits.Add64(lo, k, 0)
		k = hi + c
		hi, lo = bits.Mul64(a[3], b[3])
		lo, c = bits.Add64(lo, t6, 0)
		hi += c
		t6, c = bits.Add64(lo, k, 0)
		k = hi + c
		t7 = k
	}
	var r Fe
	var c, hi, lo, k uint64
	hi, lo = bits.Mul64(t4, 38)
	lo, c = bits.Add64(lo, t0, 0)
	hi += c
	r[0], c = bits.Add64(lo, k, 0)
	k = hi + c
	hi, lo = bits.Mul64(t5, 38)
	lo, c = bits.Add64(lo, t1, 0)
	hi += c
	r[1], c = bits.Add64(lo, k, 0)
	k = hi + c
	hi, lo = bits.Mul64(t6, 38)
	lo, c = bits.Add64(lo, t2, 0)
	hi += c
	r[2], c = bits.Add64(lo, k, 0)
	k = hi + c
	hi, lo = bits.Mul64(t7, 38)
	lo, c = bits.Add64(lo, t3, 0)
	hi += c
	r[3], c = bits.Add64(lo, k, 0)
	k = hi + c
	// fold the rest above bit 255: 2^255 = 19
	for k != 0 || r[3]>>63 != 0 {
		k = k<<1 | r[3]>>63
		r[3] &= 0x7fffffffffffffff
		r[0], c = bits.Add64(r[0], k*19, 0)
		r[1], c = bits.Add64(r[1], 0, c)
		r[2], c = bits.Add64(r[2], 0, c)
		r[3], c = bits.Add64(r[3], 0, c)
		k = c
	}
	return r.canon()
}

func (a Fe) Sqr() Fe { return a.Mul(a) }

// Pow returns a^e for e given as big.Int.
func (a Fe) Pow(e *big.Int) Fe {
	r := One
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Sqr()
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

func (a Fe) sqrN(n int) Fe {
	for i := 0; i < n; i++ {
		a = a.Sqr()
	}
	return a
}

// pow2m1 returns a^(2^n-1).
func (a Fe) pow2m1(n int) Fe {
	if n == 1 {
		return a
	}
	h := a.pow2m1(n / 2)
	r := h.sqrN(n / 2).Mul(h)
	if n%2 == 1 {
		r = r.Sqr().Mul(a)
	}
	return r
}

// Inv returns a^(p-2):  p-2 = 2^255-21 = (2^250-1)*2^5 + 11.
func (a Fe) Inv() Fe {
	r := a.pow2m1(250).sqrN(5)
	a2 := a.Sqr()
	a8 := a2.sqrN(2)
	return r.Mul(a8).Mul(a2).Mul(a)
}

// pow58 returns a^((p-5)/8) = a^(2^252-3) = a^((2^250-1)*4+1).
func (a Fe) Pow58() Fe { return a.pow2m1(250).sqrN(2).Mul(a) }

func (a Fe) IsZero() bool { return a == Zero }
func (a Fe) IsNeg() bool  { return a[0]&1 == 1 }
func (a Fe) Abs() Fe {
	if a.IsNeg() {
		return a.Neg()
	}
	return a
}

// IsSquare reports whether a is a square (zero included), by Euler.
func (a Fe) IsSquare() bool {
	// (p-1)/2 = 2^254-10 = (2^252-3)*4 + 2
	r := a.Pow58().sqrN(2).Mul(a.Sqr())
	return r == One || r == Zero
}

// SqrtM1 is the square root of -1 that is even ("non-negative").
var SqrtM1 = func() Fe {
	// 2 is a non-residue, so 2^((p-1)/4) is a root of -1.
	e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2)
	return FeInt(2).Pow(e).Abs()
}()

// SqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func SqrtRatio(u, v Fe) (bool, Fe) {
	v3 := v.Sqr().Mul(v)
	v7 := v3.Sqr().Mul(v)
	r := u.Mul(v3).Mul(u.Mul(v7).Pow58())
	check := v.Mul(r.Sqr())
	correct := check == u
	flipped := check == u.Neg()
	flippedI := check == u.Neg().Mul(SqrtM1)
	if flipped || flippedI {
		r = r.Mul(SqrtM1)
	}
	return correct || flipped, r.Abs()
}

// Sqrt returns the non-negative root of a, and whether a is a square.
func (a Fe) Sqrt() (Fe, bool) {
	ok, r := SqrtRatio(a, One)
	return r, ok
}
