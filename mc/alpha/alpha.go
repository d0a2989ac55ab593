// Package alpha defines the finite alphabets of values over which the spaces
// are products.  They are built from the structure of the number systems
// (limb radices, window widths, the primes and their neighbours), not from
// random draws; "generic" letters are hashes of fixed strings.
package alpha

import (
	"crypto/sha512"
	"fmt"
	"math/big"

	"verif/mc/ref"
)

type B32 = [32]byte

func Dedup(in []B32) []B32 {
	m := map[B32]bool{}
	var out []B32
	for _, b := range in {
		if !m[b] {
			m[b] = true
			out = append(out, b)
		}
	}
	return out
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// Le writes x mod 2^256 little endian.
func Le(x *big.Int) B32 {
	var m big.Int
	m.Mod(x, pow2(256))
	var b B32
	copy(b[:], ref.BigToLE(&m, 32))
	return b
}

// Hash returns a fixed generic 64-byte string.
func Hash(tag string, i int) [64]byte {
	return sha512.Sum512([]byte(fmt.Sprintf("verif/%s/%d", tag, i)))
}

func Gen32(tag string, i int) B32 {
	h := Hash(tag, i)
	var b B32
	copy(b[:], h[:32])
	return b
}

func add(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }

// SpecialFe are the distinguished residues of the curve, both signs.
func SpecialFe() []ref.Fe {
	var r []ref.Fe
	put := func(f ref.Fe) { r = append(r, f, f.Neg()) }
	i := ref.SqrtM1
	d := ref.D
	put(ref.Zero)
	put(ref.One)
	put(ref.FeInt(2))
	put(i)
	put(d)
	put(d.Inv())
	put(d.Add(ref.One))
	put(d.Sub(ref.One))
	put(ref.FeInt(486662))
	put(ref.SqrtADMinusOne)
	put(ref.InvSqrtAmD)
	put(ref.OneMinusDSq)
	put(ref.DMinusOneSq)
	for _, x := range []ref.Fe{i.Mul(d), i.Mul(d.Inv()), d.Add(ref.One), i, d, ref.FeInt(2).Mul(i), i.Add(ref.One), i.Sub(ref.One)} {
		for _, y := range []ref.Fe{x, x.Neg()} {
			if s, ok := y.Sqrt(); ok {
				put(s)
				put(s.Inv())
			}
		}
	}
	put(ref.Base.X)
	put(ref.Base.Y)
	t8 := ref.Torsion8.Affine()
	put(t8.X)
	put(t8.Y)
	return r
}

func limbs(widths []int, vals func(w int) []*big.Int) []B32 {
	var out []B32
	idx := make([]int, len(widths))
	for {
		x := new(big.Int)
		sh := 0
		for k, w := range widths {
			v := vals(w)
			x.Add(x, new(big.Int).Lsh(v[idx[k]], uint(sh)))
			sh += w
		}
		out = append(out, Le(x))
		k := 0
		for ; k < len(widths); k++ {
			idx[k]++
			if idx[k] < len(vals(widths[k])) {
				break
			}
			idx[k] = 0
		}
		if k == len(widths) {
			return out
		}
	}
}

func rep(n int, w ...int) []int {
	var r []int
	for len(r) < n {
		r = append(r, w...)
	}
	return r[:n]
}

// FeSmall: a few dozen decisive field inputs (255-bit strings, some non-canonical).
func FeSmall() []B32 {
	var r []B32
	p := ref.P
	for _, k := range []int64{0, 1, 2, 3, 8, 9, 16, 17, 18, 19, 20} {
		r = append(r, Le(big.NewInt(k)))
	}
	for _, k := range []int64{-20, -19, -18, -2, -1, 0, 1, 2, 17, 18} {
		r = append(r, Le(add(p, k)))
	}
	for _, e := range []int{26, 51, 64, 102, 128, 153, 192, 204, 230, 254} {
		r = append(r, Le(pow2(e)), Le(add(pow2(e), -1)), Le(new(big.Int).Sub(p, pow2(e))))
	}
	r = append(r, limbs(rep(5, 51), func(w int) []*big.Int { return []*big.Int{new(big.Int), add(pow2(w), -1)} })...)
	for i := 0; i < 6; i++ {
		b := Gen32("fe", i)
		b[31] &= 127
		r = append(r, b)
	}
	for _, f := range SpecialFe()[:12] {
		r = append(r, f.Bytes())
	}
	return Dedup(r)
}

// FeMed: a few hundred.
func FeMed() []B32 {
	r := FeSmall()
	p := ref.P
	for _, f := range SpecialFe() {
		r = append(r, f.Bytes())
	}
	for k := int64(-24); k <= 24; k++ {
		r = append(r, Le(add(p, k)), Le(big.NewInt(k+24)))
	}
	for e := 0; e < 255; e++ {
		r = append(r, Le(pow2(e)))
		if e%3 == 0 {
			r = append(r, Le(add(pow2(e), -1)), Le(new(big.Int).Sub(p, pow2(e))))
		}
	}
	r = append(r, limbs(rep(5, 51), func(w int) []*big.Int {
		return []*big.Int{new(big.Int), big.NewInt(1), add(pow2(w), -1)}
	})...)
	r = append(r, limbs(rep(4, 64), func(w int) []*big.Int { return []*big.Int{new(big.Int), add(pow2(w), -1)} })...)
	for i := 0; i < 16; i++ {
		r = append(r, Gen32("fe", i))
	}
	for i := range r {
		if i%1 == 0 && r[i][31] >= 128 {
			r[i][31] &= 127
		}
	}
	return Dedup(r)
}

// FeBig: several thousand; top bit patterns included.
func FeBig() []B32 {
	r := FeMed()
	p := ref.P
	for e := 0; e < 256; e++ {
		r = append(r, Le(pow2(e)), Le(add(pow2(e), -1)), Le(add(pow2(e), 1)), Le(new(big.Int).Sub(p, pow2(e))))
	}
	for i := 0; i <= 255; i += 5 {
		for j := 0; j < i; j += 7 {
			r = append(r, Le(new(big.Int).Sub(pow2(i), pow2(j))))
		}
	}
	for pos := 0; pos < 32; pos++ {
		for _, v := range []byte{1, 2, 4, 8, 16, 32, 64, 128, 127, 255, 254} {
			for _, bg := range []byte{0, 255} {
				var b B32
				for k := range b {
					b[k] = bg
				}
				b[pos] = v
				r = append(r, b)
			}
		}
	}
	r = append(r, limbs(rep(10, 26, 25), func(w int) []*big.Int { return []*big.Int{new(big.Int), add(pow2(w), -1)} })...)
	r = append(r, limbs(rep(10, 26, 25), func(w int) []*big.Int { return []*big.Int{add(pow2(w-1), -1), pow2(w - 1)} })...)
	r = append(r, limbs(rep(5, 51), func(w int) []*big.Int {
		return []*big.Int{new(big.Int), big.NewInt(1), add(pow2(w), -2), add(pow2(w), -1)}
	})...)
	r = append(r, limbs(rep(8, 32), func(w int) []*big.Int { return []*big.Int{new(big.Int), add(pow2(w), -1)} })...)
	for i := 0; i < 64; i++ {
		r = append(r, Gen32("fe", i))
	}
	n := len(r)
	for i := 0; i < n; i += 9 { // top bit set
		b := r[i]
		b[31] |= 128
		r = append(r, b)
	}
	return Dedup(r)
}

// red reduces modulo the group order.
func red(x *big.Int) B32 { return ref.RedScalar(x) }

// ScTiny, ScSmall, ScMed, ScBig are alphabets of reduced scalars.
func ScTiny() []B32 {
	l := ref.L
	half := new(big.Int).Rsh(l, 1)
	r := []B32{red(big.NewInt(0)), red(big.NewInt(1)), red(big.NewInt(2)), red(big.NewInt(16)), red(big.NewInt(31)),
		red(add(l, -1)), red(add(l, -2)), red(half), red(add(half, 1)),
		red(pow2(252)), red(add(pow2(252), -1)), red(add(pow2(252), 1)), red(pow2(128)), red(add(pow2(128), -1)),
		red(new(big.Int).Sub(l, pow2(252))), red(new(big.Int).Sub(pow2(252), pow2(21)))}
	for i := 0; i < 4; i++ {
		r = append(r, GenSc(i))
	}
	return Dedup(r)
}

func GenSc(i int) B32 {
	h := Hash("sc", i)
	return red(ref.LEToBig(h[:]))
}

func ScSmall() []B32 {
	l := ref.L
	r := ScTiny()
	for k := int64(0); k <= 20; k++ {
		r = append(r, red(big.NewInt(k)), red(big.NewInt(-k-1)))
	}
	for _, e := range []int{20, 21, 31, 32, 42, 63, 64, 84, 105, 126, 147, 168, 189, 210, 231, 251} {
		r = append(r, red(pow2(e)), red(add(pow2(e), -1)), red(new(big.Int).Sub(l, pow2(e))))
	}
	for k := int64(-3); k <= 3; k++ {
		r = append(r, red(add(pow2(252), k)), red(add(new(big.Int).Sub(l, pow2(252)), k)))
	}
	for i := 0; i < 8; i++ {
		r = append(r, GenSc(i))
	}
	return Dedup(r)
}

func periodic(w, v int) *big.Int {
	x := new(big.Int)
	for s := 0; s+w <= 252; s += w {
		x.Or(x, new(big.Int).Lsh(big.NewInt(int64(v)), uint(s)))
	}
	return x
}

func ScMed() []B32 {
	l := ref.L
	r := ScSmall()
	for e := 0; e < 253; e++ {
		r = append(r, red(pow2(e)))
		if e%2 == 0 {
			r = append(r, red(add(pow2(e), -1)), red(new(big.Int).Sub(l, pow2(e))))
		}
	}
	for v := 0; v < 32; v++ {
		r = append(r, red(periodic(5, v)))
		if v < 16 {
			r = append(r, red(periodic(4, v)))
		}
		r = append(r, red(periodic(10, v)), red(periodic(8, 8*v+7)))
	}
	r = append(r, limbsRed(rep(12, 21), 2)...)
	for i := 0; i < 32; i++ {
		r = append(r, GenSc(i))
	}
	return Dedup(r)
}

// limbsRed: 21-bit limb patterns with at most k limbs differing from an all-0 or all-max background.
func limbsRed(widths []int, k int) []B32 {
	var out []B32
	n := len(widths)
	for _, bg := range []int64{0, 1} {
		for mask := 0; mask < 1<<uint(n); mask++ {
			c := 0
			for b := 0; b < n; b++ {
				c += mask >> uint(b) & 1
			}
			if c > k {
				continue
			}
			x := new(big.Int)
			sh := 0
			for b, w := range widths {
				on := int64(mask>>uint(b)&1) ^ bg
				if on == 1 {
					x.Add(x, new(big.Int).Lsh(add(pow2(w), -1), uint(sh)))
				}
				sh += w
			}
			out = append(out, red(x))
		}
	}
	return out
}

// Limb21 are the n*21-bit integers whose 21-bit limbs all equal one of the
// extreme values (also around the rounding boundary 2^20), except for at most
// k (1 or 2) limbs that take any other extreme value.
func Limb21(n, k int) []*big.Int {
	vals := []int64{0, 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1}
	seen := map[string]bool{}
	var out []*big.Int
	l := make([]int64, n)
	put := func() {
		x := new(big.Int)
		for i := n - 1; i >= 0; i-- {
			x.Lsh(x, 21)
			x.Add(x, big.NewInt(l[i]))
		}
		if !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	for _, bg := range vals {
		for i := range l {
			l[i] = bg
		}
		put()
	}
	for _, bg := range vals {
		for i := range l {
			l[i] = bg
		}
		for i := range l {
			for _, v := range vals {
				l[i] = v
				if k == 1 {
					put()
					continue
				}
				for j := 0; j < i; j++ {
					for _, w := range vals {
						l[j] = w
						put()
					}
					l[j] = bg
				}
			}
			l[i] = bg
		}
	}
	return out
}

// Unreduced are integers from the group order up to 2^253 (the domain of the
// curve-level multiplications): the neighbourhoods of both ends, digit patterns, runs.
func Unreduced() []B32 {
	var r []B32
	top := pow2(253)
	put := func(x *big.Int) {
		if x.Cmp(ref.L) >= 0 && x.Cmp(top) < 0 {
			r = append(r, Le(x))
		}
	}
	for k := int64(0); k < 10; k++ {
		put(add(ref.L, k))
		put(add(top, -1-k))
	}
	for i := uint(0); i < 253; i += 4 {
		put(new(big.Int).Sub(top, pow2(int(i))))
		put(new(big.Int).Add(ref.L, pow2(int(i))))
		put(new(big.Int).Or(pow2(252), pow2(int(i))))
	}
	for _, w := range []int{4, 5} {
		for v := 1; v < 1<<uint(w); v++ {
			x := new(big.Int).And(periodic(w, v), add(pow2(252), -1))
			put(x.SetBit(x, 252, 1))
		}
	}
	return Dedup(r)
}

func ScBig() []B32 {
	l := ref.L
	r := ScMed()
	for i := 0; i <= 252; i++ {
		r = append(r, red(pow2(i)), red(add(pow2(i), -1)), red(add(pow2(i), 1)), red(new(big.Int).Sub(l, pow2(i))))
		for j := 0; j < i; j += 9 {
			r = append(r, red(new(big.Int).Sub(pow2(i), pow2(j))))
		}
	}
	// one window digit at a position: width 5 and 4
	for pos := 0; pos < 51; pos++ {
		for v := int64(1); v < 32; v++ {
			r = append(r, red(new(big.Int).Lsh(big.NewInt(v), uint(5*pos))))
		}
	}
	for pos := 0; pos < 63; pos++ {
		for v := int64(1); v < 16; v++ {
			r = append(r, red(new(big.Int).Lsh(big.NewInt(v), uint(4*pos))))
			r = append(r, red(new(big.Int).Xor(add(pow2(252), -1), new(big.Int).Lsh(big.NewInt(v), uint(4*pos)))))
		}
	}
	// periodic patterns with a foreign tail
	for v := 1; v < 32; v++ {
		for _, cut := range []int{10, 50, 100, 125, 200, 245, 250} {
			x := periodic(5, v)
			m := add(pow2(cut), -1)
			r = append(r, red(new(big.Int).And(x, m)), red(new(big.Int).AndNot(x, m)))
		}
	}
	r = append(r, limbsRed(rep(12, 21), 3)...)
	r = append(r, limbsRed(rep(8, 32)[:8], 4)...)
	for i := 0; i < 200; i++ {
		r = append(r, GenSc(i))
	}
	return Dedup(r)
}

// Raw32 are arbitrary 32-byte inputs for loaders (scalars and encodings).
func Raw32() []B32 {
	r := FeBig()
	l := ref.L
	for m := int64(1); m <= 16; m++ {
		for k := int64(-3); k <= 3; k++ {
			x := add(new(big.Int).Mul(l, big.NewInt(m)), k)
			if x.BitLen() <= 256 {
				r = append(r, Le(x))
			}
		}
	}
	for e := 250; e <= 256; e++ {
		for k := int64(-3); k <= 3; k++ {
			r = append(r, Le(add(pow2(e), k)))
		}
	}
	for _, s := range ScMed() {
		r = append(r, s)
		for _, top := range []byte{0x20, 0x40, 0x80, 0xe0} {
			t := s
			t[31] |= top
			r = append(r, t)
		}
	}
	// byte-wise boundaries of the order: agree with l up to byte pos, then differ
	lb := Le(l)
	for pos := 0; pos < 32; pos++ {
		for _, d := range []int{-1, 1} {
			t := lb
			t[pos] = byte(int(t[pos]) + d)
			r = append(r, t)
			for k := 0; k < pos; k++ {
				t[k] = 0
			}
			r = append(r, t)
			for k := 0; k < pos; k++ {
				t[k] = 255
			}
			r = append(r, t)
		}
	}
	return Dedup(r)
}
