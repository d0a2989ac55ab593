package ref

import (
	"crypto/sha512"
	"math/big"
)

// Curve -x^2+y^2 = 1+d x^2 y^2 with d = -121665/121666.
var (
	D           = FeInt(-121665).Mul(FeInt(121666).Inv())
	OneMinusDSq = One.Sub(D.Sqr())
	DMinusOneSq = D.Sub(One).Sqr()
	InvSqrtAmD  = func() Fe { _, r := SqrtRatio(One, FeInt(-1).Sub(D)); return r }()
	// SQRT_AD_MINUS_ONE is sqrt(a*d-1) = sqrt(-d-1); RFC 9496 fixes the root
	// which is odd ("negative"): 2506306895336...; checked in SelfTest.
	SqrtADMinusOne = func() Fe { r, _ := D.Neg().Sub(One).Sqrt(); return r.Neg() }()
)

// L is the order of the group.
var L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// Pt is a point on the curve in plain projective coordinates.
type Pt struct{ X, Y, Z Fe }

var Ident = Pt{Zero, One, One}

// Base is the point with y=4/5 and non-negative x.
var Base = func() Pt {
	y := FeInt(4).Mul(FeInt(5).Inv())
	return LiftY(y)
}()

// LiftY returns (x,y) with x >= 0; panics if y is not on the curve.
func LiftY(y Fe) Pt {
	y2 := y.Sqr()
	ok, x := SqrtRatio(y2.Sub(One), D.Mul(y2).Add(One))
	if !ok {
		panic("ref: not on curve")
	}
	return Pt{x, y, One}
}

// YOnCurve reports whether some (x,y) is on the curve.
func YOnCurve(y Fe) bool {
	y2 := y.Sqr()
	ok, _ := SqrtRatio(y2.Sub(One), D.Mul(y2).Add(One))
	return ok
}

// Torsion8 is a point of order 8, and T4 its double's order 4 subgroup generator (i,0).
var Torsion8 = func() Pt {
	// l*Q for a point Q with non-trivial 8-torsion component.
	for i := int64(2); ; i++ {
		y := FeInt(i)
		if !YOnCurve(y) {
			continue
		}
		q := LiftY(y).MulBig(L)
		if q.Dbl().Dbl() != (Pt{}) && !q.Dbl().Dbl().IsIdent() {
			return q.Affine()
		}
	}
}()

// Torsion4 lists the four points which are equivalent to the identity.
var Torsion4 = [4]Pt{
	{Zero, One, One},
	{Zero, FeInt(-1), One},
	{SqrtM1, Zero, One},
	{SqrtM1.Neg(), Zero, One},
}

func (p Pt) OnCurve() bool {
	if p.Z.IsZero() {
		return false
	}
	x2, y2, z2 := p.X.Sqr(), p.Y.Sqr(), p.Z.Sqr()
	return y2.Sub(x2).Mul(z2) == z2.Sqr().Add(D.Mul(x2).Mul(y2))
}

// Add is the complete addition law (a=-1 square, d non-square), add-2008-bbjlp.
func (p Pt) Add(q Pt) Pt {
	a := p.Z.Mul(q.Z)
	b := a.Sqr()
	c := p.X.Mul(q.X)
	d := p.Y.Mul(q.Y)
	e := D.Mul(c).Mul(d)
	f := b.Sub(e)
	g := b.Add(e)
	x := a.Mul(f).Mul(p.X.Add(p.Y).Mul(q.X.Add(q.Y)).Sub(c).Sub(d))
	y := a.Mul(g).Mul(d.Add(c))
	return Pt{x, y, f.Mul(g)}
}

// Dbl is dbl-2008-bbjlp; SelfTest compares it with Add.
func (p Pt) Dbl() Pt {
	b := p.X.Add(p.Y).Sqr()
	c := p.X.Sqr()
	d := p.Y.Sqr()
	f := d.Sub(c)
	h := p.Z.Sqr()
	j := f.Sub(h).Sub(h)
	return Pt{b.Sub(c).Sub(d).Mul(j), f.Mul(c.Add(d)).Neg(), f.Mul(j)}
}
func (p Pt) Neg() Pt { return Pt{p.X.Neg(), p.Y, p.Z} }
func (p Pt) Sub(q Pt) Pt {
	return p.Add(q.Neg())
}

// Eq is equality as curve points.
func (p Pt) Eq(q Pt) bool {
	return p.X.Mul(q.Z) == q.X.Mul(p.Z) && p.Y.Mul(q.Z) == q.Y.Mul(p.Z)
}
func (p Pt) IsIdent() bool { return p.Eq(Ident) }

func (p Pt) Affine() Pt {
	zi := p.Z.Inv()
	return Pt{p.X.Mul(zi), p.Y.Mul(zi), One}
}

// Scale multiplies all coordinates by m != 0.
func (p Pt) Scale(m Fe) Pt { return Pt{p.X.Mul(m), p.Y.Mul(m), p.Z.Mul(m)} }

// MulBig returns n*p, n >= 0: plain unsigned 4-bit windows.
func (p Pt) MulBig(n *big.Int) Pt {
	var tab [16]Pt
	tab[0] = Ident
	for i := 1; i < 16; i++ {
		tab[i] = tab[i-1].Add(p)
	}
	r := Ident
	for i := (n.BitLen() + 3) / 4; i > 0; i-- {
		r = r.Dbl().Dbl().Dbl().Dbl()
		k := 4 * (i - 1)
		w := n.Bit(k) | n.Bit(k+1)<<1 | n.Bit(k+2)<<2 | n.Bit(k+3)<<3
		if w != 0 {
			r = r.Add(tab[w])
		}
	}
	return r
}

// MulSlow is double-and-add with the addition law only (SelfTest).
func (p Pt) MulSlow(n *big.Int) Pt {
	r := Ident
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if n.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// MulBytes returns s*p with s little endian.
func (p Pt) MulBytes(s []byte) Pt { return p.MulBig(LEToBig(s)) }

// REq is equality as ristretto255 elements: equal up to 4-torsion.
func (p Pt) REq(q Pt) bool {
	for _, t := range Torsion4 {
		if p.Add(t).Eq(q) {
			return true
		}
	}
	return false
}

// Encode is ENCODE of RFC 9496 (4.3.2).
func (p Pt) Encode() [32]byte {
	// extended coordinates of the same point
	x0, y0, z0, t0 := p.X.Mul(p.Z), p.Y.Mul(p.Z), p.Z.Sqr(), p.X.Mul(p.Y)
	u1 := z0.Add(y0).Mul(z0.Sub(y0))
	u2 := x0.Mul(y0)
	_, isr := SqrtRatio(One, u1.Mul(u2.Sqr()))
	den1, den2 := isr.Mul(u1), isr.Mul(u2)
	zinv := den1.Mul(den2).Mul(t0)
	ix0, iy0 := x0.Mul(SqrtM1), y0.Mul(SqrtM1)
	ench := den1.Mul(InvSqrtAmD)
	x, y, den := x0, y0, den2
	if t0.Mul(zinv).IsNeg() {
		x, y, den = iy0, ix0, ench
	}
	if x.Mul(zinv).IsNeg() {
		y = y.Neg()
	}
	return den.Mul(z0.Sub(y)).Abs().Bytes()
}

// Decode is DECODE of RFC 9496 (4.3.1).
func Decode(b [32]byte) (Pt, bool) {
	s := FeRaw(b)
	if s.canon() != s || s.IsNeg() {
		return Pt{}, false
	}
	ss := s.Sqr()
	u1, u2 := One.Sub(ss), One.Add(ss)
	u2s := u2.Sqr()
	v := D.Mul(u1.Sqr()).Neg().Sub(u2s)
	ok, isr := SqrtRatio(One, v.Mul(u2s))
	dx := isr.Mul(u2)
	dy := isr.Mul(dx).Mul(v)
	x := s.Add(s).Mul(dx).Abs()
	y := u1.Mul(dy)
	t := x.Mul(y)
	if !ok || t.IsNeg() || y.IsZero() {
		return Pt{}, false
	}
	return Pt{x, y, One}, true
}

// Map is MAP of RFC 9496 (4.3.4) on a reduced field element.
func Map(t Fe) Pt {
	r := SqrtM1.Mul(t.Sqr())
	u := r.Add(One).Mul(OneMinusDSq)
	v := FeInt(-1).Sub(r.Mul(D)).Mul(r.Add(D))
	ok, s := SqrtRatio(u, v)
	c := FeInt(-1)
	if !ok {
		s = s.Mul(t).Abs().Neg()
		c = r
	}
	n := c.Mul(r.Sub(One)).Mul(DMinusOneSq).Sub(v)
	w0 := s.Add(s).Mul(v)
	w1 := n.Mul(SqrtADMinusOne)
	ss := s.Sqr()
	w2, w3 := One.Sub(ss), One.Add(ss)
	return Pt{w0.Mul(w3), w2.Mul(w1), w1.Mul(w3)}
}

// MapBytes applies Map to 32 bytes, ignoring the top bit.
func MapBytes(b [32]byte) Pt { return Map(FeBytes(b)) }

// Derive, DeriveDalek: hash to group.
func Derive(b []byte) Pt {
	h := sha512.Sum512(b)
	var x [32]byte
	copy(x[:], h[:32])
	return MapBytes(x)
}
func DeriveDalek(b []byte) Pt {
	h := sha512.Sum512(b)
	var x, y [32]byte
	copy(x[:], h[:32])
	copy(y[:], h[32:])
	return MapBytes(x).Add(MapBytes(y))
}

// Preimages returns all non-negative t with Map(t) in the class of p (p in 2E).
//
// With (s,tau) the quartic point behind Map(t) (y=(1-s^2)/(1+s^2),
// x = 2s/(tau*sqrt(ad-1))) one has k := (tau+1)(d+1)/((d-1)s^2) = +-(r-1)/(r+1),
// so r is (1+k)/(1-k) or its inverse, and t^2 = r/i.  Exceptional t (s=0 or a
// vanishing denominator) are always tried.  Every candidate is verified with Map.
func Preimages(p Pt) []Fe {
	var cand []Fe
	addR := func(r Fe) {
		q, ok := r.Mul(SqrtM1.Neg()).Sqrt() // r/i = -i r
		if ok {
			cand = append(cand, q)
		}
	}
	addR(Zero)
	addR(D.Neg())
	addR(D.Inv().Neg())
	addR(One)
	addR(One.Neg())
	for _, tor := range Torsion4 {
		q := p.Add(tor).Affine()
		x, y := q.X, q.Y
		if y == One.Neg() {
			continue // no finite quartic point
		}
		s2 := One.Sub(y).Mul(One.Add(y).Inv())
		s, ok := s2.Sqrt()
		if !ok || s.IsZero() {
			continue
		}
		for _, ss := range []Fe{s, s.Neg()} {
			var taus []Fe
			if x.IsZero() {
				continue
			}
			taus = append(taus, ss.Add(ss).Mul(x.Mul(SqrtADMinusOne).Inv()))
			for _, tau := range taus {
				k := tau.Add(One).Mul(D.Add(One)).Mul(D.Sub(One).Mul(s2).Inv())
				for _, kk := range []Fe{k, k.Neg()} {
					den := One.Sub(kk)
					if den.IsZero() {
						continue
					}
					addR(One.Add(kk).Mul(den.Inv()))
				}
			}
		}
	}
	var out []Fe
	seen := map[Fe]bool{}
	for _, c := range cand {
		if !seen[c] && Map(c).REq(p) {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// RedScalar returns x mod l as 32 bytes.
func RedScalar(x *big.Int) [32]byte {
	var m big.Int
	m.Mod(x, L)
	var b [32]byte
	copy(b[:], BigToLE(&m, 32))
	return b
}
