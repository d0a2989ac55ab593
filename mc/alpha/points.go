package alpha

import (
	"math/big"

	"verif/mc/ref"
)

// PtsSmall: a dozen structurally different group elements (as curve points in 2E).
func PtsSmall() []ref.Pt {
	b := ref.Base
	r := []ref.Pt{
		ref.Ident, b, b.Neg(), b.Dbl(), b.MulBig(big.NewInt(3)),
		b.MulBig(add(ref.L, -2)),
		b.MulBig(new(big.Int).Rsh(add(ref.L, 1), 1)),
		ref.Map(ref.One), ref.MapBytes(Gen32("pt", 0)), ref.MapBytes(Gen32("pt", 1)),
	}
	for i, v := range EncSmall() {
		if i >= 4 {
			break
		}
		p, _ := ref.Decode(v)
		r = append(r, p)
	}
	for i := range r {
		r[i] = r[i].Affine()
	}
	return r
}

// EncSmall lists the numerically smallest and largest valid encodings.
func EncSmall() []B32 {
	var r []B32
	for i, n := int64(2), 0; n < 6; i += 2 {
		b := ref.FeInt(i).Bytes()
		if _, ok := ref.Decode(b); ok {
			r = append(r, b)
			n++
		}
		c := ref.FeInt(-i - 1).Bytes()
		if _, ok := ref.Decode(c); ok {
			r = append(r, c)
			n++
		}
	}
	return r
}

// PtsMed: several dozen.
func PtsMed() []ref.Pt {
	r := PtsSmall()
	b := ref.Base
	q := ref.Ident
	for k := 0; k < 18; k++ {
		r = append(r, q.Affine())
		q = q.Add(b)
	}
	for _, e := range []int{4, 5, 8, 51, 64, 128, 200, 251, 252} {
		r = append(r, b.MulBig(pow2(e)).Affine(), b.MulBig(add(pow2(e), -1)).Affine())
	}
	for _, v := range EncSmall() {
		p, _ := ref.Decode(v)
		r = append(r, p)
	}
	for i, f := range SpecialFe() {
		if i%2 == 0 {
			r = append(r, ref.Map(f).Affine())
		}
	}
	for i := 0; i < 12; i++ {
		r = append(r, ref.MapBytes(Gen32("pt", i)).Affine())
	}
	// extreme affine coordinates: smallest y and x on the curve, doubled into 2E
	for i, n := int64(2), 0; n < 6; i++ {
		if ref.YOnCurve(ref.FeInt(i)) {
			r = append(r, ref.LiftY(ref.FeInt(i)).Dbl().Affine())
			n++
		}
	}
	return DedupPts(r)
}

// DedupPts removes equal curve points.
func DedupPts(in []ref.Pt) []ref.Pt {
	m := map[ref.Pt]bool{}
	var out []ref.Pt
	for _, p := range in {
		if !m[p] {
			m[p] = true
			out = append(out, p)
		}
	}
	return out
}

// Targets are the extreme values that a scaling forces some coordinate to.
func Targets() []ref.Fe {
	var r []ref.Fe
	one := big.NewInt(1)
	for _, x := range []*big.Int{
		one, big.NewInt(19), add(ref.P, -1), add(ref.P, -19),
		add(pow2(51), -1), new(big.Int).Sub(pow2(254), one), pow2(254),
		new(big.Int).Sub(add(pow2(255), -1), pow2(51)), // all limbs max but the second
		periodic26(), ref.LEToBig(b127()),
	} {
		r = append(r, ref.FeBig(x))
	}
	return r
}

func b127() []byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = 0x80
	}
	b[31] = 0x40
	return b
}

func periodic26() *big.Int {
	x := new(big.Int)
	sh := 0
	for i := 0; i < 10; i++ {
		w := 26 - i%2
		x.Add(x, new(big.Int).Lsh(add(pow2(w-1), -1), uint(sh)))
		sh += w
	}
	return x
}

// Scalings returns projective factors for the affine point p such that, one
// after the other, X, Y, Z, T, Y-X, Y+X, Z-Y and Z+Y take the target values.
func Scalings(p ref.Pt, targets []ref.Fe) []ref.Fe {
	t := p.X.Mul(p.Y)
	var r []ref.Fe
	m := map[ref.Fe]bool{}
	put := func(f ref.Fe) {
		if !f.IsZero() && !m[f] {
			m[f] = true
			r = append(r, f)
		}
	}
	put(ref.One)
	for _, c := range []ref.Fe{p.X, p.Y, ref.One, t, p.Y.Sub(p.X), p.Y.Add(p.X), ref.One.Sub(p.Y), ref.One.Add(p.Y)} {
		if c.IsZero() {
			continue
		}
		ci := c.Inv()
		for _, tg := range targets {
			put(tg.Mul(ci))
		}
	}
	return r
}

// CoordCount is the number of letters of CoordPoint.
func CoordCount() int { return 4 * (len(feBigOnce()) + 32*255) }

var feBigMemo []B32

func feBigOnce() []B32 {
	if feBigMemo == nil {
		feBigMemo = FeBig()
	}
	return feBigMemo
}

// CoordPoint returns the even curve point of which the affine x (or y) is the i-th pattern (a letter of the field
// alphabet, or a single non-zero byte; or the negative of one), if there is one.
func CoordPoint(i int) (p ref.Pt, ok bool) {
	kind := i % 4
	i /= 4
	var f ref.Fe
	if l := feBigOnce(); i < len(l) {
		f = ref.FeBytes(l[i])
	} else {
		i -= len(l)
		f = ref.FeBig(new(big.Int).Lsh(big.NewInt(int64(i%255+1)), uint(i/255)*8))
	}
	if kind&1 != 0 {
		f = f.Neg()
	}
	var y ref.Fe
	if kind&2 != 0 {
		// -x^2 + y^2 = 1 + d x^2 y^2, so y^2 = (1+x^2) / (1-d x^2)
		x2 := f.Sqr()
		sq, r := ref.SqrtRatio(ref.One.Add(x2), ref.One.Sub(ref.D.Mul(x2)))
		if !sq {
			return p, false
		}
		p, y = ref.Pt{X: f, Y: r, Z: ref.One}, r
	} else {
		if !ref.YOnCurve(f) {
			return p, false
		}
		p, y = ref.LiftY(f), f
	}
	if !p.OnCurve() {
		panic("not on the curve")
	}
	// even exactly if 1 - y^2 is a square
	if s := ref.One.Sub(y.Sqr()); !s.IsZero() && !s.IsSquare() {
		return p, false
	}
	return p, true
}
