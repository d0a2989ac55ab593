// Package clprops decides C20: the whole interface of the C library against the reference model.
package clprops

import (
	"fmt"
	"math/big"

	"verif/mc/alpha"
	"verif/mc/clib"
	"verif/mc/eng"
	"verif/mc/ref"
)

type (
	B32 = [32]byte
	Sc  = clib.Sc
	Fe  = clib.Fe
	Ge  = clib.Ge
)

func fe(v ref.Fe) *Fe {
	b := v.Bytes()
	f := new(Fe)
	f.Unpack(&b)
	return f
}

func val(f *Fe) ref.Fe {
	var b B32
	f.Pack(&b)
	return ref.FeBytes(b)
}

func sc(b B32) *Sc {
	s := new(Sc)
	s.Unpack(&b)
	return s
}

func scb(s *Sc) B32 {
	var b B32
	s.Pack(&b)
	return b
}

func mk(p ref.Pt, m ref.Fe) *Ge {
	p = p.Affine()
	g := new(Ge)
	*g.X() = *fe(p.X.Mul(m))
	*g.Y() = *fe(p.Y.Mul(m))
	*g.Z() = *fe(m)
	*g.T() = *fe(p.X.Mul(p.Y).Mul(m))
	return g
}

// isPt checks that g is a well-formed representative of the element of want.
func isPt(what string, g *Ge, want ref.Pt) error {
	p := ref.Pt{X: val(g.X()), Y: val(g.Y()), Z: val(g.Z())}
	t := val(g.T())
	if p.Z.IsZero() || !p.OnCurve() || p.X.Mul(p.Y) != p.Z.Mul(t) {
		return fmt.Errorf("%s: result is not a well-formed point (expected element %x)", what, want.Encode())
	}
	if !p.REq(want) {
		return fmt.Errorf("%s: wrong element: got %x, expected %x", what, p.Encode(), want.Encode())
	}
	e := want.Encode()
	eng.State(e[:])
	return nil
}

func isSc(what string, s *Sc, want *big.Int) error {
	g, w := scb(s), ref.RedScalar(want)
	eng.State(g[:])
	if g != w {
		return fmt.Errorf("%s = %x, expected %x", what, g, w)
	}
	return nil
}

func isFe(what string, f *Fe, want ref.Fe) error {
	var b B32
	f.Pack(&b)
	w := want.Bytes()
	eng.State(b[:])
	if b != w {
		return fmt.Errorf("%s = %x, expected %x", what, b, w)
	}
	return nil
}

func flag(what string, got int, want bool) error {
	if got != 0 && got != 1 || (got == 1) != want {
		return fmt.Errorf("%s = %d, expected %v", what, got, want)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func reps(pts []ref.Pt, nt int) (ps []ref.Pt, ms []ref.Fe) {
	for _, p := range pts {
		for _, t := range ref.Torsion4 {
			q := p.Add(t).Affine()
			for _, m := range alpha.Scalings(q, alpha.Targets()[:nt]) {
				ps = append(ps, q)
				ms = append(ms, m)
			}
		}
	}
	return
}

func reg(name, bound string, mk func(tier string) (uint64, func(uint64) error)) {
	eng.Register(eng.Space{Prop: "C20", Name: name, Bound: bound, Make: mk})
}

// digits checks a signed recoding: the digits weigh in to s and lie in [lo,hi].
func digits(what string, d []int8, w uint, lo, hi int8, s *big.Int) error {
	x := new(big.Int)
	for i := len(d) - 1; i >= 0; i-- {
		x.Lsh(x, w)
		x.Add(x, big.NewInt(int64(d[i])))
		if d[i] < lo || d[i] > hi {
			return fmt.Errorf("%s: digit %d is %d", what, i, d[i])
		}
	}
	if x.Cmp(s) != 0 {
		return fmt.Errorf("%s: digits add up to %v, expected %v", what, x, s)
	}
	return nil
}

func scalarUnary(b B32) error {
	s := sc(b)
	x := ref.LEToBig(b[:])
	if err := isSc("unpacked scalar", s, x); err != nil {
		return err
	}
	eng.Sample("C20/scalar-unary", "%x", b)
	var r Sc
	eng.Op(8)
	one := big.NewInt(1)
	r.Neg(s)
	if err := isSc("negate", &r, new(big.Int).Neg(x)); err != nil {
		return err
	}
	r.Square(s)
	if err := isSc("square", &r, new(big.Int).Mul(x, x)); err != nil {
		return err
	}
	r.Invert(s)
	inv := new(big.Int).ModInverse(x, ref.L)
	if inv == nil {
		inv = new(big.Int)
	}
	if err := isSc("invert", &r, inv); err != nil {
		return err
	}
	for k, f := range []func(r *Sc){func(r *Sc) { r.Neg(r) }, func(r *Sc) { r.Square(r) }, func(r *Sc) { r.Invert(r) }} {
		r = *s
		f(&r)
		if err := isSc([]string{"negate", "square", "invert"}[k]+" in place", &r, []*big.Int{new(big.Int).Neg(x), new(big.Int).Mul(x, x), inv}[k]); err != nil {
			return err
		}
	}
	if err := first(flag("isone", s.IsOne(), x.Cmp(one) == 0), flag("iszero", s.IsZero(), x.Sign() == 0), flag("equals itself", s.Equals(s), true)); err != nil {
		return err
	}
	for i := 0; i < 256; i++ {
		if g := s.TstBit(uint(i)); g != int(x.Bit(i)) {
			return fmt.Errorf("bit %d = %d, expected %d", i, g, x.Bit(i))
		}
	}
	if g := s.BitLen(); g != x.BitLen() {
		return fmt.Errorf("bitlen = %d, expected %d", g, x.BitLen())
	}
	var w3 [85]int8
	s.Window3(&w3)
	if err := digits("window3", w3[:], 3, -4, 4, x); err != nil {
		return err
	}
	var w5 [51]int8
	s.Window5(&w5)
	if err := digits("window5", w5[:], 5, -16, 16, x); err != nil {
		return err
	}
	for w := 2; w <= 6; w++ {
		var d [256]int8
		s.Slide(&d, w)
		m := int8(1<<uint(w-1) - 1)
		if err := digits(fmt.Sprintf("slide %d", w), d[:], 1, -m, m, x); err != nil {
			return err
		}
		for i, v := range d {
			if v&1 == 0 && v != 0 {
				return fmt.Errorf("slide %d: digit %d is the even number %d", w, i, v)
			}
		}
	}
	return isSc("operand afterwards", s, x)
}

func init() {
	reg("constants", "the exported constants and the functions without operands",
		func(tier string) (uint64, func(uint64) error) {
			return 1, func(uint64) error {
				var errs []error
				i := ref.SqrtM1
				for k, w := range []ref.Fe{ref.Zero, ref.One, ref.FeInt(2), i, i.Neg(), ref.One.Neg()} {
					c := clib.FeConsts()[k]
					errs = append(errs, isFe(fmt.Sprintf("field constant %d", k), &c, w))
				}
				z, o := clib.ScZero(), clib.ScOne()
				errs = append(errs, isSc("group_scalar_zero", &z, new(big.Int)), isSc("group_scalar_one", &o, big.NewInt(1)))
				s := sc(alpha.GenSc(3))
				s.SetZero()
				errs = append(errs, isSc("setzero", s, new(big.Int)))
				s = sc(alpha.GenSc(3))
				s.SetOne()
				errs = append(errs, isSc("setone", s, big.NewInt(1)))
				f := fe(ref.FeBytes(alpha.Gen32("c20", 0)))
				f.SetZero()
				errs = append(errs, isFe("fe setzero", f, ref.Zero))
				f = fe(ref.FeBytes(alpha.Gen32("c20", 0)))
				f.SetOne()
				errs = append(errs, isFe("fe setone", f, ref.One))
				g, n := clib.GeBase(), clib.GeNeutral()
				errs = append(errs, isPt("group_ge_base", &g, ref.Base), isPt("group_ge_neutral", &n, ref.Ident))
				return first(errs...)
			}
		})
	reg("scalar-unary", "negate, square, invert, isone, iszero, bit tests, bit length, both window recodings and the sliding windows of every width from 2 to 6 on every scalar of the recoding alphabet, also in place",
		func(tier string) (uint64, func(uint64) error) {
			a := alpha.ScBig()
			n := eng.Pick(tier, 2000, 40000)
			return uint64(len(a) + 2*n), func(i uint64) error {
				if int(i) < len(a) {
					return scalarUnary(a[i])
				}
				k := big.NewInt(int64(i) - int64(len(a)) - int64(n))
				return scalarUnary(ref.RedScalar(k))
			}
		})
	reg("scalar-pairs", "add, sub, mul and equals on all pairs of the carry-complete alphabet, in every aliasing of destination and operands",
		func(tier string) (uint64, func(uint64) error) {
			a := eng.Pick(tier, alpha.ScMed(), alpha.ScBig())
			bs := alpha.ScMed()
			return eng.Prod(len(a), len(bs)), func(i uint64) error {
				d := eng.Digits(i, len(a), len(bs))
				x, y := a[d[0]], bs[d[1]]
				X, Y := ref.LEToBig(x[:]), ref.LEToBig(y[:])
				s, t := sc(x), sc(y)
				id := fmt.Sprintf("x=%x y=%x", x, y)
				ops := []struct {
					n string
					f func(r, a, b *Sc)
					w *big.Int
				}{
					{"x+y", func(r, a, b *Sc) { r.Add(a, b) }, new(big.Int).Add(X, Y)},
					{"x-y", func(r, a, b *Sc) { r.Sub(a, b) }, new(big.Int).Sub(X, Y)},
					{"x*y", func(r, a, b *Sc) { r.Mul(a, b) }, new(big.Int).Mul(X, Y)},
				}
				for _, o := range ops {
					eng.Op(3)
					var r Sc
					o.f(&r, s, t)
					u, v := *s, *t
					o.f(&u, &u, t)
					o.f(&v, s, &v)
					if err := first(isSc(o.n+" "+id, &r, o.w), isSc(o.n+" into x "+id, &u, o.w), isSc(o.n+" into y "+id, &v, o.w)); err != nil {
						return err
					}
				}
				if err := flag("equals "+id, s.Equals(t), x == y); err != nil {
					return err
				}
				if d[0] == d[1] && x == y {
					for k, o := range ops {
						u := *s
						o.f(&u, &u, &u)
						if err := isSc(ops[k].n+" in place with y=x "+id, &u, o.w); err != nil {
							return err
						}
					}
				}
				return first(isSc("first operand", s, X), isSc("second operand", t, Y))
			}
		})
	reg("scalar-near", "equals, iszero and isone on scalars which differ in exactly one bit, for every bit",
		func(tier string) (uint64, func(uint64) error) {
			a := alpha.ScSmall()
			return eng.Prod(len(a), 253), func(i uint64) error {
				d := eng.Digits(i, len(a), 253)
				x := a[d[0]]
				y := x
				y[d[1]/8] ^= 1 << uint(d[1]%8)
				if ref.LEToBig(y[:]).Cmp(ref.L) >= 0 {
					return nil
				}
				s, t := sc(x), sc(y)
				Y := ref.LEToBig(y[:])
				return first(flag(fmt.Sprintf("equals %x %x", x, y), s.Equals(t), false),
					flag(fmt.Sprintf("iszero %x", y), t.IsZero(), Y.Sign() == 0), flag(fmt.Sprintf("isone %x", y), t.IsOne(), Y.IsInt64() && Y.Int64() == 1))
			}
		})
	reg("scalar-wide", "reduction of 64-byte strings: all pairs of lower and upper halves from the field-input alphabet, and q*l+e for multiples q up to the largest quotient and small e",
		func(tier string) (uint64, func(uint64) error) {
			lo := eng.Pick(tier, alpha.FeSmall(), alpha.FeMed())
			hi := alpha.Raw32()
			var near [][64]byte
			top := new(big.Int).Lsh(big.NewInt(1), 512)
			qmax := new(big.Int).Div(top, ref.L)
			for sh := 0; sh <= 260; sh++ {
				for _, q := range []*big.Int{new(big.Int).Rsh(qmax, uint(sh)), new(big.Int).Lsh(big.NewInt(1), uint(sh))} {
					for e := int64(-3); e <= 3; e++ {
						x := new(big.Int).Mul(q, ref.L)
						x.Add(x, big.NewInt(e))
						if x.Sign() >= 0 && x.Cmp(top) < 0 {
							var b [64]byte
							copy(b[:], ref.BigToLE(x, 64))
							near = append(near, b)
						}
					}
				}
			}
			return eng.Prod(len(lo), len(hi)) + uint64(len(near)), func(i uint64) error {
				var b [64]byte
				if i < uint64(len(near)) {
					b = near[i]
				} else {
					d := eng.Digits(i-uint64(len(near)), len(lo), len(hi))
					copy(b[:], lo[d[0]][:])
					copy(b[32:], hi[d[1]][:])
				}
				in := b
				var r Sc
				eng.Op(1)
				r.From64(&b)
				if b != in {
					return fmt.Errorf("from64bytes modified its input")
				}
				return isSc(fmt.Sprintf("from64bytes(%x)", b), &r, ref.LEToBig(b[:]))
			}
		})
	reg("scalar-histories", "all sequences of length D of scalar operations over two registers",
		func(tier string) (uint64, func(uint64) error) {
			type op struct {
				n string
				f func(r *[2]Sc, m *[2]*big.Int)
			}
			var ops []op
			for d := 0; d < 2; d++ {
				d := d
				ops = append(ops,
					op{fmt.Sprintf("r%d=r0+r1", d), func(r *[2]Sc, m *[2]*big.Int) { r[d].Add(&r[0], &r[1]); m[d] = new(big.Int).Add(m[0], m[1]) }},
					op{fmt.Sprintf("r%d=r0-r1", d), func(r *[2]Sc, m *[2]*big.Int) { r[d].Sub(&r[0], &r[1]); m[d] = new(big.Int).Sub(m[0], m[1]) }},
					op{fmt.Sprintf("r%d=r0*r1", d), func(r *[2]Sc, m *[2]*big.Int) { r[d].Mul(&r[0], &r[1]); m[d] = new(big.Int).Mul(m[0], m[1]) }},
					op{fmt.Sprintf("r%d=-r%d", d, 1-d), func(r *[2]Sc, m *[2]*big.Int) { r[d].Neg(&r[1-d]); m[d] = new(big.Int).Neg(m[1-d]) }},
					op{fmt.Sprintf("r%d=r%d^2", d, d), func(r *[2]Sc, m *[2]*big.Int) { r[d].Square(&r[d]); m[d] = new(big.Int).Mul(m[d], m[d]) }},
				)
			}
			depth := eng.Pick(tier, 4, 5)
			rad := []int{4}
			for k := 0; k < depth; k++ {
				rad = append(rad, len(ops))
			}
			t := alpha.ScSmall()
			return eng.Prod(rad...), func(i uint64) error {
				ds := eng.Digits(i, rad...)
				a, b := t[ds[0]*29%len(t)], t[(ds[0]*41+3)%len(t)]
				r := [2]Sc{*sc(a), *sc(b)}
				m := [2]*big.Int{ref.LEToBig(a[:]), ref.LEToBig(b[:])}
				h := ""
				for _, k := range ds[1:] {
					ops[k].f(&r, &m)
					h += ops[k].n + "; "
					eng.Op(1)
					for j := range r {
						m[j] = new(big.Int).Mod(m[j], ref.L)
						if err := isSc(fmt.Sprintf("from %x,%x: %sr%d", a, b, h, j), &r[j], m[j]); err != nil {
							return err
						}
					}
				}
				return nil
			}
		})
	reg("field-unary", "every unary field function on every letter of the field alphabet and its special values, in place where the library allows it",
		func(tier string) (uint64, func(uint64) error) {
			in := append([]B32{}, alpha.Raw32()...)
			for _, f := range alpha.SpecialFe() {
				in = append(in, f.Bytes(), f.Neg().Bytes())
			}
			return uint64(len(in)), func(i uint64) error { return fieldUnary(ref.FeBytes(in[i])) }
		})
	reg("field-pairs", "add, sub, mul, comparisons and conditional moves on all pairs of the field alphabet, in every aliasing, and products of the unreduced sums and differences",
		func(tier string) (uint64, func(uint64) error) {
			a := alpha.FeMed()
			if eng.Full(tier) {
				a = alpha.FeBig()
			}
			bs := alpha.FeMed()
			return eng.Prod(len(a), len(bs)), func(i uint64) error {
				d := eng.Digits(i, len(a), len(bs))
				return fieldPair(ref.FeBytes(a[d[0]]), ref.FeBytes(bs[d[1]]))
			}
		})
	reg("field-near", "comparisons of field elements which differ by plus or minus one power of two, for every power",
		func(tier string) (uint64, func(uint64) error) {
			a := alpha.FeMed()
			return eng.Prod(len(a), 255, 2), func(i uint64) error {
				d := eng.Digits(i, len(a), 255, 2)
				x := ref.FeBytes(a[d[0]])
				p := ref.FeBig(new(big.Int).Lsh(big.NewInt(1), uint(d[1])))
				y := x.Add(p)
				if d[2] == 1 {
					y = x.Sub(p)
				}
				f, g := fe(x), fe(y)
				eng.Op(3)
				return first(flag(fmt.Sprintf("iseq(%x,%x)", x.Bytes(), y.Bytes()), f.IsEq(g), false),
					flag(fmt.Sprintf("iseq_vartime(%x,%x)", x.Bytes(), y.Bytes()), f.IsEqVartime(g), false),
					flag(fmt.Sprintf("iszero(%x)", y.Bytes()), g.IsZero(), y.IsZero()), flag(fmt.Sprintf("isone(%x)", y.Bytes()), g.IsOne(), y == ref.One))
			}
		})
	reg("base", "base point multiplication, both variants, and multiplication of group_ge_base: every scalar of the recoding alphabet, every pair of adjacent 3-bit digits at every position with and without a carry from below, every scalar of [0,N) and (l-N,l)",
		func(tier string) (uint64, func(uint64) error) {
			in := append([]B32{}, alpha.ScBig()...)
			for pos := 0; pos < 84; pos++ {
				for v := 0; v < 64; v++ {
					x := new(big.Int).Lsh(big.NewInt(int64(v)), uint(3*pos))
					in = append(in, ref.RedScalar(x))
					if pos > 0 {
						x.Add(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(3*pos)), big.NewInt(1)))
						in = append(in, ref.RedScalar(x))
					}
				}
			}
			n := eng.Pick(tier, int64(500), int64(10000))
			for v := -n; v < n; v++ {
				in = append(in, ref.RedScalar(big.NewInt(v)))
			}
			in = alpha.Dedup(in)
			return uint64(len(in)), func(i uint64) error {
				b := in[i]
				eng.Sample("C20/base", "%x", b)
				s := sc(b)
				want := ref.Base.MulBytes(b[:])
				var g, h, k Ge
				g = *mk(ref.Ident, ref.One)
				eng.Op(3)
				g.MultBase(s)
				h.PMultBase(s)
				base := clib.GeBase()
				k.Mult(&base, s)
				return first(isPt(fmt.Sprintf("scalarmult_base(%x)", b), &g, want), isPt(fmt.Sprintf("scalarmult_base_publicinputs(%x)", b), &h, want),
					isPt(fmt.Sprintf("%x * group_ge_base", b), &k, want), isSc("scalar afterwards", s, ref.LEToBig(b[:])))
			}
		})
	reg("base-entries", "every entry of the table of base point multiples: scalars with the single digit -4..4 at every position",
		func(tier string) (uint64, func(uint64) error) {
			return eng.Prod(85, 9), func(i uint64) error {
				d := eng.Digits(i, 85, 9)
				x := new(big.Int).Lsh(big.NewInt(1), uint(3*d[0]))
				x.Mul(x, big.NewInt(int64(d[1])-4))
				for e := int64(-4); e <= 4; e++ {
					b := ref.RedScalar(new(big.Int).Add(x, big.NewInt(e)))
					var g Ge
					eng.Op(1)
					g.MultBase(sc(b))
					if err := isPt(fmt.Sprintf("scalarmult_base(%x)", b), &g, ref.Base.MulBytes(b[:])); err != nil {
						return err
					}
				}
				return nil
			}
		})
	reg("multi", "multi-scalar multiplication, both variants: all lists of up to 2 (thorough: 3) terms over small alphabets of elements and scalars",
		func(tier string) (uint64, func(uint64) error) {
			pts := alpha.PtsSmall()
			ps := []ref.Pt{pts[0], pts[1], pts[3].Add(ref.Torsion4[1]).Affine(), pts[8].Neg()}
			scs := []B32{alpha.ScTiny()[0], alpha.ScTiny()[1], alpha.GenSc(4), ref.RedScalar(big.NewInt(-1)), alpha.ScTiny()[5]}
			k := len(ps) * len(scs)
			n := eng.Pick(tier, 2, 3)
			var total uint64
			var starts []uint64
			for l, c := 0, uint64(1); l <= n; l, c = l+1, c*uint64(k) {
				starts = append(starts, total)
				total += c
			}
			return total, func(i uint64) error {
				l := len(starts) - 1
				for starts[l] > i {
					l--
				}
				i -= starts[l]
				var x []Ge
				var s []Sc
				want := ref.Ident
				id := ""
				for t := 0; t < l; t++ {
					d := int(i % uint64(k))
					i /= uint64(k)
					p, b := ps[d%len(ps)], scs[d/len(ps)]
					x = append(x, *mk(p, alpha.Targets()[3+t]))
					s = append(s, *sc(b))
					want = want.Add(p.MulBytes(b[:]))
					id += fmt.Sprintf("%x * %x + ", b, p.Encode())
				}
				var g, h Ge
				eng.Op(2)
				g.Multi(x, s)
				h.PMulti(x, s)
				return first(isPt("multiscalarmult "+id, &g, want), isPt("multiscalarmult_publicinputs "+id, &h, want))
			}
		})
	reg("pairs", "equality and the addition with public inputs on all pairs of representations (elements x 4 cosets x scalings), isneutral, doubling and negation with public inputs on every representation",
		func(tier string) (uint64, func(uint64) error) {
			ps, ms := reps(alpha.PtsSmall(), eng.Pick(tier, 2, 5))
			return eng.Prod(len(ps), len(ps)), func(i uint64) error {
				d := eng.Digits(i, len(ps), len(ps))
				a, b := d[1], d[0]
				x, y := mk(ps[a], ms[a]), mk(ps[b], ms[b])
				id := fmt.Sprintf("x=(%x,%x)*%x y=(%x,%x)*%x", ps[a].X.Bytes(), ps[a].Y.Bytes(), ms[a].Bytes(), ps[b].X.Bytes(), ps[b].Y.Bytes(), ms[b].Bytes())
				eq := ps[a].REq(ps[b])
				eng.Op(5)
				if err := first(flag("equals "+id, x.Equals(y), eq), flag("equals_publicinputs "+id, x.PEquals(y), eq)); err != nil {
					return err
				}
				sum := ps[a].Add(ps[b])
				var g Ge
				g.PAdd(x, y)
				u, v := *x, *y
				u.PAdd(&u, y)
				v.PAdd(x, &v)
				if err := first(isPt("add_publicinputs "+id, &g, sum), isPt("add_publicinputs into x "+id, &u, sum), isPt("add_publicinputs into y "+id, &v, sum)); err != nil {
					return err
				}
				if b != 0 {
					return nil
				}
				eng.Op(6)
				n := ps[a].REq(ref.Ident)
				var h Ge
				g.PDouble(x)
				h.PNeg(x)
				u, v = *x, *x
				u.PDouble(&u)
				v.PNeg(&v)
				return first(flag("isneutral "+id, x.IsNeutral(), n), flag("isneutral_publicinputs "+id, x.PIsNeutral(), n),
					isPt("double_publicinputs "+id, &g, ps[a].Dbl()), isPt("negate_publicinputs "+id, &h, ps[a].Neg()),
					isPt("double_publicinputs in place "+id, &u, ps[a].Dbl()), isPt("negate_publicinputs in place "+id, &v, ps[a].Neg()),
					isPt("operand "+id, x, ps[a]))
			}
		})
	reg("coordinate-patterns", "equality with itself, its negative, its other representatives and the base point, and isneutral, of both even curve points of which the affine x or y is a letter of the field alphabet or has a single non-zero byte",
		func(tier string) (uint64, func(uint64) error) {
			return uint64(alpha.CoordCount()), func(i uint64) error {
				c, ok := alpha.CoordPoint(int(i))
				if !ok {
					return nil
				}
				g := mk(c, ref.One)
				id := fmt.Sprintf("(%x,%x)", c.X.Bytes(), c.Y.Bytes())
				b := clib.GeBase()
				n := mk(c.Neg(), ref.One)
				o := mk(c.Add(ref.Torsion4[1]), ref.FeInt(3))
				eng.Op(5)
				return first(flag("isneutral "+id, g.IsNeutral(), c.REq(ref.Ident)), flag("equals itself "+id, g.Equals(g), true),
					flag("equals the base point "+id, g.Equals(&b), c.REq(ref.Base)), flag("equals its negative "+id, n.Equals(g), c.REq(c.Neg())),
					flag("equals another representative "+id, g.Equals(o), true))
			}
		})
	reg("scalarmult-public", "variable-base multiplication with public inputs: every scalar of the recoding alphabet x points in different representatives, also in place",
		func(tier string) (uint64, func(uint64) error) {
			a := alpha.ScBig()
			pts := alpha.PtsSmall()
			pick := eng.Pick(tier, []int{3}, []int{0, 1, 3, 8})
			return eng.Prod(len(pick), len(a)), func(i uint64) error {
				d := eng.Digits(i, len(pick), len(a))
				p := pts[pick[d[0]]].Add(ref.Torsion4[(d[0]+1)%4]).Affine()
				x := mk(p, alpha.Targets()[4])
				b := a[d[1]]
				want := p.MulBytes(b[:])
				var g Ge
				eng.Op(2)
				g.PMult(x, sc(b))
				x.PMult(x, sc(b))
				return first(isPt(fmt.Sprintf("%x * P%d", b, pick[d[0]]), &g, want), isPt(fmt.Sprintf("in place %x * P%d", b, pick[d[0]]), x, want))
			}
		})
	reg("quartic", "the map from the Jacobi quartic: every s of the field alphabet for which some (s,t) is on the quartic, with both signs of s and of t",
		func(tier string) (uint64, func(uint64) error) {
			in := alpha.FeBig()
			return eng.Prod(len(in), 4), func(i uint64) error {
				d := eng.Digits(i, len(in), 4)
				s := ref.FeBytes(in[d[0]])
				s2 := s.Sqr()
				den := ref.One.Add(s2)
				if den.IsZero() {
					return nil
				}
				y := ref.One.Sub(s2).Mul(den.Inv())
				if !ref.YOnCurve(y) {
					return nil
				}
				p := ref.LiftY(y)
				if p.X.IsZero() {
					return nil
				}
				// x = 2s/(t sqrt(-1-d)), with the (negative) square root which makes this the map of the specification
				ok, isr := ref.SqrtRatio(ref.One, ref.One.Neg().Sub(ref.D))
				if !ok {
					return fmt.Errorf("-1-d is not a square")
				}
				isr = isr.Neg()
				if d[1]&1 == 1 {
					s = s.Neg()
				}
				t := s.Add(s).Mul(isr).Mul(p.X.Inv())
				want := p
				if d[1]&2 == 2 {
					t = t.Neg()
					want.X = want.X.Neg()
				}
				var g Ge
				eng.Op(1)
				g.Quartic(fe(s), fe(t))
				id := fmt.Sprintf("from_jacobi_quartic(%x,%x)", s.Bytes(), t.Bytes())
				if err := isPt(id, &g, want); err != nil {
					return err
				}
				zi := val(g.Z()).Inv()
				if gx, gy := val(g.X()).Mul(zi), val(g.Y()).Mul(zi); gx != want.X || gy != want.Y {
					return fmt.Errorf("%s = (%x,%x), expected (%x,%x)", id, gx.Bytes(), gy.Bytes(), want.X.Bytes(), want.Y.Bytes())
				}
				return nil
			}
		})
}

func fieldUnary(x ref.Fe) error {
	id := fmt.Sprintf("%x", x.Bytes())
	eng.Sample("C20/field-unary", "%s", id)
	f := fe(x)
	two := ref.FeInt(2)
	un := []struct {
		n string
		f func(r, a *Fe)
		w ref.Fe
	}{
		{"neg", func(r, a *Fe) { r.Neg(a) }, x.Neg()},
		{"double", func(r, a *Fe) { r.Double(a) }, x.Add(x)},
		{"triple", func(r, a *Fe) { r.Triple(a) }, x.Add(x).Add(x)},
		{"square", func(r, a *Fe) { r.Square(a) }, x.Sqr()},
		{"square_double", func(r, a *Fe) { r.SquareDouble(a) }, x.Sqr().Mul(two)},
		{"invert", func(r, a *Fe) { r.Invert(a) }, x.Inv()},
		{"pow2523", func(r, a *Fe) { r.Pow2523(a) }, x.Pow58()},
	}
	for _, o := range un {
		eng.Op(1)
		var r Fe
		o.f(&r, f)
		if err := isFe(o.n+" "+id, &r, o.w); err != nil {
			return err
		}
		// the library says which functions may overlap operand and result, and itself uses neg and pow2523 so
		switch o.n {
		case "neg", "square", "square_double", "pow2523":
			eng.Op(1)
			u := *f
			o.f(&u, &u)
			if err := isFe(o.n+" in place "+id, &u, o.w); err != nil {
				return err
			}
		}
	}
	neg := x.IsNeg()
	if err := first(flag("iszero "+id, f.IsZero(), x.IsZero()), flag("isone "+id, f.IsOne(), x == ref.One),
		flag("isnegative "+id, f.IsNegative(), neg), flag("getparity "+id, f.Parity(), neg), flag("iseq itself "+id, f.IsEq(f), true)); err != nil {
		return err
	}
	// roots, whose sign is not specified
	var r, q, v, w Fe
	eng.Op(4)
	b := r.InvSqrtI(f)
	c := q.SqrtI(f)
	if !x.IsZero() {
		sq := x.IsSquare()
		if err := first(flag("invsqrti "+id, b, sq), flag("sqrti "+id, c, sq)); err != nil {
			return err
		}
		m := x
		if !sq {
			m = x.Mul(ref.SqrtM1)
		}
		if g := val(&r); g.Sqr().Mul(m) != ref.One {
			return fmt.Errorf("invsqrti %s = %x, which is not an inverse root", id, g.Bytes())
		}
		if g := val(&q); g.Sqr() != m {
			return fmt.Errorf("sqrti %s = %x, which is not a root", id, g.Bytes())
		}
		if sq {
			v.InvSqrt(f)
			w.Sqrt(f)
			if g := val(&v); g.Sqr().Mul(x) != ref.One {
				return fmt.Errorf("invsqrt %s = %x, which is not an inverse root", id, g.Bytes())
			}
			if g := val(&w); g.Sqr() != x {
				return fmt.Errorf("sqrt %s = %x, which is not a root", id, g.Bytes())
			}
		}
	} else if g := val(&q); !g.IsZero() {
		return fmt.Errorf("sqrti 0 = %x", g.Bytes())
	}
	return isFe("operand afterwards "+id, f, x)
}

func fieldPair(x, y ref.Fe) error {
	id := fmt.Sprintf("x=%x y=%x", x.Bytes(), y.Bytes())
	f, g := fe(x), fe(y)
	ops := []struct {
		n string
		f func(r, a, b *Fe)
		w ref.Fe
	}{
		{"x+y", func(r, a, b *Fe) { r.Add(a, b) }, x.Add(y)},
		{"x-y", func(r, a, b *Fe) { r.Sub(a, b) }, x.Sub(y)},
		{"x*y", func(r, a, b *Fe) { r.Mul(a, b) }, x.Mul(y)},
	}
	for _, o := range ops {
		eng.Op(3)
		var r Fe
		o.f(&r, f, g)
		u, v := *f, *g
		o.f(&u, &u, g)
		o.f(&v, f, &v)
		if err := first(isFe(o.n+" "+id, &r, o.w), isFe(o.n+" into x "+id, &u, o.w), isFe(o.n+" into y "+id, &v, o.w)); err != nil {
			return err
		}
	}
	eng.Op(7)
	var s, d, r Fe
	s.Add(f, g)
	d.Sub(f, g)
	r.Mul(&s, &d)
	if err := isFe("(x+y)(x-y) "+id, &r, x.Add(y).Mul(x.Sub(y))); err != nil {
		return err
	}
	r.Square(&s)
	if err := isFe("(x+y)^2 "+id, &r, x.Add(y).Sqr()); err != nil {
		return err
	}
	r.SquareDouble(&d)
	if err := isFe("2(x-y)^2 "+id, &r, x.Sub(y).Sqr().Mul(ref.FeInt(2))); err != nil {
		return err
	}
	u, v := *f, *f
	u.CMov(g, 0)
	v.CMov(g, 1)
	return first(flag("iseq "+id, f.IsEq(g), x == y), flag("iseq_vartime "+id, f.IsEqVartime(g), x == y),
		isFe("cmov 0 "+id, &u, x), isFe("cmov 1 "+id, &v, y), isFe("x afterwards "+id, f, x), isFe("y afterwards "+id, g, y),
		flag("iszero(x-y) "+id, d.IsZero(), x == y), flag("isnegative(x-y) "+id, d.IsNegative(), x.Sub(y).IsNeg()))
}
