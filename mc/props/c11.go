package props

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C11: field arithmetic ------------------------------------------------

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

// form is a way to obtain a field element of a given value through the package's operations.
type form struct {
	name string
	mk   func(v ref.Fe) FE
}

var genG = ref.FeBytes(alpha.Gen32("form", 1))
var genGInv = genG.Inv()

func forms() []form {
	g := feOf(genG)
	one := feOf(ref.One)
	return []form{
		{"SetBytes", feOf},
		{"Neg(SetBytes(-v))", func(v ref.Fe) FE { x := feOf(v.Neg()); var r FE; r.Neg(&x); return r }},
		{"Neg(Neg(v))", func(v ref.Fe) FE { x := feOf(v); var r FE; r.Neg(&x); r.Neg(&r); return r }},
		{"Mul(v,1)", func(v ref.Fe) FE { x := feOf(v); var r FE; r.Mul(&x, &one); return r }},
		{"Mul(v/g,g)", func(v ref.Fe) FE { x := feOf(v.Mul(genGInv)); var r FE; r.Mul(&x, &g); return r }},
		{"Add(v-g,g)", func(v ref.Fe) FE { x := feOf(v.Sub(genG)); var r FE; r.Add(&x, &g); return r }},
		{"Sub(v+g,g)", func(v ref.Fe) FE { x := feOf(v.Add(genG)); var r FE; r.Sub(&x, &g); return r }},
		{"Sub(0,Neg(v))", func(v ref.Fe) FE { x := feOf(v); var r, z FE; r.Neg(&x); r.Sub(&z, &r); return r }},
		{"SetBigInt(v-p)", func(v ref.Fe) FE { x := v.Big(); x.Sub(x, fieldP); var r FE; r.SetBigInt(x); return r }},
		{"SetBytes with bit 255 set", func(v ref.Fe) FE { b := v.Bytes(); b[31] |= 128; var r FE; r.SetBytes(&b); return r }},
		{"SetBytes non-canonical where possible", func(v ref.Fe) FE {
			x := v.Big()
			if x.Cmp(big.NewInt(19)) < 0 {
				x.Add(x, fieldP)
			}
			b := alpha.Le(x)
			var r FE
			r.SetBytes(&b)
			return r
		}},
		{"ConditionalSet(Neg)", func(v ref.Fe) FE {
			x := feOf(v.Neg())
			x.Neg(&x)
			r := feOf(genG)
			r.ConditionalSet(&x, 1)
			return r
		}},
	}
}

func feIs(what string, ret, f *FE, want ref.Fe) error {
	if ret != f {
		return fmt.Errorf("%s does not return its receiver", what)
	}
	return feVal(what, f, want)
}

func feVal(what string, f *FE, want ref.Fe) error {
	var b B32
	f.BytesInto(&b)
	if w := want.Bytes(); b != w {
		return fmt.Errorf("%s: got %x, expected %x", what, b, w)
	}
	return nil
}

func flag(what string, got int32, want bool) error {
	w := int32(0)
	if want {
		w = 1
	}
	if got != w {
		return fmt.Errorf("%s = %d, expected %d", what, got, w)
	}
	return nil
}

func junkFE() FE { return feOf(ref.FeBytes(alpha.Gen32("junkfe", 3))) }

// unaryChecks runs all cheap unary operations on the element x of value v.
func unaryChecks(x *FE, v ref.Fe) error {
	eng.Op(12)
	r := junkFE()
	// a previously packed buffer must be overwritten completely
	var b B32
	for k := range b {
		b[k] = 0x5a
	}
	if x.BytesInto(&b) != x {
		return fmt.Errorf("BytesInto does not return its receiver")
	}
	if b != v.Bytes() {
		return fmt.Errorf("BytesInto: got %x, expected %x", b, v.Bytes())
	}
	if g := x.Bytes(); g != v.Bytes() {
		return fmt.Errorf("Bytes: got %x, expected %x", g, v.Bytes())
	}
	if err := feIs("Neg", r.Neg(x), &r, v.Neg()); err != nil {
		return err
	}
	if err := feIs("Square", r.Square(x), &r, v.Sqr()); err != nil {
		return err
	}
	s2 := v.Sqr()
	if err := feIs("DoubledSquare", r.DoubledSquare(x), &r, s2.Add(s2)); err != nil {
		return err
	}
	if err := feIs("Abs", r.Abs(x), &r, v.Abs()); err != nil {
		return err
	}
	if err := feIs("Set", r.Set(x), &r, v); err != nil {
		return err
	}
	if err := flag("IsNegativeI", x.IsNegativeI(), v.IsNeg()); err != nil {
		return err
	}
	if err := flag("IsNonZeroI", x.IsNonZeroI(), !v.IsZero()); err != nil {
		return err
	}
	if err := flag("IsOneI", x.IsOneI(), v == ref.One); err != nil {
		return err
	}
	r = junkFE()
	r.ConditionalSet(x, 1)
	if err := feVal("ConditionalSet 1", &r, v); err != nil {
		return err
	}
	r = *x
	j := junkFE()
	r.ConditionalSet(&j, 0)
	if err := feVal("ConditionalSet 0", &r, v); err != nil {
		return err
	}
	return feVal("operand after the operations", x, v)
}

func rootChecks(x *FE, v ref.Fe) error {
	eng.Op(5)
	var r FE
	if err := feIs("Inverse", r.Inverse(x), &r, v.Inv()); err != nil {
		return err
	}
	if err := feIs("Exp22523", r.Exp22523(x), &r, v.Pow58()); err != nil {
		return err
	}
	sq := v.IsSquare()
	if sq {
		if r.InvSqrt(x) != &r {
			return fmt.Errorf("InvSqrt does not return its receiver")
		}
		w := val(&r)
		if v.IsZero() {
			if !w.IsZero() {
				return fmt.Errorf("InvSqrt(0) = %x", w.Bytes())
			}
		} else if w.Sqr().Mul(v) != ref.One {
			return fmt.Errorf("InvSqrt gave %x, whose square is not the inverse", w.Bytes())
		}
		if r.Sqrt(x) != &r {
			return fmt.Errorf("Sqrt does not return its receiver")
		}
		w = val(&r)
		if w.Sqr() != v || w.IsNeg() {
			return fmt.Errorf("Sqrt gave %x, which is not the non-negative root", w.Bytes())
		}
	}
	fl := r.InvSqrtI(x)
	w := val(&r)
	if v.IsZero() {
		if !w.IsZero() {
			return fmt.Errorf("InvSqrtI(0) = %x", w.Bytes())
		}
	} else {
		if err := flag("InvSqrtI", fl, sq); err != nil {
			return err
		}
		t := v
		if !sq {
			t = v.Mul(ref.SqrtM1)
		}
		if w.Sqr().Mul(t) != ref.One {
			return fmt.Errorf("InvSqrtI gave %x (flag %d), not an inverse square root", w.Bytes(), fl)
		}
	}
	return feVal("operand after the operations", x, v)
}

func vals(bs []B32) []ref.Fe {
	m := map[ref.Fe]bool{}
	var r []ref.Fe
	for _, b := range bs {
		v := ref.FeBytes(b)
		if !m[v] {
			m[v] = true
			r = append(r, v)
		}
	}
	return r
}

type feState struct {
	r [2]FE
	m [2]ref.Fe
}
type feop struct {
	name string
	do   func(s *feState) error
}

func feOps() []feop {
	var ops []feop
	for d := 0; d < 2; d++ {
		d := d
		for a := 0; a < 2; a++ {
			a := a
			un := func(name string, f func(x, y *FE) *FE, g func(y ref.Fe) ref.Fe) {
				name = fmt.Sprintf("r%d.%s(r%d)", d, name, a)
				ops = append(ops, feop{name, func(s *feState) error {
					ret := f(&s.r[d], &s.r[a])
					s.m[d] = g(s.m[a])
					return feIs(name, ret, &s.r[d], s.m[d])
				}})
			}
			un("Neg", (*FE).Neg, ref.Fe.Neg)
			un("Square", (*FE).Square, ref.Fe.Sqr)
			un("DoubledSquare", (*FE).DoubledSquare, func(y ref.Fe) ref.Fe { y = y.Sqr(); return y.Add(y) })
			un("Abs", (*FE).Abs, ref.Fe.Abs)
			un("Set", (*FE).Set, func(y ref.Fe) ref.Fe { return y })
			for c := int32(0); c < 2; c++ {
				c := c
				name := fmt.Sprintf("r%d.ConditionalSet(r%d,%d)", d, a, c)
				ops = append(ops, feop{name, func(s *feState) error {
					s.r[d].ConditionalSet(&s.r[a], c)
					if c == 1 {
						s.m[d] = s.m[a]
					}
					return feVal(name, &s.r[d], s.m[d])
				}})
			}
			for b := 0; b < 2; b++ {
				b := b
				bin := func(name string, f func(x, y, z *FE) *FE, g func(y, z ref.Fe) ref.Fe) {
					name = fmt.Sprintf("r%d.%s(r%d,r%d)", d, name, a, b)
					ops = append(ops, feop{name, func(s *feState) error {
						ret := f(&s.r[d], &s.r[a], &s.r[b])
						s.m[d] = g(s.m[a], s.m[b])
						return feIs(name, ret, &s.r[d], s.m[d])
					}})
				}
				bin("Add", (*FE).Add, ref.Fe.Add)
				bin("Sub", (*FE).Sub, ref.Fe.Sub)
				bin("Mul", (*FE).Mul, ref.Fe.Mul)
			}
		}
		konst := func(name string, f func(x *FE) *FE, v ref.Fe) {
			name = fmt.Sprintf("r%d.%s", d, name)
			ops = append(ops, feop{name, func(s *feState) error {
				s.m[d] = v
				return feIs(name, f(&s.r[d]), &s.r[d], v)
			}})
		}
		konst("SetZero", (*FE).SetZero, ref.Zero)
		konst("SetOne", (*FE).SetOne, ref.One)
		konst("SetI", (*FE).SetI, ref.SqrtM1)
	}
	return ops
}

func init() {
	eng.Register(eng.Space{Prop: "C11", Name: "load-alphabet",
		Bound: "SetBytes (any 32 bytes, bit 255 ignored), SetBigInt (also negative, huge) and all cheap unary operations on every string of the 6497-letter alphabet",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := alpha.Raw32()
			return uint64(len(al)), func(i uint64) error {
				b := al[i]
				v := ref.FeBytes(b)
				x := junkFE()
				in := b
				eng.State(b[:])
				eng.Op(6)
				sample("C11/load-alphabet", "%x", b)
				if err := feIs("SetBytes", x.SetBytes(&in), &x, v); err != nil {
					return note(err, "input %x", b)
				}
				if in != b {
					return fmt.Errorf("SetBytes changed its input")
				}
				if err := unaryChecks(&x, v); err != nil {
					return note(err, "input %x", b)
				}
				if x.BigInt().Cmp(v.Big()) != 0 || x.String() != v.Big().String() {
					return fmt.Errorf("BigInt/String of %x gave %v/%s", b, x.BigInt(), x.String())
				}
				n := ref.LEToBig(b[:])
				for k := 0; k < 5; k++ {
					y := new(big.Int).Set(n)
					switch k {
					case 1:
						y.Neg(n)
					case 2:
						y.Mul(n, n)
					case 3:
						y.Mul(n, fieldP)
					case 4:
						y.Sub(y.Mul(n, fieldP).Neg(y), n)
					}
					keep := new(big.Int).Set(y)
					r := junkFE()
					if err := feIs("SetBigInt", r.SetBigInt(y), &r, ref.FeBig(keep)); err != nil {
						return note(err, "x = %v", keep)
					}
					if y.Cmp(keep) != 0 {
						return fmt.Errorf("SetBigInt changed its argument %v", keep)
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "load-ranges",
		Bound: "every 32-byte integer within N of 0, p, 2^255 and 2^255+p (N = 20000 quick, 200000 thorough): loading, packing, sign, zero test, negation",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.N(tier, 20000, 200000)
			one := big.NewInt(1)
			t255 := new(big.Int).Lsh(one, 255)
			c := []*big.Int{new(big.Int), fieldP, t255, new(big.Int).Add(t255, fieldP)}
			top := new(big.Int).Lsh(one, 256)
			return eng.Prod(len(c), 2*n), func(i uint64) error {
				d := eng.Digits(i, len(c), 2*n)
				y := new(big.Int).Add(c[d[0]], big.NewInt(int64(d[1]-n)))
				b := alpha.Le(y.Mod(y, top))
				v := ref.FeBytes(b)
				var x, r FE
				eng.Op(5)
				if err := feIs("SetBytes", x.SetBytes(&b), &x, v); err != nil {
					return note(err, "input %x", b)
				}
				return note(chain(
					func() error { return feIs("Neg", r.Neg(&x), &r, v.Neg()) },
					func() error { return flag("IsNegativeI", x.IsNegativeI(), v.IsNeg()) },
					func() error { return flag("IsNonZeroI", x.IsNonZeroI(), !v.IsZero()) },
					func() error { return flag("IsOneI", x.IsOneI(), v == ref.One) },
				), "input %x", b)
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "load-runs",
		Bound: "every run of ones 2^i-2^j (0<=j<=i<=256) and its complement as bytes, in two forms, through all cheap unary operations",
		Make: func(tier string) (uint64, func(uint64) error) {
			return eng.Prod(257, 257, 2), func(i uint64) error {
				d := eng.Digits(i, 257, 257, 2)
				if d[0] > d[1] {
					return nil
				}
				y := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(d[1])), new(big.Int).Lsh(big.NewInt(1), uint(d[0])))
				b := alpha.Le(y)
				if d[2] == 1 {
					for k := range b {
						b[k] ^= 255
					}
				}
				v := ref.FeBytes(b)
				var x FE
				x.SetBytes(&b)
				if err := unaryChecks(&x, v); err != nil {
					return note(err, "input %x", b)
				}
				x = feOf(v.Neg())
				x.Neg(&x)
				return note(unaryChecks(&x, v), "negation of %x", v.Neg().Bytes())
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "unary-forms",
		Bound: "all cheap unary operations on every value of the 6497-letter alphabet in each of 12 internal forms",
		Make: func(tier string) (uint64, func(uint64) error) {
			fs, al := forms(), vals(alpha.FeBig())
			return eng.Prod(len(fs), len(al)), func(i uint64) error {
				d := eng.Digits(i, len(fs), len(al))
				v := al[d[1]]
				x := fs[d[0]].mk(v)
				return note(unaryChecks(&x, v), "value %x in form %s", v.Bytes(), fs[d[0]].name)
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "roots-forms",
		Bound: "inverse, fixed power, (inverse) square roots on every value of the 832-letter (quick) / 6497-letter (thorough) alphabet, its square and i times its square, in 3 (quick) / 12 (thorough) forms",
		Make: func(tier string) (uint64, func(uint64) error) {
			fs := forms()
			if !eng.Full(tier) {
				fs = []form{fs[0], fs[1], fs[5]}
			}
			al := vals(eng.Pick(tier, alpha.FeMed(), alpha.FeBig()))
			return eng.Prod(len(fs), len(al), 3), func(i uint64) error {
				d := eng.Digits(i, len(fs), len(al), 3)
				v := al[d[1]]
				if d[2] >= 1 {
					v = v.Sqr()
				}
				if d[2] == 2 {
					v = v.Mul(ref.SqrtM1)
				}
				x := fs[d[0]].mk(v)
				b := v.Bytes()
				eng.State(b[:])
				sample("C11/roots-forms", "%x as %s", v.Bytes(), fs[d[0]].name)
				return note(rootChecks(&x, v), "value %x in form %s", v.Bytes(), fs[d[0]].name)
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "binary-forms",
		Bound: "add, sub, mul, equality of every pair of values (832 x 832 letters quick, 6497 x 832 thorough) in 4 combinations of forms (loaded, negated)",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := vals(eng.Pick(tier, alpha.FeMed(), alpha.FeBig()))
			B := vals(alpha.FeMed())
			pre := func(in []ref.Fe) (r [2][]FE) {
				f := forms()
				for _, v := range in {
					r[0] = append(r[0], f[0].mk(v))
					r[1] = append(r[1], f[1].mk(v))
				}
				return
			}
			pa, pb := pre(A), pre(B)
			return eng.Prod(len(A), len(B)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(B))
				a, b := A[d[0]], B[d[1]]
				sum, dif, prod := a.Add(b), a.Sub(b), a.Mul(b)
				var r FE
				sample("C11/binary-forms", "%x %x", a.Bytes(), b.Bytes())
				for f := 0; f < 4; f++ {
					x, y := pa[f&1][d[0]], pb[f>>1][d[1]]
					eng.Op(5)
					err := feIs("Add", r.Add(&x, &y), &r, sum)
					if err == nil {
						err = feIs("Sub", r.Sub(&x, &y), &r, dif)
					}
					if err == nil {
						err = feIs("Mul", r.Mul(&x, &y), &r, prod)
					}
					if err == nil {
						err = flag("EqualsI", x.EqualsI(&y), a == b)
					}
					if err == nil && x.Equals(&y) != (a == b) {
						err = fmt.Errorf("Equals is wrong")
					}
					if err != nil {
						return note(err, "a=%x b=%x forms %d", a.Bytes(), b.Bytes(), f)
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "binary-all-forms",
		Bound: "add, sub, mul, equality of every pair of the 89-letter alphabet in all 12 x 12 combinations of forms",
		Make: func(tier string) (uint64, func(uint64) error) {
			fs, al := forms(), vals(alpha.FeSmall())
			var pre [][]FE
			for _, f := range fs {
				var l []FE
				for _, v := range al {
					l = append(l, f.mk(v))
				}
				pre = append(pre, l)
			}
			return eng.Prod(len(al), len(al), len(fs), len(fs)), func(i uint64) error {
				d := eng.Digits(i, len(al), len(al), len(fs), len(fs))
				a, b := al[d[0]], al[d[1]]
				x, y := pre[d[2]][d[0]], pre[d[3]][d[1]]
				var r FE
				eng.Op(4)
				err := feIs("Add", r.Add(&x, &y), &r, a.Add(b))
				if err == nil {
					err = feIs("Sub", r.Sub(&x, &y), &r, a.Sub(b))
				}
				if err == nil {
					err = feIs("Mul", r.Mul(&x, &y), &r, a.Mul(b))
				}
				if err == nil {
					err = flag("EqualsI", x.EqualsI(&y), a == b)
				}
				return note(err, "a=%x (%s) b=%x (%s)", a.Bytes(), fs[d[2]].name, b.Bytes(), fs[d[3]].name)
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "near-equal",
		Bound: "equality and zero test between each of 8 (quick) / 89 (thorough) values and every value differing from it by +-2^i+-2^j, all i, j < 255",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := vals(alpha.FeSmall())
			if !eng.Full(tier) {
				al = append(al[:4:4], al[len(al)-4:]...)
			}
			var pw []ref.Fe
			for k := uint(0); k < 255; k++ {
				pw = append(pw, ref.FeBig(new(big.Int).Lsh(big.NewInt(1), k)))
			}
			return eng.Prod(len(al), 255, 255, 4), func(i uint64) error {
				d := eng.Digits(i, len(al), 255, 255, 4)
				if d[1] > d[2] {
					return nil
				}
				a := al[d[0]]
				del := pw[d[1]]
				if d[3]&1 == 1 {
					del = del.Neg()
				}
				if d[1] != d[2] {
					if d[3]&2 == 2 {
						del = del.Sub(pw[d[2]])
					} else {
						del = del.Add(pw[d[2]])
					}
				}
				b := a.Add(del)
				x, y, z := feOf(a), feOf(b), feOf(del)
				eng.Op(3)
				return note(chain(
					func() error { return flag("EqualsI", x.EqualsI(&y), a == b) },
					func() error { return flag("EqualsI", y.EqualsI(&x), a == b) },
					func() error { return flag("IsNonZeroI", z.IsNonZeroI(), !del.IsZero()) },
				), "a=%x b=%x", a.Bytes(), b.Bytes())
			}
		}})
	eng.Register(eng.Space{Prop: "C11", Name: "lazy-sums",
		Bound: "unreduced sums and differences that the curve formulas leave in the exported coordinates of completed and precomputed points, for every pair of the 89-letter (quick) / 832 x 89 (thorough) alphabet: packing, mul by one, negation, squaring, sign and zero test agree on the value",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := vals(eng.Pick(tier, alpha.FeSmall(), alpha.FeMed()))
			B := vals(alpha.FeSmall())
			half := ref.FeInt(2).Inv()
			one := feOf(ref.One)
			return eng.Prod(len(A), len(B)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(B))
				a, b := A[d[0]], B[d[1]]
				q := EP{X: feOf(b.Sub(a).Mul(half)), Y: feOf(b.Add(a).Mul(half)), Z: feOf(a), T: feOf(b)}
				idp := EP{Y: one, Z: one, T: feOf(b)}
				var c1, c2, c3, c4 ed.CompletedPoint
				var n ed.NielsPoint
				c1.AddExtended(&q, &idp)
				c2.SubExtended(&q, &idp)
				c3.SetJacobiQuartic(&ed.JacobiPoint{S: feOf(a), T: feOf(b)})
				q1 := q
				q1.Z = one
				n.SetExtended(&q1)
				pp := ed.ProjectivePoint{X: feOf(a), Y: feOf(b), Z: feOf(b.Sub(a))}
				c4.DoubleProjective(&pp)
				for k, x := range []*FE{&c1.X, &c1.Y, &c1.Z, &c1.T, &c2.X, &c2.Y, &c2.Z, &c2.T, &c3.X, &c3.Y, &c3.Z, &c3.T,
					&n.YPlusX, &n.YMinusX, &n.XY2D, &c4.X, &c4.Y, &c4.Z, &c4.T} {
					var r FE
					r.Mul(x, &one)
					v := val(&r)
					eng.Op(8)
					if err := chain(
						func() error { return feVal("packing an unreduced value", x, v) },
						func() error { return feIs("Square", r.Square(x), &r, v.Sqr()) },
						func() error { return feIs("DoubledSquare", r.DoubledSquare(x), &r, v.Sqr().Add(v.Sqr())) },
						func() error { return feIs("Neg", r.Neg(x), &r, v.Neg()) },
						func() error { return feIs("Add", r.Add(x, &one), &r, v.Add(ref.One)) },
						func() error { return feIs("Sub", r.Sub(&one, x), &r, ref.One.Sub(v)) },
						func() error { return flag("IsNonZeroI", x.IsNonZeroI(), !v.IsZero()) },
						func() error { return flag("IsNegativeI", x.IsNegativeI(), v.IsNeg()) },
					); err != nil {
						return note(err, "coordinate %d for a=%x b=%x", k, a.Bytes(), b.Bytes())
					}
				}
				return nil
			}
		}})
	for _, deep := range []bool{false, true} {
		deep := deep
		name, bound := "histories", "all operation sequences over two field registers (add, sub, mul, neg, square, doubled square, abs, set, conditional set, zero, one, i; all register choices, so all aliasings) of depth 2 from every pair of the 89-letter alphabet x 9 partners"
		if deep {
			name, bound = "histories-deep", "the same machine, depth 3 from 16 start pairs (quick) / depth 4 from 8 start pairs (thorough), with equality, sign and zero tests at the end"
		}
		eng.Register(eng.Space{Prop: "C11", Name: name, Bound: bound, Make: func(tier string) (uint64, func(uint64) error) {
			ops := feOps()
			al := vals(alpha.FeSmall())
			type st struct{ a, b ref.Fe }
			var starts []st
			depth := 2
			if deep {
				depth = eng.Pick(tier, 3, 4)
				for k := 0; k < eng.Pick(tier, 16, 8); k++ {
					starts = append(starts, st{al[(5*k)%len(al)], al[(11*k+7)%len(al)]})
				}
			} else {
				for _, a := range al {
					for k := 0; k < 9; k++ {
						starts = append(starts, st{a, al[(10*k+3)%len(al)]})
					}
				}
			}
			size := uint64(len(starts))
			for k := 0; k < depth; k++ {
				size *= uint64(len(ops))
			}
			return size, func(i uint64) error {
				s0 := starts[i%uint64(len(starts))]
				i /= uint64(len(starts))
				s := feState{r: [2]FE{feOf(s0.a), feOf(s0.b)}, m: [2]ref.Fe{s0.a, s0.b}}
				j := i
				for k := 0; k < depth; k++ {
					op := &ops[j%uint64(len(ops))]
					j /= uint64(len(ops))
					eng.Op(1)
					err := op.do(&s)
					if err == nil && k == depth-1 {
						err = flag("EqualsI", s.r[0].EqualsI(&s.r[1]), s.m[0] == s.m[1])
						for q := 0; q < 2 && err == nil; q++ {
							err = feVal("register", &s.r[q], s.m[q])
							if err == nil {
								err = flag("IsNonZeroI", s.r[q].IsNonZeroI(), !s.m[q].IsZero())
							}
							if err == nil {
								err = flag("IsNegativeI", s.r[q].IsNegativeI(), s.m[q].IsNeg())
							}
						}
					}
					if err != nil {
						var tr []string
						for t, q := 0, i; t <= k; t++ {
							tr = append(tr, ops[q%uint64(len(ops))].name)
							q /= uint64(len(ops))
						}
						return note(err, "start r0=%x r1=%x, sequence %v", s0.a.Bytes(), s0.b.Bytes(), tr)
					}
				}
				if i&255 == 0 {
					b0, b1 := s.m[0].Bytes(), s.m[1].Bytes()
					eng.State(b0[:], b1[:])
				}
				return nil
			}
		}})
	}
}
