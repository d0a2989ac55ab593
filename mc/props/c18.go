package props

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C18: exact arithmetic on the curve -----------------------------------

type (
	CP = ed.CompletedPoint
	PP = ed.ProjectivePoint
	NP = ed.NielsPoint
	JP = ed.JacobiPoint
)

// torsion8 lists the eight torsion points.
func torsion8() []ref.Pt {
	r := []ref.Pt{ref.Ident}
	for i := 1; i < 8; i++ {
		r = append(r, r[i-1].Add(ref.Torsion8).Affine())
	}
	return r
}

func curvePts(in []ref.Pt) []ref.Pt {
	var r []ref.Pt
	for _, p := range in {
		for _, t := range torsion8() {
			r = append(r, p.Add(t).Affine())
		}
	}
	return r
}

func completedIs(c *CP, want ref.Pt) error {
	z, t := val(&c.Z), val(&c.T)
	if z.IsZero() || t.IsZero() {
		return fmt.Errorf("completed point has a zero denominator")
	}
	w := want.Affine()
	if val(&c.X) != w.X.Mul(z) || val(&c.Y) != w.Y.Mul(t) {
		return fmt.Errorf("completed point is not the expected curve point")
	}
	return nil
}

func projIs(p *PP, want ref.Pt) error {
	z := val(&p.Z)
	if z.IsZero() {
		return fmt.Errorf("projective point has Z=0")
	}
	if !(ref.Pt{X: val(&p.X), Y: val(&p.Y), Z: z}).Eq(want) {
		return fmt.Errorf("projective point is not the expected curve point")
	}
	return nil
}

var d2 = ref.D.Add(ref.D)

func nielsIs(n *NP, want ref.Pt) error {
	w := want.Affine()
	if val(&n.YPlusX) != w.Y.Add(w.X) || val(&n.YMinusX) != w.Y.Sub(w.X) || val(&n.XY2D) != w.X.Mul(w.Y).Mul(d2) {
		return fmt.Errorf("precomputed point is not the expected curve point (y+x=%x y-x=%x 2dxy=%x)", val(&n.YPlusX).Bytes(), val(&n.YMinusX).Bytes(), val(&n.XY2D).Bytes())
	}
	return nil
}

func mkN(p ref.Pt) NP {
	p = p.Affine()
	return NP{YPlusX: feOf(p.Y.Add(p.X)), YMinusX: feOf(p.Y.Sub(p.X)), XY2D: feOf(p.X.Mul(p.Y).Mul(d2))}
}

// allForms checks a completed result through every conversion.
func allForms(what string, c *CP, want ref.Pt) error {
	if err := completedIs(c, want); err != nil {
		return note(err, "%s", what)
	}
	var e EP
	var p PP
	if e.SetCompleted(c) != &e || p.SetCompleted(c) != &p {
		return fmt.Errorf("%s: SetCompleted does not return its receiver", what)
	}
	eng.Op(2)
	if err := isExact(&e, want); err != nil {
		return note(err, "%s, extended", what)
	}
	return note(projIs(&p, want), "%s, projective", what)
}

type crep struct {
	p ref.Pt
	m ref.Fe
}

func creps(pts []ref.Pt, nt int) []crep {
	var r []crep
	for _, p := range curvePts(pts) {
		for _, m := range alpha.Scalings(p, alpha.Targets()[:nt]) {
			r = append(r, crep{p, m})
		}
	}
	return r
}

func (c crep) String() string {
	return fmt.Sprintf("(x=%x, y=%x) with Z=%x", c.p.X.Bytes(), c.p.Y.Bytes(), c.m.Bytes())
}

const baseFinding = "C18-edwards-base-point-coset"

// baseExact: the base point must be exactly B; the known finding is B plus the 4-torsion point (-i,0).
func baseExact(what string, e *EP, k *big.Int) error {
	err := isExact(e, ref.Base.MulBig(k))
	if err == nil {
		return nil
	}
	alt := ref.Base.Add(ref.Torsion4[3])
	if isExact(e, alt.MulBig(k)) == nil {
		return &eng.Finding{Key: baseFinding, Msg: what + " is based on (x,4/5)+(-i,0) instead of (x,4/5)"}
	}
	return note(err, "%s", what)
}

// mst is a machine over the curve types.
type mst struct {
	e  [2]EP
	em [2]ref.Pt
	c  CP
	cm ref.Pt
	p  PP
	pm ref.Pt
	n  NP
	nm ref.Pt
}

type cvop struct {
	name string
	do   func(s *mst)
}

func curveOps() []cvop {
	var ops []cvop
	put := func(name string, f func(s *mst)) { ops = append(ops, cvop{name, f}) }
	for d := 0; d < 2; d++ {
		d := d
		for a := 0; a < 2; a++ {
			a := a
			for b := 0; b < 2; b++ {
				b := b
				put(fmt.Sprintf("e%d.Add(e%d,e%d)", d, a, b), func(s *mst) { s.e[d].Add(&s.e[a], &s.e[b]); s.em[d] = s.em[a].Add(s.em[b]) })
				put(fmt.Sprintf("e%d.Sub(e%d,e%d)", d, a, b), func(s *mst) { s.e[d].Sub(&s.e[a], &s.e[b]); s.em[d] = s.em[a].Sub(s.em[b]) })
				if d == 0 {
					put(fmt.Sprintf("c.AddExtended(e%d,e%d)", a, b), func(s *mst) { s.c.AddExtended(&s.e[a], &s.e[b]); s.cm = s.em[a].Add(s.em[b]) })
					put(fmt.Sprintf("c.SubExtended(e%d,e%d)", a, b), func(s *mst) { s.c.SubExtended(&s.e[a], &s.e[b]); s.cm = s.em[a].Sub(s.em[b]) })
				}
			}
			put(fmt.Sprintf("e%d.Neg(e%d)", d, a), func(s *mst) { s.e[d].Neg(&s.e[a]); s.em[d] = s.em[a].Neg() })
			put(fmt.Sprintf("e%d.Double(e%d)", d, a), func(s *mst) { s.e[d].Double(&s.e[a]); s.em[d] = s.em[a].Dbl() })
			put(fmt.Sprintf("e%d.Set(e%d)", d, a), func(s *mst) { s.e[d].Set(&s.e[a]); s.em[d] = s.em[a] })
			for k := int32(0); k < 2; k++ {
				k := k
				put(fmt.Sprintf("e%d.ConditionalSet(e%d,%d)", d, a, k), func(s *mst) {
					s.e[d].ConditionalSet(&s.e[a], k)
					if k == 1 {
						s.em[d] = s.em[a]
					}
				})
			}
		}
		put(fmt.Sprintf("c.AddExtendedNiels(e%d,n)", d), func(s *mst) { s.c.AddExtendedNiels(&s.e[d], &s.n); s.cm = s.em[d].Add(s.nm) })
		put(fmt.Sprintf("c.SubExtendedNiels(e%d,n)", d), func(s *mst) { s.c.SubExtendedNiels(&s.e[d], &s.n); s.cm = s.em[d].Sub(s.nm) })
		put(fmt.Sprintf("c.DoubleExtended(e%d)", d), func(s *mst) { s.c.DoubleExtended(&s.e[d]); s.cm = s.em[d].Dbl() })
		put(fmt.Sprintf("n.SetExtended(e%d)", d), func(s *mst) { s.n.SetExtended(&s.e[d]); s.nm = s.em[d] })
		put(fmt.Sprintf("p.SetExtended(e%d)", d), func(s *mst) { s.p.SetExtended(&s.e[d]); s.pm = s.em[d] })
		put(fmt.Sprintf("e%d.SetCompleted(c)", d), func(s *mst) { s.e[d].SetCompleted(&s.c); s.em[d] = s.cm })
		put(fmt.Sprintf("e%d.SetTorsion1", d), func(s *mst) { s.e[d].SetTorsion1(); s.em[d] = ref.Torsion4[1] })
		put(fmt.Sprintf("e%d.SetTorsion2", d), func(s *mst) { s.e[d].SetTorsion2(); s.em[d] = ref.Torsion4[2] })
		put(fmt.Sprintf("e%d.SetTorsion3", d), func(s *mst) { s.e[d].SetTorsion3(); s.em[d] = ref.Torsion4[3] })
		put(fmt.Sprintf("e%d.SetZero", d), func(s *mst) { s.e[d].SetZero(); s.em[d] = ref.Ident })
	}
	put("p.SetCompleted(c)", func(s *mst) { s.p.SetCompleted(&s.c); s.pm = s.cm })
	put("p.SetZero", func(s *mst) { s.p.SetZero(); s.pm = ref.Ident })
	put("c.DoubleProjective(p)", func(s *mst) { s.c.DoubleProjective(&s.p); s.cm = s.pm.Dbl() })
	put("n.SetZero", func(s *mst) { s.n.SetZero(); s.nm = ref.Ident })
	put("n.Neg(n)", func(s *mst) { s.n.Neg(&s.n); s.nm = s.nm.Neg() })
	return ops
}

func (s *mst) check() error {
	return chain(
		func() error { return note(isExact(&s.e[0], s.em[0]), "e0") },
		func() error { return note(isExact(&s.e[1], s.em[1]), "e1") },
		func() error { return note(completedIs(&s.c, s.cm), "c") },
		func() error { return note(projIs(&s.p, s.pm), "p") },
		func() error { return note(nielsIs(&s.n, s.nm), "n") },
	)
}

func mkState(a, b, c, p, n ref.Pt) mst {
	g := ref.FeBytes(alpha.Gen32("c18", 1))
	aff := c.Affine()
	pa := p.Affine()
	return mst{
		e: [2]EP{mkE(a, ref.One), mkE(b, g)}, em: [2]ref.Pt{a, b},
		c: CP{X: feOf(aff.X.Mul(g)), Z: feOf(g), Y: feOf(aff.Y.Mul(g.Sqr())), T: feOf(g.Sqr())}, cm: c,
		p: PP{X: feOf(pa.X.Mul(g)), Y: feOf(pa.Y.Mul(g)), Z: feOf(g)}, pm: p,
		n: mkN(n), nm: n,
	}
}

// c18Unary checks the unary operations on a representation, exactly.
func c18Unary(a crep) error {
	e := mkE(a.p, a.m)
	var r EP
	var c CP
	var p PP
	var n, n2 NP
	dbl := a.p.Dbl()
	stateP((*Pt)(&e))
	eng.Op(14)
	other := mkN(ref.Base)
	return note(chain(
		func() error { return note(isExact(r.Neg(&e), a.p.Neg()), "Neg") },
		func() error { return note(isExact(r.Double(&e), dbl), "Double") },
		func() error { return note(isExact(r.Set(&e), a.p), "Set") },
		func() error { return allForms("DoubleExtended", c.DoubleExtended(&e), dbl) },
		func() error { return note(projIs(p.SetExtended(&e), a.p), "projective SetExtended") },
		func() error { return allForms("DoubleProjective", c.DoubleProjective(&p), dbl) },
		func() error { return note(nielsIs(n.SetExtended(&e), a.p), "precomputed SetExtended") },
		func() error { return note(nielsIs(n2.Neg(&n), a.p.Neg()), "precomputed Neg") },
		func() error { return note(nielsIs(n2.Set(&n), a.p), "precomputed Set") },
		func() error {
			n2 = other
			return note(nielsIs(n2.ConditionalSet(&n, 1), a.p), "precomputed ConditionalSet 1")
		},
		func() error { return note(nielsIs(n2.ConditionalSet(&other, 0), a.p), "precomputed ConditionalSet 0") },
		func() error { return note(nielsIs(n2.SetZero(), ref.Ident), "precomputed SetZero") },
		func() error { return note(projIs(p.SetZero(), ref.Ident), "projective SetZero") },
		func() error { return note(isExact(r.SetZero(), ref.Ident), "SetZero") },
		func() error { return note(isExact(r.SetTorsion1(), ref.Torsion4[1]), "SetTorsion1") },
		func() error { return note(isExact(r.SetTorsion2(), ref.Torsion4[2]), "SetTorsion2") },
		func() error { return note(isExact(r.SetTorsion3(), ref.Torsion4[3]), "SetTorsion3") },
	), "%v", a)
}

func init() {
	eng.Register(eng.Space{Prop: "C18", Name: "binary",
		Bound: "additions and subtractions (extended, completed, precomputed operand; in place) of every pair of representations: 14 points x 8 torsion components x scalings on the left, 14 x 8 x 2 on the right; every conversion of the result",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := creps(alpha.PtsSmall(), eng.Pick(tier, 1, 4))
			var B []crep
			g := ref.FeBytes(alpha.Gen32("c18", 2))
			for _, p := range curvePts(alpha.PtsSmall()) {
				B = append(B, crep{p, ref.One}, crep{p, g})
			}
			return eng.Prod(len(A), len(B)), func(i uint64) error {
				d := eng.Digits(i, len(B), len(A))
				a, b := A[d[1]], B[d[0]]
				ea, eb, nb := mkE(a.p, a.m), mkE(b.p, b.m), mkN(b.p)
				sum, dif := a.p.Add(b.p), a.p.Sub(b.p)
				sample("C18/binary", "%v and %v", a, b)
				eng.Op(7)
				var c CP
				return note(chain(
					func() error { return allForms("AddExtended", c.AddExtended(&ea, &eb), sum) },
					func() error { return allForms("SubExtended", c.SubExtended(&ea, &eb), dif) },
					func() error { return allForms("AddExtendedNiels", c.AddExtendedNiels(&ea, &nb), sum) },
					func() error { return allForms("SubExtendedNiels", c.SubExtendedNiels(&ea, &nb), dif) },
					func() error { r := ea; return note(isExact(r.Add(&r, &eb), sum), "Add in place") },
					func() error { r := eb; return note(isExact(r.Sub(&ea, &r), dif), "Sub in place") },
					func() error {
						r := ea
						r.ConditionalSet(&eb, 1)
						if err := isExact(&r, b.p); err != nil {
							return note(err, "ConditionalSet 1")
						}
						r.ConditionalSet(&ea, 0)
						return note(isExact(&r, b.p), "ConditionalSet 0")
					},
				), "a = %v, b = %v", a, b)
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "unary",
		Bound: "doubling (three routes), negation, copies and conversions of every representation: 89 points x 8 torsion components x scalings",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := creps(alpha.PtsMed(), eng.Pick(tier, 2, 10))
			return uint64(len(A)), func(i uint64) error {
				sample("C18/unary", "%v", A[i])
				return c18Unary(A[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "scalars",
		Bound: "constant-time, variable-time and table multiplications (fresh destination, in place), exactly on the curve: every scalar of the 858-letter alphabet (118 quick) and unreduced integers from the group order up to 2^253, x 14 points x 8 torsion components",
		Make: func(tier string) (uint64, func(uint64) error) {
			pts := curvePts(alpha.PtsSmall())
			sc := append(eng.Pick(tier, alpha.ScSmall(), alpha.ScMed()), alpha.Unreduced()...)
			tabs := make([]*ed.ScalarMultTable, len(pts))
			g := ref.FeBytes(alpha.Gen32("c18", 3))
			return eng.Prod(len(sc), len(pts)), func(i uint64) error {
				d := eng.Digits(i, len(pts), len(sc))
				p, s := pts[d[0]], sc[d[1]]
				e := mkE(p, g)
				want := p.MulBytes(s[:])
				if tabs[d[0]] == nil {
					tabs[d[0]] = new(ed.ScalarMultTable)
					tabs[d[0]].Compute(&e)
					eng.Op(1)
				}
				sample("C18/scalars", "%x * (%x,%x)", s, p.X.Bytes(), p.Y.Bytes())
				eng.Op(5)
				pb := p.X.Bytes()
				eng.State(s[:], pb[:])
				r := mkE(ref.Torsion8, ref.One)
				in := s
				return note(chain(
					func() error { return note(isExact(r.ScalarMult(&e, &in), want), "ScalarMult") },
					func() error { return note(isExact(r.VarTimeScalarMult(&e, &in), want), "VarTimeScalarMult") },
					func() error { tabs[d[0]].ScalarMult(&r, &in); return note(isExact(&r, want), "table ScalarMult") },
					func() error {
						tabs[d[0]].VarTimeScalarMult(&r, &in)
						return note(isExact(&r, want), "table VarTimeScalarMult")
					},
					func() error { r = e; return note(isExact(r.ScalarMult(&r, &in), want), "ScalarMult in place") },
					func() error {
						r = e
						return note(isExact(r.VarTimeScalarMult(&r, &in), want), "VarTimeScalarMult in place")
					},
				), "s=%x P=(%x,%x)", s, p.X.Bytes(), p.Y.Bytes())
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "tables",
		Bound: "every entry (32 x 8) of the table computed for each of 14 points x 8 torsion components is exactly the multiple (v+1)*256^i",
		Make: func(tier string) (uint64, func(uint64) error) {
			pts := curvePts(alpha.PtsSmall())
			return uint64(len(pts)), func(i uint64) error {
				e := mkE(pts[i], ref.FeBytes(alpha.Gen32("c18", 4)))
				var t ed.ScalarMultTable
				t.Compute(&e)
				eng.Op(1)
				q := pts[i]
				for k := 0; k < 32; k++ {
					m := q
					for v := 0; v < 8; v++ {
						if err := nielsIs(&t[k][v], m); err != nil {
							return note(err, "entry [%d][%d] for point (%x,%x)", k, v, pts[i].X.Bytes(), pts[i].Y.Bytes())
						}
						m = m.Add(q)
					}
					q = q.MulBig(big.NewInt(256))
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "base",
		Bound: "SetBase, all 256 entries of the built-in table, and its multiplications for the 118-letter scalar alphabet, exactly on the curve",
		Make: func(tier string) (uint64, func(uint64) error) {
			sc := alpha.ScSmall()
			return 1 + 256 + uint64(len(sc)), func(i uint64) error {
				var e EP
				eng.Op(1)
				if i == 0 {
					e.SetBase()
					return baseExact("SetBase", &e, big.NewInt(1))
				}
				if i <= 256 {
					k, v := int(i-1)/8, int64(i-1)%8
					m := new(big.Int).Lsh(big.NewInt(v+1), uint(8*k))
					n := ed.BaseScalarMultTable[k][v]
					var c CP
					z := mkE(ref.Ident, ref.One)
					e.SetCompleted(c.AddExtendedNiels(&z, &n))
					if err := baseExact(fmt.Sprintf("base table entry [%d][%d]", k, v), &e, m); err != nil {
						return err
					}
					q, err := refOf(&e)
					if err != nil {
						return err
					}
					return note(nielsIs(&n, q), "base table entry [%d][%d]", k, v)
				}
				s := sc[i-257]
				ed.BaseScalarMultTable.ScalarMult(&e, &s)
				e1 := baseExact("ScalarMult of the base table", &e, ref.LEToBig(s[:]))
				if _, ok := e1.(*eng.Finding); e1 != nil && !ok {
					return note(e1, "s=%x", s)
				}
				ed.BaseScalarMultTable.VarTimeScalarMult(&e, &s)
				e2 := baseExact("VarTimeScalarMult of the base table", &e, ref.LEToBig(s[:]))
				if _, ok := e2.(*eng.Finding); e2 != nil && !ok {
					return note(e2, "s=%x", s)
				}
				if e1 != nil {
					return e1
				}
				return e2
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "quartic",
		Bound: "mapping even points (89 elements x 4 cosets x scalings) to the quartic and back: the four results are equivalent points, one per coset (for X or Y zero: as documented), each on the quartic, and duals give the same curve point; quartic points (s,t) for every s of the 832-letter alphabet map to the exact curve point",
		Make: func(tier string) (uint64, func(uint64) error) {
			ra := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 1, 6)])
			al := vals(alpha.FeMed())
			c, _ := ref.FeInt(-1).Sub(ref.D).Sqrt() // sqrt(-d-1)
			two := ref.FeInt(2)
			back := func(j *JP) (ref.Pt, error) {
				var cp CP
				var e EP
				if cp.SetJacobiQuartic(j) != &cp {
					return ref.Pt{}, fmt.Errorf("SetJacobiQuartic does not return its receiver")
				}
				e.SetCompleted(&cp)
				return refOf(&e)
			}
			return uint64(len(ra) + len(al)), func(i uint64) error {
				if i >= uint64(len(ra)) {
					s := al[i-uint64(len(ra))]
					s2 := s.Sqr()
					if ref.One.Add(s2).IsZero() || s.IsZero() {
						return nil
					}
					y := ref.One.Sub(s2).Mul(ref.One.Add(s2).Inv())
					if !ref.YOnCurve(y) {
						return nil
					}
					p := ref.LiftY(y)
					if p.X.IsZero() {
						return nil
					}
					for _, q := range []ref.Pt{p, p.Neg()} {
						t := two.Mul(s).Mul(c.Mul(q.X).Inv())
						for sgn := 0; sgn < 2; sgn++ {
							j := JP{S: feOf(s), T: feOf(t)}
							eng.Op(2)
							got, err := back(&j)
							w := q
							if err == nil && !got.Eq(w) && !got.Eq(w.Neg()) {
								err = fmt.Errorf("wrong curve point")
							}
							if err != nil {
								return note(err, "s=%x t=%x", s.Bytes(), t.Bytes())
							}
							var dual JP
							if dual.Dual(&j) != &dual {
								return fmt.Errorf("Dual does not return its receiver")
							}
							g2, err := back(&dual)
							if err == nil && !g2.Eq(got) {
								err = fmt.Errorf("the dual maps to another curve point")
							}
							if err != nil {
								return note(err, "s=%x t=%x", s.Bytes(), t.Bytes())
							}
							t = t.Neg()
						}
					}
					return nil
				}
				a := ra[i]
				e := mkE(a.Pt, a.M)
				var js [4]JP
				eng.Op(9)
				if e.ToJacobiQuarticRistretto(&js) != &e {
					return fmt.Errorf("ToJacobiQuarticRistretto does not return its receiver")
				}
				var got []ref.Pt
				for k := range js {
					q, err := back(&js[k])
					if err == nil && !q.REq(a.Class) {
						err = fmt.Errorf("maps back to another group element")
					}
					if err != nil {
						return note(err, "quartic point %d of %v", k, a)
					}
					for _, o := range got {
						if o.Eq(q) && !a.Pt.X.IsZero() && !a.Pt.Y.IsZero() {
							return fmt.Errorf("quartic points of %v do not cover the four equivalent points", a)
						}
					}
					got = append(got, q)
					var dual JP
					dual.Dual(&js[k])
					q2, err := back(&dual)
					if err == nil && !q2.Eq(q) {
						err = fmt.Errorf("the dual maps to another curve point")
					}
					if err != nil {
						return note(err, "quartic point %d of %v", k, a)
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C18", Name: "histories",
		Bound: "all operation sequences of a machine with two extended, one completed, one projective and one precomputed register (every operation and conversion, all register choices), depth 3 from 3 start states (quick) / 12 (thorough), all registers checked exactly after the last step",
		Make: func(tier string) (uint64, func(uint64) error) {
			ops := curveOps()
			t8 := torsion8()
			pts := alpha.PtsSmall()
			var starts []mst
			for k := 0; k < eng.Pick(tier, 3, 12); k++ {
				q := func(j int) ref.Pt { return pts[(3*k+5*j+1)%len(pts)].Add(t8[(k+j*(k+1))%8]).Affine() }
				starts = append(starts, mkState(q(0), q(1), q(2), q(3), q(4)))
			}
			n := uint64(len(ops))
			return n * n * n * uint64(len(starts)), func(i uint64) error {
				s := starts[i%uint64(len(starts))]
				j := i / uint64(len(starts))
				for k := 0; k < 3; k++ {
					ops[j%n].do(&s)
					j /= n
				}
				eng.Op(3)
				if err := s.check(); err != nil {
					j = i / uint64(len(starts))
					return note(err, "start %d, sequence %s; %s; %s", i%uint64(len(starts)), ops[j%n].name, ops[j/n%n].name, ops[j/n/n%n].name)
				}
				if i%97 == 0 {
					stateP((*Pt)(&s.e[0]))
				}
				return nil
			}
		}})
}
