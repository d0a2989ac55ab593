package props

import (
	"fmt"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C04: equality -----------------------------------------------------------

func checkEq(p, q *Pt, want bool) error {
	w := int32(0)
	if want {
		w = 1
	}
	eng.Op(4)
	p0, q0 := *p, *q
	if g := p.EqualsI(q); g != w {
		return fmt.Errorf("EqualsI returns %d, expected %d", g, w)
	}
	if g := q.EqualsI(p); g != w {
		return fmt.Errorf("EqualsI (swapped) returns %d, expected %d", g, w)
	}
	if p.Equals(q) != want || q.Equals(p) != want {
		return fmt.Errorf("Equals is wrong, expected %v", want)
	}
	if p0 != *p || q0 != *q {
		return fmt.Errorf("comparison modified an operand")
	}
	return nil
}

// c04Self compares a representation with forms of itself.
func c04Self(r Rep) error {
	p := r.P()
	q := p
	var n, nn, dec Pt
	n.Neg(&p)
	nn.Neg(&n)
	e := r.Class.Encode()
	dec.SetBytes(&e)
	self := r.Class.REq(r.Class.Neg())
	return note(chain(
		func() error { return note(checkEq(&p, &p, true), "same object") },
		func() error { return note(checkEq(&p, &q, true), "copy") },
		func() error { return note(checkEq(&p, &nn, true), "double negation") },
		func() error { return note(checkEq(&p, &dec, true), "decoded encoding") },
		func() error { return note(checkEq(&p, &n, self), "negation") },
	), "%v", r)
}

func init() {
	eng.Register(eng.Space{Prop: "C04", Name: "pairs",
		Bound: "every ordered pair of representations: (group elements x 4 cosets x forced scalings)^2, including P vs P, -P and identity representatives",
		Make: func(tier string) (uint64, func(uint64) error) {
			ra := repsOf(alpha.PtsMed(), alpha.Targets()[:1])
			rb := repsOf(alpha.PtsMed()[:eng.Pick(tier, 14, 89)], alpha.Targets()[3:4])
			pa := make([]Pt, len(ra))
			pb := make([]Pt, len(rb))
			for i := range ra {
				pa[i] = ra[i].P()
			}
			for i := range rb {
				pb[i] = rb[i].P()
			}
			enc := map[ref.Pt]B32{}
			for _, p := range alpha.PtsMed() {
				enc[p] = p.Encode()
			}
			return eng.Prod(len(pa), len(pb)), func(i uint64) error {
				d := eng.Digits(i, len(pb), len(pa))
				a, b := d[1], d[0]
				want := enc[ra[a].Class] == enc[rb[b].Class]
				sample("C04/pairs", "%v vs %v -> %v", ra[a], rb[b], want)
				eng.State([]byte{byte(a), byte(a >> 8), byte(b), byte(b >> 8)})
				return note(checkEq(&pa[a], &pb[b], want), "%v vs %v", ra[a], rb[b])
			}
		}})
	eng.Register(eng.Space{Prop: "C04", Name: "self",
		Bound: "every representation against itself (same object), its copy, its re-encoding, its negation and its double negation",
		Make: func(tier string) (uint64, func(uint64) error) {
			rs := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 3, 10)])
			return uint64(len(rs)), func(i uint64) error {
				return c04Self(rs[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C04", Name: "near-equal",
		Bound: "pairs of different elements, scaled so that the difference of the cross products that decides equality takes every power of two, every 2^k-1 and every p-2^k, for both cross products and all coset pairs",
		Make: func(tier string) (uint64, func(uint64) error) {
			pts := alpha.PtsSmall()
			type pr struct{ a, b ref.Pt }
			var prs []pr
			pairs := eng.Pick(tier, [][2]int{{1, 8}, {3, 9}}, [][2]int{{1, 8}, {3, 9}, {1, 2}, {8, 9}, {4, 12}, {0, 1}, {5, 7}})
			for _, ij := range pairs {
				for t := range ref.Torsion4 {
					prs = append(prs, pr{pts[ij[0]], pts[ij[1]].Add(ref.Torsion4[t]).Affine()})
				}
			}
			var targets []ref.Fe
			one := ref.One
			x := one
			for k := 0; k < 255; k++ {
				targets = append(targets, x, x.Neg(), x.Sub(one))
				x = x.Add(x)
			}
			for pos := 0; pos < 32; pos++ {
				for _, v := range []byte{3, 5, 255} {
					var b B32
					b[pos] = v
					targets = append(targets, ref.FeBytes(b))
				}
			}
			return eng.Prod(2, len(targets), len(prs)), func(i uint64) error {
				d := eng.Digits(i, 2, len(targets), len(prs))
				q := prs[d[2]]
				tg := targets[d[1]]
				var df ref.Fe
				if d[0] == 0 {
					df = q.a.X.Mul(q.b.Y).Sub(q.b.X.Mul(q.a.Y))
				} else {
					df = q.a.X.Mul(q.b.X).Sub(q.a.Y.Mul(q.b.Y))
				}
				if df.IsZero() || tg.IsZero() {
					return nil
				}
				m := tg.Mul(df.Inv())
				pa, pb := mkP(q.a, m), mkP(q.b, one)
				want := q.a.REq(q.b)
				sample("C04/near-equal", "cross product difference forced to %x", tg.Bytes())
				return note(checkEq(&pa, &pb, want), "a=%x,%x scaled by %x vs b=%x,%x", q.a.X.Bytes(), q.a.Y.Bytes(), m.Bytes(), q.b.X.Bytes(), q.b.Y.Bytes())
			}
		}})
	eng.Register(eng.Space{Prop: "C04", Name: "histories",
		Bound: "all pairs of expressions (depth <= 2 over add, sub, neg, double of two generators) compared with each other, against the reference equality of the expressions",
		Make: func(tier string) (uint64, func(uint64) error) {
			// expressions a*P+b*Q reached along different paths
			type ex struct {
				p Pt
				m ref.Pt
			}
			g := alpha.PtsSmall()
			base := []ex{{mkP(g[1], ref.One), g[1]}, {mkP(g[8].Add(ref.Torsion4[3]).Affine(), alpha.Targets()[4]), g[8]}}
			var z ex
			z.p.SetZero()
			z.m = ref.Ident
			base = append(base, z)
			lvl := base
			for k := 0; k < eng.Pick(tier, 1, 2); k++ {
				next := append([]ex{}, lvl...)
				for _, a := range lvl {
					var e ex
					e.p.Neg(&a.p)
					e.m = a.m.Neg()
					next = append(next, e)
					e.p.Double(&a.p)
					e.m = a.m.Dbl()
					next = append(next, e)
					for _, b := range base {
						e.p.Add(&a.p, &b.p)
						e.m = a.m.Add(b.m)
						next = append(next, e)
						e.p.Sub(&a.p, &b.p)
						e.m = a.m.Sub(b.m)
						next = append(next, e)
						e.p.Sub(&b.p, &a.p)
						e.m = b.m.Sub(a.m)
						next = append(next, e)
					}
				}
				lvl = next
			}
			return eng.Prod(len(lvl), len(lvl)), func(i uint64) error {
				d := eng.Digits(i, len(lvl), len(lvl))
				a, b := lvl[d[1]], lvl[d[0]]
				return note(checkEq(&a.p, &b.p, a.m.REq(b.m)), "expressions %d and %d (elements %x, %x)", d[1], d[0], a.m.Encode(), b.m.Encode())
			}
		}})
}
