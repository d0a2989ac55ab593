package props

import (
	"fmt"
	"math/big"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C02: scalar multiplication ------------------------------------------

// multBase checks both base-point routines.
func multBase(s *Sc, want ref.Pt) error {
	var r Pt
	eng.Op(2)
	if ret := r.ScalarMultBase(s); ret != &r {
		return fmt.Errorf("ScalarMultBase does not return its receiver")
	}
	if err := isClass(&r, want); err != nil {
		return note(err, "ScalarMultBase")
	}
	r.PublicScalarMultBase(s)
	return note(isClass(&r, want), "PublicScalarMultBase")
}

func multVar(p *Pt, s *Sc, want ref.Pt) error {
	var r Pt
	eng.Op(2)
	if ret := r.ScalarMult(p, s); ret != &r {
		return fmt.Errorf("ScalarMult does not return its receiver")
	}
	if err := isClass(&r, want); err != nil {
		return note(err, "ScalarMult")
	}
	stateP(&r)
	r.PublicScalarMult(p, s)
	return note(isClass(&r, want), "PublicScalarMult")
}

func multTab(t *Tab, s *Sc, want ref.Pt) error {
	var r Pt
	eng.Op(2)
	r.ScalarMultTable(t, s)
	if err := isClass(&r, want); err != nil {
		return note(err, "ScalarMultTable")
	}
	r.PublicScalarMultTable(t, s)
	return note(isClass(&r, want), "PublicScalarMultTable")
}

var c02tabs [2]Tab

func init() {
	eng.Register(eng.Space{Prop: "C02", Name: "scalars",
		Bound: "every scalar of the recoding alphabet (all powers of two, all single window digits for 4- and 5-bit windows, runs, periodic digit patterns, limb extremes, neighbours of 0, l, 2^252) x points in different representatives, all six routines",
		Make: func(tier string) (uint64, func(uint64) error) {
			sc := alpha.ScBig()
			pts := alpha.PtsSmall()
			type item struct {
				rep Rep
				p   Pt
				tab *Tab
			}
			var its []item
			tg := alpha.Targets()
			pick := eng.Pick(tier, []int{1, 8}, []int{1, 8, 0, 5, 10})
			for k, j := range pick {
				q := pts[j].Add(ref.Torsion4[(k*3)%4]).Affine()
				rep := Rep{pts[j], q, tg[(k*3+1)%len(tg)]}
				if k == 0 {
					rep = Rep{pts[j], pts[j], ref.One}
				}
				it := item{rep: rep, p: rep.P(), tab: new(Tab)}
				it.tab.Compute(&it.p)
				its = append(its, it)
			}
			return eng.Prod(len(its), len(sc)), func(i uint64) error {
				d := eng.Digits(i, len(its), len(sc))
				it, b := &its[d[0]], sc[d[1]]
				s := scRaw(b)
				n := ref.LEToBig(b[:])
				want := it.rep.Pt.MulBig(n)
				sample("C02/scalars", "s=%x P=%v", b, it.rep)
				return note(chain(
					func() error { return multVar(&it.p, &s, want) },
					func() error { return multTab(it.tab, &s, want) },
					func() error {
						if d[0] == 0 {
							return multBase(&s, want)
						}
						return nil
					},
					func() error {
						if scBytes(&s) != b {
							return fmt.Errorf("scalar operand modified")
						}
						return nil
					},
				), "s=%x, P=%v", b, it.rep)
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "reps",
		Bound: "every representation (group elements x 4 cosets x forced scalings) x decisive scalars, variable-base routines, destination distinct and equal to the point",
		Make: func(tier string) (uint64, func(uint64) error) {
			sc := alpha.ScTiny()
			var ss []B32
			for _, k := range eng.Pick(tier, []int{5, 16}, []int{0, 1, 2, 4, 5, 9, 10, 12, 16, 17}) {
				ss = append(ss, sc[k])
			}
			rs := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 2, 6)])
			return eng.Prod(len(ss), len(rs)), func(i uint64) error {
				d := eng.Digits(i, len(ss), len(rs))
				b, rp := ss[d[0]], rs[d[1]]
				s := scRaw(b)
				p := rp.P()
				want := rp.Pt.MulBytes(b[:])
				return note(chain(
					func() error { return multVar(&p, &s, want) },
					func() error {
						r := p
						eng.Op(1)
						r.ScalarMult(&r, &s)
						return note(isClass(&r, want), "ScalarMult in place")
					},
					func() error {
						r := p
						eng.Op(1)
						r.PublicScalarMult(&r, &s)
						return note(isClass(&r, want), "PublicScalarMult in place")
					},
				), "s=%x, P=%v", b, rp)
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "table-reps",
		Bound: "tables computed for every representation of the small element alphabet (4 cosets x forced scalings) x decisive scalars",
		Make: func(tier string) (uint64, func(uint64) error) {
			sc := alpha.ScTiny()
			rs := repsOf(alpha.PtsSmall(), alpha.Targets()[:eng.Pick(tier, 2, 10)])
			return uint64(len(rs)), func(i uint64) error {
				rp := rs[i]
				p := rp.P()
				t := &c02tabs[0] // reused: must not depend on what it held
				eng.Op(1)
				t.Compute(&p)
				for _, k := range []int{0, 1, 5, 8, 10, 16, 17} {
					s := scRaw(sc[k])
					if err := multTab(t, &s, rp.Pt.MulBytes(sc[k][:])); err != nil {
						return note(err, "s=%x, P=%v", sc[k], rp)
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "table-histories",
		Bound: "all sequences up to length 4 of {compute table 0/1 for point a/b/c, multiply with table 0/1 (both routines) by s/t, base multiplication, point overwritten} on two table objects",
		Make: func(tier string) (uint64, func(uint64) error) {
			pts := alpha.PtsSmall()
			cand := []ref.Pt{pts[1], pts[8], pts[9].Add(ref.Torsion4[2]).Affine()}
			scs := []B32{alpha.GenSc(0), alpha.ScTiny()[5]}
			type op struct {
				name string
				kind int
				t, v int
			}
			var ops []op
			for t := 0; t < 2; t++ {
				for v := range cand {
					ops = append(ops, op{fmt.Sprintf("t%d.Compute(p%d)", t, v), 0, t, v})
				}
				for v := range scs {
					ops = append(ops, op{fmt.Sprintf("mul(t%d,s%d)", t, v), 1, t, v})
				}
			}
			ops = append(ops, op{"base(s0)", 2, 0, 0})
			depth := eng.Pick(tier, 3, 4)
			n := len(ops)
			size := uint64(1)
			for k := 0; k < depth; k++ {
				size *= uint64(n)
			}
			// the reference multiples, computed once
			var mul [3][2]ref.Pt
			for a := range cand {
				for s := range scs {
					mul[a][s] = cand[a].MulBytes(scs[s][:])
				}
			}
			return size, func(i uint64) error {
				cur := [2]int{-1, -1}
				var p [3]Pt
				for k := range p {
					p[k] = mkP(cand[k], ref.One)
				}
				var names []string
				for k := 0; k < depth; k++ {
					o := ops[i%uint64(n)]
					i /= uint64(n)
					names = append(names, o.name)
					var err error
					switch o.kind {
					case 0:
						eng.Op(1)
						c02tabs[o.t].Compute(&p[o.v])
						cur[o.t] = o.v
						// the point may be reused by its owner afterwards
						p[o.v].Neg(&p[o.v])
						p[o.v].Neg(&p[o.v])
					case 1:
						if cur[o.t] < 0 {
							continue
						}
						s := scRaw(scs[o.v])
						err = multTab(&c02tabs[o.t], &s, mul[cur[o.t]][o.v])
					case 2:
						s := scRaw(scs[o.v])
						err = multBase(&s, mul[0][o.v])
					}
					if err != nil {
						return note(err, "history %s", strings.Join(names, "; "))
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "base-table",
		Bound: "every entry of the built-in base-point table: all 32 x 8 table digits with both signs, through both routines",
		Make: func(tier string) (uint64, func(uint64) error) {
			return 32 * 8, func(i uint64) error {
				pos, v := int(i/8), int64(i%8)+1
				n := new(big.Int).Lsh(big.NewInt(v), uint(8*pos))
				for _, sgn := range []int64{1, -1} {
					for _, hi := range []uint{0, 4} {
						m := new(big.Int).Mul(new(big.Int).Lsh(n, hi), big.NewInt(sgn))
						b := ref.RedScalar(m)
						s := scRaw(b)
						if err := multBase(&s, ref.Base.MulBytes(b[:])); err != nil {
							return note(err, "s=%x", b)
						}
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "digit-pairs",
		Bound: "every pair of adjacent 5-bit (and 4-bit) window digits at every position, on a carry-generating or zero background below, all six routines",
		Make: func(tier string) (uint64, func(uint64) error) {
			var sc []B32
			step := eng.Pick(tier, 5, 1)
			for pos := 0; pos < 50; pos++ {
				for v := 0; v < 1024; v += step {
					for _, bg := range []int64{0, 1} {
						x := new(big.Int).Lsh(big.NewInt(int64(v)), uint(5*pos))
						if bg == 1 && pos > 0 {
							x.Add(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(5*pos)), big.NewInt(1)))
						}
						sc = append(sc, ref.RedScalar(x))
					}
				}
			}
			for pos := 0; pos < 62; pos++ {
				for v := 0; v < 256; v += step {
					x := new(big.Int).Lsh(big.NewInt(int64(v)), uint(4*pos))
					if v&1 == 1 {
						x.Add(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(4*pos)), big.NewInt(1)))
					}
					sc = append(sc, ref.RedScalar(x))
				}
			}
			sc = alpha.Dedup(sc)
			p := mkP(ref.Base, ref.One)
			t := new(Tab)
			t.Compute(&p)
			return uint64(len(sc)), func(i uint64) error {
				s := scRaw(sc[i])
				want := ref.Base.MulBytes(sc[i][:])
				return note(chain(
					func() error { return multVar(&p, &s, want) },
					func() error { return multTab(t, &s, want) },
					func() error { return multBase(&s, want) },
				), "s=%x, P=base point", sc[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C02", Name: "ranges",
		Bound: "every scalar of [0,N) and of (l-N,l) (N=1024 quick, 40000 thorough) and every scalar within 12 of l*j/k for k=2..16 (40 and k=2..64 thorough, j=1 or k-1), all six routines, on the base point (quick and thorough) and one generic point in projective form",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := int64(eng.Pick(tier, 1024, 40000))
			kmax := int64(eng.Pick(tier, 16, 64))
			e := int64(eng.Pick(tier, 12, 40))
			var sc []B32
			for v := int64(0); v < n; v++ {
				sc = append(sc, ref.RedScalar(big.NewInt(v)), ref.RedScalar(big.NewInt(-v)))
			}
			for k := int64(2); k <= kmax; k++ {
				q := new(big.Int).Div(ref.L, big.NewInt(k))
				for d := -e; d <= e; d++ {
					x := new(big.Int).Add(q, big.NewInt(d))
					sc = append(sc, ref.RedScalar(x), ref.RedScalar(x.Neg(x)))
				}
			}
			sc = alpha.Dedup(sc)
			g := ref.Base.MulBig(big.NewInt(0x1234567)).Add(ref.Torsion4[1])
			p := mkP(ref.Base, ref.One)
			r := mkP(g, ref.Base.X)
			tp, tr := new(Tab), new(Tab)
			tp.Compute(&p)
			tr.Compute(&r)
			return uint64(len(sc)), func(i uint64) error {
				s := scRaw(sc[i])
				wantB := ref.Base.MulBytes(sc[i][:])
				wantG := g.MulBytes(sc[i][:])
				return note(chain(
					func() error { return multVar(&p, &s, wantB) },
					func() error { return multTab(tp, &s, wantB) },
					func() error { return multBase(&s, wantB) },
					func() error { return multVar(&r, &s, wantG) },
					func() error { return multTab(tr, &s, wantG) },
				), "s=%x, P=base point or %x", sc[i], g.Encode())
			}
		}})
}
