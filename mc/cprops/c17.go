// Package cprops decides C17: the C reference binding against the reference model.
package cprops

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/bwesterb/go-ristretto/cref"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

type (
	B32 = [32]byte
	Ge  = cref.GroupGe
	Fe  = cref.Fe25519
	Sc  = cref.GroupScalar
)

func cfe(f *Fe, v ref.Fe) {
	b := v.Bytes()
	f.Unpack(&b)
}

func cval(f *Fe) ref.Fe {
	var b B32
	f.Pack(&b)
	return ref.FeBytes(b)
}

// mk builds the representation of p scaled by m.
func mk(p ref.Pt, m ref.Fe) *Ge {
	p = p.Affine()
	g := new(Ge)
	cfe(g.X(), p.X.Mul(m))
	cfe(g.Y(), p.Y.Mul(m))
	cfe(g.Z(), m)
	cfe(g.T(), p.X.Mul(p.Y).Mul(m))
	return g
}

// is checks that g is a well-formed representative of want, and that it packs to want's encoding.
func is(what string, g *Ge, want ref.Pt) error {
	p := ref.Pt{X: cval(g.X()), Y: cval(g.Y()), Z: cval(g.Z())}
	t := cval(g.T())
	if p.Z.IsZero() || !p.OnCurve() || p.X.Mul(p.Y) != p.Z.Mul(t) {
		return fmt.Errorf("%s: result is not a well-formed point (expected element %x)", what, want.Encode())
	}
	if !p.REq(want) {
		return fmt.Errorf("%s: wrong element: got %x, expected %x", what, p.Encode(), want.Encode())
	}
	eng.Op(1)
	var b B32
	g.Pack(&b)
	e := want.Encode()
	eng.State(b[:])
	if b != e {
		return fmt.Errorf("%s: packs to %x, expected %x", what, b, e)
	}
	return nil
}

func same(what string, b, in B32) error {
	if b != in {
		return fmt.Errorf("%s modified its input %x", what, in)
	}
	return nil
}

func decode(b B32) error {
	in := b
	var g Ge
	eng.Op(1)
	rc := g.Unpack(&b)
	if err := same("Unpack", b, in); err != nil {
		return err
	}
	want, ok := ref.Decode(in)
	if (rc == 0) != ok {
		return fmt.Errorf("unpacking %x returns %d, the specification says valid=%v", in, rc, ok)
	}
	if !ok {
		eng.State([]byte("rejected"), in[:1])
		return nil
	}
	return is(fmt.Sprintf("unpacking %x", in), &g, want)
}

func loadSc(b B32) *Sc {
	s := new(Sc)
	s.Unpack(&b)
	return s
}

func reps(pts []ref.Pt, nt int) (ps []ref.Pt, ms []ref.Fe) {
	for _, p := range pts {
		for _, t := range ref.Torsion4 {
			q := p.Add(t).Affine()
			for _, m := range alpha.Scalings(q, alpha.Targets()[:nt]) {
				ps = append(ps, q)
				ms = append(ms, m)
			}
		}
	}
	return
}

func init() {
	eng.Register(eng.Space{Prop: "C17", Name: "field-pack",
		Bound: "unpack and pack every string of the field-input alphabet: canonical residue, top bit ignored",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := alpha.Raw32()
			return uint64(len(in)), func(i uint64) error {
				b := in[i]
				eng.Sample("C17/field-pack", "%x", b)
				var f Fe
				eng.Op(2)
				f.Unpack(&b)
				if err := same("Fe25519.Unpack", b, in[i]); err != nil {
					return err
				}
				var o B32
				for k := range o {
					o[k] = 0xa5
				}
				f.Pack(&o)
				w := ref.FeBytes(b).Bytes()
				eng.State(o[:])
				if o != w {
					return fmt.Errorf("field element %x packs to %x, expected %x", b, o, w)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "scalar-pack",
		Bound: "unpack and pack every string of the scalar-input alphabet: residue modulo the order, top three bits ignored",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := alpha.Raw32()
			return uint64(len(in)), func(i uint64) error {
				b := in[i]
				eng.Op(2)
				s := loadSc(b)
				var o B32
				s.Pack(&o)
				x := b
				x[31] &= 0x1f
				w := ref.RedScalar(ref.LEToBig(x[:]))
				if o != w {
					return fmt.Errorf("scalar %x packs to %x, expected %x", b, o, w)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "decode-alphabet",
		Bound: "unpack every string of the field-input alphabet, and every single-bit flip and malformed relative (+p, -x, +2^255, +1, +2) of valid encodings",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := alpha.Raw32()
			pts := alpha.PtsMed()
			if !eng.Full(tier) {
				pts = pts[:24]
			}
			two255 := new(big.Int).Lsh(big.NewInt(1), 255)
			for _, p := range pts {
				e := p.Encode()
				x := ref.LEToBig(e[:])
				for _, y := range []*big.Int{new(big.Int).Add(x, ref.P), new(big.Int).Sub(ref.P, x), new(big.Int).Add(x, two255),
					new(big.Int).Add(x, big.NewInt(1)), new(big.Int).Add(x, big.NewInt(2))} {
					if y.BitLen() <= 256 && y.Sign() >= 0 {
						in = append(in, alpha.Le(y))
					}
				}
				in = append(in, e)
				for b := 0; b < 256; b++ {
					m := e
					m[b/8] ^= 1 << uint(b%8)
					in = append(in, m)
				}
			}
			in = alpha.Dedup(in)
			return uint64(len(in)), func(i uint64) error {
				eng.Sample("C17/decode-alphabet", "%x", in[i])
				return decode(in[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "decode-ranges",
		Bound: "unpack every integer in [0,N), (p-N, 2^255+N)",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.Pick(tier, int64(20000), int64(300000))
			return uint64(3*n + 19), func(i uint64) error {
				x := big.NewInt(int64(i))
				if int64(i) >= n {
					x.Add(ref.P, big.NewInt(int64(i)-2*n))
				}
				return decode(alpha.Le(x))
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "elligator",
		Bound: "map every string of the field-input alphabet and every integer below N to the group",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := append([]B32{}, alpha.FeBig()...)
			for _, f := range alpha.SpecialFe() {
				in = append(in, f.Bytes(), f.Neg().Bytes())
			}
			n := eng.Pick(tier, 20000, 200000)
			return uint64(len(in) + n), func(i uint64) error {
				var b B32
				if int(i) < len(in) {
					b = in[i]
				} else {
					b = alpha.Le(new(big.Int).SetUint64(i - uint64(len(in))))
				}
				var f Fe
				var g Ge
				f.Unpack(&b)
				eng.Op(1)
				g.Elligator(&f)
				if v := cval(&f); v != ref.FeBytes(b) {
					return fmt.Errorf("Elligator modified its operand")
				}
				return is(fmt.Sprintf("Elligator(%x)", b), &g, ref.MapBytes(b))
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "pairs",
		Bound: "Add over all pairs of representations (small elements x 4 cosets x scalings), destination distinct, equal to the first, the second, both operands; Neg, Double and Pack of every representation",
		Make: func(tier string) (uint64, func(uint64) error) {
			ps, ms := reps(alpha.PtsSmall(), eng.Pick(tier, 1, 5))
			return eng.Prod(len(ps), len(ps)), func(i uint64) error {
				d := eng.Digits(i, len(ps), len(ps))
				a, b := d[1], d[0]
				x, y := mk(ps[a], ms[a]), mk(ps[b], ms[b])
				id := fmt.Sprintf("x=(%x,%x)*%x y=(%x,%x)*%x", ps[a].X.Bytes(), ps[a].Y.Bytes(), ms[a].Bytes(), ps[b].X.Bytes(), ps[b].Y.Bytes(), ms[b].Bytes())
				sum := ps[a].Add(ps[b])
				var g Ge
				eng.Op(3)
				g.Add(x, y)
				if err := is("Add "+id, &g, sum); err != nil {
					return err
				}
				if err := is("first operand after Add "+id, x, ps[a]); err != nil {
					return err
				}
				if err := is("second operand after Add "+id, y, ps[b]); err != nil {
					return err
				}
				x2 := *x
				x2.Add(&x2, y)
				if err := is("x.Add(x,y) "+id, &x2, sum); err != nil {
					return err
				}
				y2 := *y
				y2.Add(x, &y2)
				if err := is("y.Add(x,y) "+id, &y2, sum); err != nil {
					return err
				}
				if b != 0 {
					return nil
				}
				eng.Op(6)
				x2 = *x
				x2.Add(&x2, &x2)
				dbl := ps[a].Dbl()
				if err := is("x.Add(x,x) "+id, &x2, dbl); err != nil {
					return err
				}
				g.Double(x)
				if err := is("Double "+id, &g, dbl); err != nil {
					return err
				}
				x2 = *x
				x2.Double(&x2)
				if err := is("Double in place "+id, &x2, dbl); err != nil {
					return err
				}
				g.Neg(x)
				if err := is("Neg "+id, &g, ps[a].Neg()); err != nil {
					return err
				}
				x2 = *x
				x2.Neg(&x2)
				return is("Neg in place "+id, &x2, ps[a].Neg())
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "pack-reps",
		Bound: "Pack of every representation (89 elements x 4 cosets x forced scalings)",
		Make: func(tier string) (uint64, func(uint64) error) {
			ps, ms := reps(alpha.PtsMed(), eng.Pick(tier, 5, 10))
			return uint64(len(ps)), func(i uint64) error {
				return is(fmt.Sprintf("(%x,%x)*%x", ps[i].X.Bytes(), ps[i].Y.Bytes(), ms[i].Bytes()), mk(ps[i], ms[i]), ps[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "coordinate-patterns",
		Bound: "pack, and unpack the encoding of, both even curve points of which the affine x or y is a letter of the 6497-letter field alphabet or has a single non-zero byte (all 32 x 255), or is the negative of one",
		Make: func(tier string) (uint64, func(uint64) error) {
			return uint64(alpha.CoordCount()), func(i uint64) error {
				c, ok := alpha.CoordPoint(int(i))
				if !ok {
					return nil
				}
				for _, c := range []ref.Pt{c, c.Neg()} {
					if err := is(fmt.Sprintf("(%x,%x)", c.X.Bytes(), c.Y.Bytes()), mk(c, ref.One), c); err != nil {
						return err
					}
					if err := decode(c.Encode()); err != nil {
						return err
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C17", Name: "scalarmult",
		Bound: "every scalar of the recoding alphabet x points in different representatives, also in place",
		Make: func(tier string) (uint64, func(uint64) error) {
			sc := alpha.ScBig()
			pts := alpha.PtsSmall()
			pick := eng.Pick(tier, []int{1, 8}, []int{0, 1, 3, 8, 10})
			return eng.Prod(len(pick), len(sc)), func(i uint64) error {
				d := eng.Digits(i, len(pick), len(sc))
				p := pts[pick[d[0]]].Add(ref.Torsion4[d[0]%4]).Affine()
				tg := alpha.Targets()
				x := mk(p, tg[(d[0]*3)%len(tg)])
				b := sc[d[1]]
				s := loadSc(b)
				want := p.MulBytes(b[:])
				var g Ge
				eng.Op(2)
				g.ScalarMult(x, s)
				if err := is(fmt.Sprintf("%x * P%d", b, pick[d[0]]), &g, want); err != nil {
					return err
				}
				x.ScalarMult(x, s)
				if err := is(fmt.Sprintf("in place %x * P%d", b, pick[d[0]]), x, want); err != nil {
					return err
				}
				var o B32
				s.Pack(&o)
				if !bytes.Equal(o[:], b[:]) {
					return fmt.Errorf("ScalarMult modified its scalar")
				}
				return nil
			}
		}})
	// operation sequences over two registers
	type op struct {
		name string
		f    func(r *[2]Ge, m *[2]ref.Pt) error
	}
	var ops []op
	add := func(n string, f func(r *[2]Ge, m *[2]ref.Pt) error) { ops = append(ops, op{n, f}) }
	for d := 0; d < 2; d++ {
		for a := 0; a < 2; a++ {
			d, a := d, a
			add(fmt.Sprintf("r%d=-r%d", d, a), func(r *[2]Ge, m *[2]ref.Pt) error {
				r[d].Neg(&r[a])
				m[d] = m[a].Neg()
				return nil
			})
			add(fmt.Sprintf("r%d=2r%d", d, a), func(r *[2]Ge, m *[2]ref.Pt) error {
				r[d].Double(&r[a])
				m[d] = m[a].Dbl()
				return nil
			})
			if d == 0 {
				add(fmt.Sprintf("r%d=r%d+r1", d, a), func(r *[2]Ge, m *[2]ref.Pt) error {
					r[d].Add(&r[a], &r[1])
					m[d] = m[a].Add(m[1])
					return nil
				})
			} else {
				add(fmt.Sprintf("r%d=r0+r%d", d, a), func(r *[2]Ge, m *[2]ref.Pt) error {
					r[d].Add(&r[0], &r[a])
					m[d] = m[0].Add(m[a])
					return nil
				})
			}
		}
		d := d
		add(fmt.Sprintf("r%d=(l-1)*r%d", d, 1-d), func(r *[2]Ge, m *[2]ref.Pt) error {
			k := new(big.Int).Sub(ref.L, big.NewInt(1))
			r[d].ScalarMult(&r[1-d], loadSc(alpha.Le(k)))
			m[d] = m[1-d].MulBig(k)
			return nil
		})
		add(fmt.Sprintf("r%d=unpack(pack(r%d))", d, 1-d), func(r *[2]Ge, m *[2]ref.Pt) error {
			var b B32
			r[1-d].Pack(&b)
			if rc := r[d].Unpack(&b); rc != 0 {
				return fmt.Errorf("unpacking the packed %x returns %d", b, rc)
			}
			m[d] = m[1-d]
			return nil
		})
		add(fmt.Sprintf("r%d=elligator(7)", d), func(r *[2]Ge, m *[2]ref.Pt) error {
			var f Fe
			cfe(&f, ref.FeInt(7))
			r[d].Elligator(&f)
			m[d] = ref.Map(ref.FeInt(7))
			return nil
		})
		add(fmt.Sprintf("r%d=elligator(0)", d), func(r *[2]Ge, m *[2]ref.Pt) error {
			var f Fe
			cfe(&f, ref.Zero)
			r[d].Elligator(&f)
			m[d] = ref.Map(ref.Zero)
			return nil
		})
	}
	eng.Register(eng.Space{Prop: "C17", Name: "sequences",
		Bound: "all operation sequences of length D over two registers (negate, double, add in all aliasings, scalar multiplication, pack/unpack, map), every register checked after every step",
		Make: func(tier string) (uint64, func(uint64) error) {
			depth := eng.Pick(tier, 3, 4)
			rad := make([]int, depth)
			for i := range rad {
				rad[i] = len(ops)
			}
			pts := alpha.PtsSmall()
			return eng.Prod(rad...), func(i uint64) error {
				ds := eng.Digits(i, rad...)
				m := [2]ref.Pt{pts[1], pts[8]}
				r := [2]Ge{*mk(m[0], ref.One), *mk(m[1].Add(ref.Torsion4[2]), ref.FeInt(5))}
				tr := ""
				for _, k := range ds {
					tr += " " + ops[k].name
					eng.Op(1)
					if err := ops[k].f(&r, &m); err != nil {
						return fmt.Errorf("after%s: %v", tr, err)
					}
					for j := range r {
						if err := is(fmt.Sprintf("register %d after%s", j, tr), &r[j], m[j]); err != nil {
							return err
						}
					}
				}
				eng.Sample("C17/sequences", "%s", tr)
				return nil
			}
		}})
}
