package props

import (
	"fmt"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C01: group law in every history -------------------------------------

// pst is the joint state of implementation registers and reference registers.
type pst struct {
	r [3]Pt
	m [3]ref.Pt
}

// gop is one transition of the group machine.
type gop struct {
	name string
	dst  int
	do   func(s *pst) error // runs the implementation and the model
}

func groupOps(withConv bool) []gop {
	var ops []gop
	put := func(name string, dst int, do func(s *pst) error) { ops = append(ops, gop{name, dst, do}) }
	retErr := func(ret, recv *Pt) error {
		if ret != recv {
			return fmt.Errorf("does not return its receiver")
		}
		return nil
	}
	for d := 0; d < 3; d++ {
		d := d
		for a := 0; a < 3; a++ {
			a := a
			for b := 0; b < 3; b++ {
				b := b
				put(fmt.Sprintf("r%d.Add(r%d,r%d)", d, a, b), d, func(s *pst) error {
					e := retErr(s.r[d].Add(&s.r[a], &s.r[b]), &s.r[d])
					s.m[d] = s.m[a].Add(s.m[b])
					return e
				})
				put(fmt.Sprintf("r%d.Sub(r%d,r%d)", d, a, b), d, func(s *pst) error {
					e := retErr(s.r[d].Sub(&s.r[a], &s.r[b]), &s.r[d])
					s.m[d] = s.m[a].Sub(s.m[b])
					return e
				})
			}
			put(fmt.Sprintf("r%d.Neg(r%d)", d, a), d, func(s *pst) error {
				e := retErr(s.r[d].Neg(&s.r[a]), &s.r[d])
				s.m[d] = s.m[a].Neg()
				return e
			})
			put(fmt.Sprintf("r%d.Double(r%d)", d, a), d, func(s *pst) error {
				e := retErr(s.r[d].Double(&s.r[a]), &s.r[d])
				s.m[d] = s.m[a].Dbl()
				return e
			})
			put(fmt.Sprintf("r%d.Set(r%d)", d, a), d, func(s *pst) error {
				e := retErr(s.r[d].Set(&s.r[a]), &s.r[d])
				s.m[d] = s.m[a]
				return e
			})
			put(fmt.Sprintf("r%d.ConditionalSet(r%d,1)", d, a), d, func(s *pst) error {
				s.r[d].ConditionalSet(&s.r[a], 1)
				s.m[d] = s.m[a]
				return nil
			})
			put(fmt.Sprintf("r%d.ConditionalSet(r%d,0)", d, a), d, func(s *pst) error {
				s.r[d].ConditionalSet(&s.r[a], 0)
				return nil
			})
			if withConv {
				put(fmt.Sprintf("r%d.SetBytes(r%d.Bytes())", d, a), d, func(s *pst) error {
					var b B32
					s.r[a].BytesInto(&b)
					if !s.r[d].SetBytes(&b) {
						return fmt.Errorf("own encoding %x rejected", b)
					}
					s.m[d] = s.m[a]
					return nil
				})
			}
		}
		put(fmt.Sprintf("r%d.SetZero()", d), d, func(s *pst) error {
			e := retErr(s.r[d].SetZero(), &s.r[d])
			s.m[d] = ref.Ident
			return e
		})
		put(fmt.Sprintf("r%d.SetBase()", d), d, func(s *pst) error {
			e := retErr(s.r[d].SetBase(), &s.r[d])
			s.m[d] = ref.Base
			return e
		})
		if withConv {
			h := alpha.Gen32("hist", d)
			hm := ref.MapBytes(h)
			put(fmt.Sprintf("r%d.SetElligator(h%d)", d, d), d, func(s *pst) error {
				e := retErr(s.r[d].SetElligator(&h), &s.r[d])
				s.m[d] = hm
				return e
			})
			three := scRaw(ref.RedScalar(ref.LEToBig([]byte{3})))
			put(fmt.Sprintf("r%d.ScalarMult(r%d,3)", d, d), d, func(s *pst) error {
				e := retErr(s.r[d].ScalarMult(&s.r[d], &three), &s.r[d])
				s.m[d] = s.m[d].Dbl().Add(s.m[d])
				return e
			})
			put(fmt.Sprintf("r%d.PublicScalarMult(r%d,3)", d, (d+1)%3), d, func(s *pst) error {
				e := retErr(s.r[d].PublicScalarMult(&s.r[(d+1)%3], &three), &s.r[d])
				q := s.m[(d+1)%3]
				s.m[d] = q.Dbl().Add(q)
				return e
			})
		}
	}
	return ops
}

// startStates are the initial register contents of the histories: produced by
// different constructors, in different representatives.
func startStates() []func() pst {
	t := alpha.Targets()
	set := func(s *pst, i int, p Pt, m ref.Pt) { s.r[i] = p; s.m[i] = m }
	return []func() pst{
		func() pst { // decoded, mapped, base
			var s pst
			g := ref.MapBytes(alpha.Gen32("pt", 0)).Affine()
			e := g.Encode()
			var p Pt
			p.SetBytes(&e)
			set(&s, 0, p, g)
			h := alpha.Gen32("pt", 1)
			p.SetElligator(&h)
			set(&s, 1, p, ref.MapBytes(h))
			p.SetBase()
			set(&s, 2, p, ref.Base)
			return s
		},
		func() pst { // torsion representatives of the identity, and a shifted point
			var s pst
			set(&s, 0, mkP(ref.Torsion4[2], t[2]), ref.Torsion4[2])
			set(&s, 1, mkP(ref.Torsion4[1], t[5]), ref.Torsion4[1])
			q := ref.Base.Add(ref.Torsion4[3]).Affine()
			set(&s, 2, mkP(q, t[7]), q)
			return s
		},
		func() pst { // same element in three representatives
			var s pst
			g := ref.MapBytes(alpha.Gen32("pt", 2)).Affine()
			for i := 0; i < 3; i++ {
				q := g.Add(ref.Torsion4[(i+1)%4]).Affine()
				set(&s, i, mkP(q, t[3+i].Mul(q.Y.Inv())), q)
			}
			return s
		},
		func() pst { // a, -a, smallest encoding
			var s pst
			g := ref.MapBytes(alpha.Gen32("pt", 3)).Affine()
			set(&s, 0, mkP(g, t[8].Mul(g.X.Inv())), g)
			q := g.Neg().Add(ref.Torsion4[1]).Affine()
			set(&s, 1, mkP(q, t[9]), q)
			b := alpha.EncSmall()[0]
			var p Pt
			p.SetBytes(&b)
			m, _ := ref.Decode(b)
			set(&s, 2, p, m)
			return s
		},
	}
}

// runHist executes one operation sequence in place and checks every step.
func runHist(s *pst, ops []gop, seq []int) error {
	var names []string
	for _, k := range seq {
		op := ops[k]
		names = append(names, op.name)
		before := s.r
		eng.Op(1)
		if err := op.do(s); err != nil {
			return fmt.Errorf("history %s: %v", strings.Join(names, "; "), err)
		}
		for i := range s.r {
			if i != op.dst && s.r[i] != before[i] {
				return fmt.Errorf("history %s: operand r%d was modified", strings.Join(names, "; "), i)
			}
		}
		if err := isClass(&s.r[op.dst], s.m[op.dst]); err != nil {
			return fmt.Errorf("history %s: %v", strings.Join(names, "; "), err)
		}
	}
	stateP(&s.r[0])
	stateP(&s.r[1])
	return nil
}

// persistent registers: histories are run on the same memory, as a program would.
var histRegs pst

// c01Unary checks the unary operations on a representation.
func c01Unary(a Rep) error {
	pa := a.P()
	var n, dd, st, x Pt
	n.Neg(&pa)
	dd.Double(&pa)
	st.Set(&pa)
	eng.Op(8)
	return note(chain(
		func() error { return note(isClass(&n, a.Pt.Neg()), "Neg") },
		func() error { return note(isClass(&dd, a.Pt.Dbl()), "Double") },
		func() error { return note(isClass(&st, a.Pt), "Set") },
		func() error { x.Neg(&n); return note(isClass(&x, a.Pt), "Neg of Neg") },
		func() error { x.Add(&pa, &n); return note(isClass(&x, ref.Ident), "a + (-a)") },
		func() error { x.Sub(&n, &dd); return note(isClass(&x, a.Pt.Neg().Sub(a.Pt.Dbl())), "(-a) - 2a") },
		func() error { x.Double(&n); return note(isClass(&x, a.Pt.Neg().Dbl()), "2(-a)") },
		func() error { x.Sub(&pa, &pa); return note(isClass(&x, ref.Ident), "a - a") },
		func() error { x.Add(&dd, &dd); return note(isClass(&x, a.Pt.Dbl().Dbl()), "2a + 2a") },
	), "a = %v", a)
}

func init() {
	eng.Register(eng.Space{Prop: "C01", Name: "binary-reps",
		Bound: "every ordered pair of representations (group elements x 4 coset representatives x forced projective scalings) under add, sub, double, neg, set, conditional set, followed by encoding",
		Make: func(tier string) (uint64, func(uint64) error) {
			tg := alpha.Targets()
			ra := repsOf(alpha.PtsSmall(), tg[:eng.Pick(tier, 2, 10)])
			rb := repsOf(alpha.PtsSmall()[:eng.Pick(tier, 6, 14)], tg[2:eng.Pick(tier, 3, 6)])
			return eng.Prod(len(ra), len(rb)), func(i uint64) error {
				d := eng.Digits(i, len(rb), len(ra))
				a, b := ra[d[1]], rb[d[0]]
				pa, pb := a.P(), b.P()
				sum, dif := a.Pt.Add(b.Pt), a.Pt.Sub(b.Pt)
				sample("C01/binary-reps", "a=%v b=%v", a, b)
				return note(chain(
					func() error { var r Pt; r.Add(&pa, &pb); eng.Op(1); stateP(&r); return note(isClass(&r, sum), "Add") },
					func() error { var r Pt; r.Sub(&pa, &pb); eng.Op(1); return note(isClass(&r, dif), "Sub") },
					func() error { r := pa; r.Add(&r, &pb); eng.Op(1); return note(isClass(&r, sum), "Add in place (left)") },
					func() error {
						r := pb
						r.Sub(&pa, &r)
						eng.Op(1)
						return note(isClass(&r, dif), "Sub in place (right)")
					},
					func() error {
						r := pa
						r.ConditionalSet(&pb, 0)
						eng.Op(1)
						return note(isClass(&r, a.Pt), "ConditionalSet 0")
					},
					func() error {
						r := pa
						r.ConditionalSet(&pb, 1)
						eng.Op(1)
						return note(isClass(&r, b.Pt), "ConditionalSet 1")
					},
				), "a = %v, b = %v", a, b)
			}
		}})
	eng.Register(eng.Space{Prop: "C01", Name: "unary-reps",
		Bound: "every representation (89 group elements x 4 cosets x forced scalings) under neg, double, set and their compositions with add/sub",
		Make: func(tier string) (uint64, func(uint64) error) {
			tg := alpha.Targets()
			ra := repsOf(alpha.PtsMed(), tg[:eng.Pick(tier, 4, 10)])
			return uint64(len(ra)), func(i uint64) error {
				sample("C01/unary-reps", "%v", ra[i])
				return c01Unary(ra[i])
			}
		}})
	for _, conv := range []bool{false, true} {
		conv := conv
		name := "histories"
		bound := "all operation sequences over three registers (add, sub, neg, double, set, conditional set 0/1, zero, base; all register choices, so all aliasings) up to depth 3 (quick) / 4 from one start (thorough), from 4 start states, run in place"
		if conv {
			name = "histories-conv"
			bound = "as histories, plus encode/decode, hash-to-group and scalar multiplication steps, depth 2 (quick) / 3 (thorough)"
		}
		eng.Register(eng.Space{Prop: "C01", Name: name, Bound: bound,
			Make: func(tier string) (uint64, func(uint64) error) {
				ops := groupOps(conv)
				starts := startStates()
				var st []pst
				for _, f := range starts {
					st = append(st, f())
				}
				depth := 3
				if conv {
					depth = eng.Pick(tier, 2, 3)
				}
				n := len(ops)
				size := uint64(len(st))
				for k := 0; k < depth; k++ {
					size *= uint64(n)
				}
				return size, func(i uint64) error {
					radix := []int{}
					for k := 0; k < depth; k++ {
						radix = append(radix, n)
					}
					d := eng.Digits(i, append(radix, len(st))...)
					histRegs = st[d[depth]]
					seq := make([]int, depth)
					for k := range seq {
						seq[k] = d[depth-1-k]
					}
					sample("C01/"+name, "start %d: %s; %s; ...", d[depth], ops[seq[0]].name, ops[seq[1]].name)
					return note(runHist(&histRegs, ops, seq), "start state %d", d[depth])
				}
			}})
	}
	eng.Register(eng.Space{Prop: "C01", Name: "long-histories",
		Bound: "for every period-2 and period-3 operation pattern of a reduced operation menu: the pattern repeated to length 24 from each start state",
		Make: func(tier string) (uint64, func(uint64) error) {
			all := groupOps(true)
			var ops []gop
			for _, o := range all {
				switch {
				case strings.Contains(o.name, "Add(r0,r1)"), strings.Contains(o.name, "Sub(r1,r2)"), strings.Contains(o.name, "Neg(r"),
					strings.Contains(o.name, "Double(r0)"), strings.Contains(o.name, "SetBytes(r1"), strings.Contains(o.name, "ConditionalSet(r2,1)"),
					strings.Contains(o.name, "Add(r2,r2)"), strings.Contains(o.name, "Sub(r0,r0)"):
					ops = append(ops, o)
				}
			}
			if !eng.Full(tier) {
				var q []gop
				for k, o := range ops {
					if k%2 == 0 {
						q = append(q, o)
					}
				}
				ops = q
			}
			var st []pst
			for _, f := range startStates() {
				st = append(st, f())
			}
			n := len(ops)
			return eng.Prod(n, n, n, len(st)), func(i uint64) error {
				d := eng.Digits(i, n, n, n, len(st))
				histRegs = st[d[3]]
				var seq []int
				for k := 0; k < 8; k++ {
					seq = append(seq, d[2], d[1], d[0])
				}
				return note(runHist(&histRegs, ops, seq), "start state %d", d[3])
			}
		}})
}
