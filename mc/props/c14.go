package props

import (
	"fmt"
	"reflect"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C14: identical outcomes in all build configurations -------------------
//
// Every case records its outcome (eng.Outcome); the driver runs the same space
// in every configuration and compares the outcomes case by case.

func init() {
	type c14Case struct {
		in *minst
		t  []int
	}
	eng.Register(eng.Space{Prop: "C14", Name: "operations",
		Bound: "every exported operation (132) on all tuples of a product of argument alphabets plus every letter of every alphabet in every argument; the rendered outcome (encodings, affine coordinates, scalars, returned bytes, flags, error texts, panics) is compared between all configurations",
		Make: func(tier string) (uint64, func(uint64) error) {
			limit := eng.Pick(tier, 400, 6000)
			var cs []c14Case
			for _, in := range allInst() {
				l := limit
				if c13Heavy(in) {
					l /= 4
				}
				for _, t := range tuples(in, l) {
					cs = append(cs, c14Case{in, t})
				}
			}
			return uint64(len(cs)), func(i uint64) error {
				c := cs[i]
				out := ""
				if err := eng.Guard(func() error {
					al := richAlloc(c.in, c.t)
					ret := c.in.call(al)
					out = c.in.outcome(al, ret)
					for _, r := range ret {
						if r.Kind() == reflect.Interface && !r.IsNil() {
							if e, ok := r.Interface().(error); ok {
								out += "; error text: " + e.Error()
							}
						}
					}
					return nil
				}); err != nil {
					out = "panic " + strings.SplitN(err.Error(), "\n", 2)[0]
				}
				sample("C14/operations", "%v(%s) -> %s", c.in.op, describe(c.in, c.t), cutStr(out))
				eng.State([]byte(c.in.op.String()), []byte(out))
				eng.Outcome(i, out, func() string {
					return fmt.Sprintf("%v(%s) -> %s", c.in.op, describe(c.in, c.t), cutStr(out))
				})
				return nil
			}
		}})

	// histories: sequences of point operations over three registers
	type step struct {
		name string
		f    func(p *[3]Pt)
	}
	sc := func(b B32) Sc { return scRaw(b) }
	steps := func() []step {
		s1, s2 := sc(alpha.GenSc(11)), sc(alpha.ScTiny()[5])
		h := alpha.Gen32("c14", 1)
		return []step{
			{"p0=p0+p1", func(p *[3]Pt) { p[0].Add(&p[0], &p[1]) }},
			{"p1=p0-p1", func(p *[3]Pt) { p[1].Sub(&p[0], &p[1]) }},
			{"p0=2p0", func(p *[3]Pt) { p[0].Double(&p[0]) }},
			{"p1=-p0", func(p *[3]Pt) { p[1].Neg(&p[0]) }},
			{"p0=s1*p1", func(p *[3]Pt) { p[0].ScalarMult(&p[1], &s1) }},
			{"p1=s2*p0 vartime", func(p *[3]Pt) { p[1].PublicScalarMult(&p[0], &s2) }},
			{"p0=elligator", func(p *[3]Pt) { p[0].SetElligator(&h) }},
			{"p1=s1*B", func(p *[3]Pt) { p[1].ScalarMultBase(&s1) }},
			{"p0=lizard of encoding of p1", func(p *[3]Pt) { b := p[1].Bytes(); var q [16]byte; copy(q[:], b); p[0].SetLizard(&q) }},
			{"p0<->p1 conditionally", func(p *[3]Pt) {
				t := p[0]
				p[0].ConditionalSet(&p[1], 1)
				p[1].ConditionalSet(&t, 1)
				p[1].ConditionalSet(&p[0], 0)
			}},
			{"p0=decode(encode(p0))", func(p *[3]Pt) { var b B32; p[0].BytesInto(&b); p[0].SetBytes(&b) }},
			{"p1=inverse elligator of p0", func(p *[3]Pt) {
				var f [8]FE
				m := (*EP)(&p[0]).RistrettoElligator2Inverse(&f)
				for k := range f {
					if m>>uint(k)&1 == 1 {
						var b B32
						f[k].BytesInto(&b)
						p[1].SetElligator(&b)
						return
					}
				}
			}},
		}
	}
	eng.Register(eng.Space{Prop: "C14", Name: "histories",
		Bound: "every sequence of 3 (thorough: 4) out of 12 point operations over two registers from 2 initial states; encodings, equality and Lizard results of the final registers are compared between all configurations",
		Make: func(tier string) (uint64, func(uint64) error) {
			st := steps()
			n := eng.Pick(tier, 3, 4)
			radix := make([]int, n+1)
			for k := range radix {
				radix[k] = len(st)
			}
			g := ref.FeBytes(alpha.Gen32("c14", 2))
			inits := [][3]Pt{{mkP(ref.Base, ref.One), mkP(ref.Torsion4[1], g)}, {mkP(ref.MapBytes(alpha.Gen32("c14", 3)), g), mkP(ref.Base.Neg(), g.Sqr())}}
			radix[n] = len(inits)
			return eng.Prod(radix...), func(i uint64) error {
				d := eng.Digits(i, radix...)
				p := inits[d[n]]
				var names []string
				out := ""
				if err := eng.Guard(func() error {
					for _, k := range d[:n] {
						st[k].f(&p)
						names = append(names, st[k].name)
						eng.Op(1)
					}
					var l [16]byte
					for k := 0; k < 2; k++ {
						e := p[k].LizardInto(&l)
						out += fmt.Sprintf("%x lizard %v; ", p[k].Bytes(), e)
					}
					out += fmt.Sprint(p[0].EqualsI(&p[1]))
					return nil
				}); err != nil {
					out = "panic " + strings.SplitN(err.Error(), "\n", 2)[0]
				}
				sample("C14/histories", "%v -> %s", names, out)
				eng.State([]byte(out))
				eng.Outcome(i, out, func() string { return fmt.Sprintf("start %d, %v -> %s", d[n], names, out) })
				return nil
			}
		}})

	// The spaces of other properties, executed in more configurations: a case must be decided alike in builds
	// that share the representation.  The driver runs them in the builds that no other check covers and, for
	// cases that fail there, looks at the verdict of the ordinary build: a defect common to both is not reported
	// here.
	eng.Late = append(eng.Late, func() {
		deep := map[string]bool{"C11/near-equal": true, "C11/histories": true, "C11/histories-deep": true, "C08/histories": true,
			"C09/compare-pairs": true, "C09/compare-limb-deltas": true, "C09/compare-two-bits": true, "C01/histories": true, "C18/histories": true,
			"C11/binary-all-forms": true, "C18/binary": true, "C18/scalars": true,
			"C06/images": true, "C06/reps": true, "C06/multiples": true, "C07/reject-near": true, "C07/reject-other": true, "C07/sums": true,
			"C08/limb-products": true, "C02/digit-pairs": true, "C02/table-histories": true, "C02/ranges": true,
			"C02/memory": true, "C18/memory": true, "C06/coordinate-patterns": true}
		for _, prop := range []string{"C11", "C08", "C09", "C01", "C02", "C05", "C18", "C03", "C04", "C06", "C07"} {
			for _, s := range eng.All(prop) {
				s := s
				if deep[prop+"/"+s.Name] && !eng.Full(eng.Tier) {
					continue
				}
				eng.Register(eng.Space{Prop: "C14", Name: "verdict-" + prop + "-" + s.Name,
					Bound:    "verdicts of the cases of " + prop + " (" + s.Bound + "), compared between builds with the same representation",
					Configs:  s.Configs,
					OnDemand: []string{"default", "generic"},
					Make: func(tier string) (uint64, func(uint64) error) {
						n, run := s.Make("quick")
						return n, func(i uint64) error {
							v := "holds"
							err := eng.Guard(func() error { return run(i) })
							if err != nil {
								v = "fails"
							}
							if err != nil || eng.KeepText {
								eng.Outcome(i, v, func() string { return fmt.Sprintf("%s %s case %d %s: %v", prop, s.Name, i, v, err) })
							}
							return nil
						}
					}})
			}
		}
	})
}
