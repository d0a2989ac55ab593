package props

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C08: scalar ring -----------------------------------------------------

type sv struct {
	b B32
	n *big.Int
}

func svs(in []B32) []sv {
	r := make([]sv, len(in))
	for i, b := range in {
		r[i] = sv{b, ref.LEToBig(b[:])}
	}
	return r
}

func modL(x *big.Int) *big.Int { return x.Mod(x, ref.L) }

// isSc checks that s is exactly the canonical scalar x (already reduced).
func isSc(what string, ret, s *Sc, x *big.Int) error {
	if ret != s {
		return fmt.Errorf("%s does not return its receiver", what)
	}
	return scIs(what, s, x)
}

func scIs(what string, s *Sc, x *big.Int) error {
	got := scBytes(s)
	var want B32
	xb := x.Bytes()
	for i, c := range xb {
		want[len(xb)-1-i] = c
	}
	if got != want {
		return fmt.Errorf("%s: got %x, expected %x", what, got, want)
	}
	return nil
}

func junkSc(i uint64) Sc {
	var s Sc
	for k := range s {
		s[k] = uint32(i)*2654435761 + uint32(k)*0x9e3779b9 + 0xdeadbeef
	}
	return s
}

type scState struct {
	r [3]Sc
	m [3]*big.Int
}

type scop struct {
	name string
	do   func(s *scState) error
}

func scOps() []scop {
	var ops []scop
	for d := 0; d < 3; d++ {
		d := d
		for a := 0; a < 3; a++ {
			a := a
			un := func(name string, f func(x, y *Sc) *Sc, g func(y *big.Int) *big.Int) {
				name = fmt.Sprintf("r%d.%s(r%d)", d, name, a)
				ops = append(ops, scop{name, func(s *scState) error {
					x := modL(g(s.m[a]))
					ret := f(&s.r[d], &s.r[a])
					s.m[d] = x
					return isSc(name, ret, &s.r[d], x)
				}})
			}
			un("Neg", (*Sc).Neg, func(y *big.Int) *big.Int { return new(big.Int).Neg(y) })
			un("Square", (*Sc).Square, func(y *big.Int) *big.Int { return new(big.Int).Mul(y, y) })
			un("Set", (*Sc).Set, func(y *big.Int) *big.Int { return new(big.Int).Set(y) })
			for c := int32(0); c < 2; c++ {
				c := c
				name := fmt.Sprintf("r%d.ConditionalSet(r%d,%d)", d, a, c)
				ops = append(ops, scop{name, func(s *scState) error {
					s.r[d].ConditionalSet(&s.r[a], c)
					if c == 1 {
						s.m[d] = s.m[a]
					}
					return scIs(name, &s.r[d], s.m[d])
				}})
			}
			for b := 0; b < 3; b++ {
				b := b
				bin := func(name string, f func(x, y, z *Sc) *Sc, g func(y, z *big.Int) *big.Int) {
					name = fmt.Sprintf("r%d.%s(r%d,r%d)", d, name, a, b)
					ops = append(ops, scop{name, func(s *scState) error {
						x := modL(g(s.m[a], s.m[b]))
						ret := f(&s.r[d], &s.r[a], &s.r[b])
						s.m[d] = x
						return isSc(name, ret, &s.r[d], x)
					}})
				}
				bin("Add", (*Sc).Add, func(y, z *big.Int) *big.Int { return new(big.Int).Add(y, z) })
				bin("Sub", (*Sc).Sub, func(y, z *big.Int) *big.Int { return new(big.Int).Sub(y, z) })
				bin("Mul", (*Sc).Mul, func(y, z *big.Int) *big.Int { return new(big.Int).Mul(y, z) })
				// multiply-add/sub with the remaining register index, the destination and each operand
				for c := 0; c < 3; c++ {
					c := c
					n1 := fmt.Sprintf("r%d.MulAdd(r%d,r%d,r%d)", d, a, b, c)
					ops = append(ops, scop{n1, func(s *scState) error {
						x := new(big.Int).Mul(s.m[a], s.m[b])
						modL(x.Add(x, s.m[c]))
						ret := s.r[d].MulAdd(&s.r[a], &s.r[b], &s.r[c])
						s.m[d] = x
						return isSc(n1, ret, &s.r[d], x)
					}})
					n2 := fmt.Sprintf("r%d.MulSub(r%d,r%d,r%d)", d, a, b, c)
					ops = append(ops, scop{n2, func(s *scState) error {
						x := new(big.Int).Mul(s.m[a], s.m[b])
						modL(x.Sub(x, s.m[c]))
						ret := s.r[d].MulSub(&s.r[a], &s.r[b], &s.r[c])
						s.m[d] = x
						return isSc(n2, ret, &s.r[d], x)
					}})
				}
			}
		}
		n0 := fmt.Sprintf("r%d.SetZero", d)
		ops = append(ops, scop{n0, func(s *scState) error {
			s.m[d] = new(big.Int)
			return isSc(n0, s.r[d].SetZero(), &s.r[d], s.m[d])
		}})
		n1 := fmt.Sprintf("r%d.SetOne", d)
		ops = append(ops, scop{n1, func(s *scState) error {
			s.m[d] = big.NewInt(1)
			return isSc(n1, s.r[d].SetOne(), &s.r[d], s.m[d])
		}})
	}
	return ops
}

func init() {
	eng.Register(eng.Space{Prop: "C08", Name: "unary",
		Bound: "neg, square, set, conditional set 0/1, zero, one on every scalar of the 8368-letter alphabet (limb patterns, single digits, 2^i-2^j, order and power-of-two neighbourhoods), into a destination holding garbage",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := svs(alpha.ScBig())
			return uint64(len(al)), func(i uint64) error {
				a := al[i]
				s := scRaw(a.b)
				r := junkSc(i)
				eng.Op(7)
				eng.State(a.b[:])
				sample("C08/unary", "%x", a.b)
				x := new(big.Int)
				return note(chain(
					func() error { return isSc("Neg", r.Neg(&s), &r, modL(x.Neg(a.n))) },
					func() error { r = junkSc(i); return isSc("Square", r.Square(&s), &r, modL(x.Mul(a.n, a.n))) },
					func() error { r = junkSc(i); return isSc("Set", r.Set(&s), &r, a.n) },
					func() error { r = scRaw(al[0].b); r.ConditionalSet(&s, 1); return scIs("ConditionalSet 1", &r, a.n) },
					func() error {
						r = s
						t := scRaw(al[len(al)-1-int(i)].b)
						r.ConditionalSet(&t, 0)
						return scIs("ConditionalSet 0", &r, a.n)
					},
					func() error {
						r = s
						t := al[len(al)-1-int(i)]
						tt := scRaw(t.b)
						r.ConditionalSet(&tt, 1)
						return scIs("ConditionalSet 1", &r, t.n)
					},
					func() error { r = s; return isSc("SetZero", r.SetZero(), &r, new(big.Int)) },
					func() error { r = s; return isSc("SetOne", r.SetOne(), &r, big.NewInt(1)) },
				), "a = %x", a.b)
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "inverse",
		Bound: "inverse of every non-zero scalar of the alphabet (858 letters quick, 8368 thorough)",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := svs(eng.Pick(tier, alpha.ScMed(), alpha.ScBig()))
			return uint64(len(al)), func(i uint64) error {
				a := al[i]
				if a.n.Sign() == 0 {
					return nil
				}
				s := scRaw(a.b)
				r := junkSc(i)
				eng.Op(2)
				want := new(big.Int).ModInverse(a.n, ref.L)
				sample("C08/inverse", "%x", a.b)
				return note(chain(
					func() error { return isSc("Inverse", r.Inverse(&s), &r, want) },
					func() error { return isSc("Inverse in place", s.Inverse(&s), &s, want) },
				), "a = %x", a.b)
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "binary",
		Bound: "add, sub, mul of every pair (858 x 858 letters quick, 8368 x 858 thorough)",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := svs(eng.Pick(tier, alpha.ScMed(), alpha.ScBig()))
			B := svs(alpha.ScMed())
			x := new(big.Int)
			return eng.Prod(len(A), len(B)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(B))
				a, b := A[d[0]], B[d[1]]
				s, t := scRaw(a.b), scRaw(b.b)
				var r Sc
				eng.Op(3)
				sample("C08/binary", "%x %x", a.b, b.b)
				if err := isSc("Add", r.Add(&s, &t), &r, modL(x.Add(a.n, b.n))); err != nil {
					return note(err, "a=%x b=%x", a.b, b.b)
				}
				if err := isSc("Sub", r.Sub(&s, &t), &r, modL(x.Sub(a.n, b.n))); err != nil {
					return note(err, "a=%x b=%x", a.b, b.b)
				}
				if err := isSc("Mul", r.Mul(&s, &t), &r, modL(x.Mul(a.n, b.n))); err != nil {
					return note(err, "a=%x b=%x", a.b, b.b)
				}
				if i&63 == 0 {
					rb := scBytes(&r)
					eng.State(rb[:])
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "ternary",
		Bound: "multiply-add and multiply-subtract of every triple of the 118-letter (quick, third operand: 20 letters) / 118^3 (thorough) alphabet",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := svs(alpha.ScSmall())
			C := svs(eng.Pick(tier, alpha.ScTiny(), alpha.ScSmall()))
			x, y := new(big.Int), new(big.Int)
			return eng.Prod(len(A), len(A), len(C)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(A), len(C))
				a, b, c := A[d[0]], A[d[1]], C[d[2]]
				s, t, u := scRaw(a.b), scRaw(b.b), scRaw(c.b)
				var r Sc
				eng.Op(2)
				sample("C08/ternary", "%x %x %x", a.b, b.b, c.b)
				y.Mul(a.n, b.n)
				if err := isSc("MulAdd", r.MulAdd(&s, &t, &u), &r, modL(x.Add(y, c.n))); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, c.b)
				}
				if err := isSc("MulSub", r.MulSub(&s, &t, &u), &r, modL(x.Sub(y, c.n))); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, c.b)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "limb-products",
		Bound: "mul, multiply-add and multiply-subtract of every pair of scalars whose twelve 21-bit limbs equal one of 6 extreme or rounding-boundary values except for at most one limb, with 6 (quick) / 60 (thorough) addends of the same form",
		Make: func(tier string) (uint64, func(uint64) error) {
			var A []sv
			for _, x := range alpha.Limb21(12, 1) {
				b := ref.RedScalar(x)
				A = append(A, sv{b, ref.LEToBig(b[:])})
			}
			C := A[:eng.Pick(tier, 6, 60)]
			x, y := new(big.Int), new(big.Int)
			return eng.Prod(len(A), len(A), len(C)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(A), len(C))
				a, b, c := A[d[0]], A[d[1]], C[d[2]]
				s, t, u := scRaw(a.b), scRaw(b.b), scRaw(c.b)
				var r Sc
				eng.Op(2)
				y.Mul(a.n, b.n)
				if d[2] == 0 {
					eng.Op(1)
					if err := isSc("Mul", r.Mul(&s, &t), &r, modL(x.Set(y))); err != nil {
						return note(err, "a=%x b=%x", a.b, b.b)
					}
				}
				if err := isSc("MulAdd", r.MulAdd(&s, &t, &u), &r, modL(x.Add(y, c.n))); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, c.b)
				}
				if err := isSc("MulSub", r.MulSub(&s, &t, &u), &r, modL(x.Sub(y, c.n))); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, c.b)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "forced-results",
		Bound: "for every pair (a,b) of the 118-letter alphabet and every target t of the small alphabet: operands chosen so that a+c, a-c, a*c, a*b+c and a*b-c must be exactly t (results on and around 0, the order, limb boundaries)",
		Make: func(tier string) (uint64, func(uint64) error) {
			A := svs(alpha.ScSmall())
			T := svs(eng.Pick(tier, alpha.ScTiny(), alpha.ScSmall()))
			for k := int64(-8); k <= 8; k++ {
				b := ref.RedScalar(big.NewInt(k))
				T = append(T, sv{b, ref.LEToBig(b[:])})
			}
			return eng.Prod(len(A), len(A), len(T)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(T), len(A))
				a, b, t := A[d[0]], A[d[2]], T[d[1]]
				s, u := scRaw(a.b), scRaw(b.b)
				var r Sc
				load := func(x *big.Int) Sc { return scRaw(ref.RedScalar(x)) }
				ab := new(big.Int).Mul(a.n, b.n)
				c1 := load(new(big.Int).Sub(t.n, ab))
				c2 := load(new(big.Int).Sub(ab, t.n))
				eng.Op(2)
				if err := isSc("MulAdd", r.MulAdd(&s, &u, &c1), &r, t.n); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, scBytes(&c1))
				}
				if err := isSc("MulSub", r.MulSub(&s, &u, &c2), &r, t.n); err != nil {
					return note(err, "a=%x b=%x c=%x", a.b, b.b, scBytes(&c2))
				}
				if d[2] != 0 {
					return nil
				}
				c3 := load(new(big.Int).Sub(t.n, a.n))
				c4 := load(new(big.Int).Sub(a.n, t.n))
				eng.Op(3)
				if err := isSc("Add", r.Add(&s, &c3), &r, t.n); err != nil {
					return note(err, "a=%x b=%x", a.b, scBytes(&c3))
				}
				if err := isSc("Sub", r.Sub(&s, &c4), &r, t.n); err != nil {
					return note(err, "a=%x b=%x", a.b, scBytes(&c4))
				}
				if a.n.Sign() != 0 {
					iv := new(big.Int).ModInverse(a.n, ref.L)
					c5 := load(iv.Mul(iv, t.n))
					if err := isSc("Mul", r.Mul(&s, &c5), &r, t.n); err != nil {
						return note(err, "a=%x b=%x", a.b, scBytes(&c5))
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "add-carries",
		Bound: "a + b and a - b with a, b of the form m*2^(32k) +- e: every start and end limb of a carry or borrow chain",
		Make: func(tier string) (uint64, func(uint64) error) {
			var al []B32
			one := big.NewInt(1)
			for k := uint(0); k < 8; k++ {
				for _, m := range []int64{1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe} {
					for e := int64(-2); e <= 2; e++ {
						x := new(big.Int).Lsh(big.NewInt(m), 32*k)
						al = append(al, ref.RedScalar(x.Add(x, big.NewInt(e))))
					}
				}
				for j := uint(0); j < k; j++ {
					x := new(big.Int).Sub(new(big.Int).Lsh(one, 32*k), new(big.Int).Lsh(one, 32*j))
					al = append(al, ref.RedScalar(x), ref.RedScalar(new(big.Int).Neg(x)))
				}
			}
			A := svs(alpha.Dedup(al))
			x := new(big.Int)
			return eng.Prod(len(A), len(A)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(A))
				a, b := A[d[0]], A[d[1]]
				s, t := scRaw(a.b), scRaw(b.b)
				var r Sc
				eng.Op(2)
				if err := isSc("Add", r.Add(&s, &t), &r, modL(x.Add(a.n, b.n))); err != nil {
					return note(err, "a=%x b=%x", a.b, b.b)
				}
				if err := isSc("Sub", r.Sub(&s, &t), &r, modL(x.Sub(a.n, b.n))); err != nil {
					return note(err, "a=%x b=%x", a.b, b.b)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C08", Name: "histories",
		Bound: "all operation sequences over three scalar registers (add, sub, mul, muladd, mulsub, neg, square, set, conditional set, zero, one; all register choices, so all aliasings), depth 2 from 12 start states (quick), depth 3 from 2 (thorough)",
		Make: func(tier string) (uint64, func(uint64) error) {
			ops := scOps()
			A := svs(alpha.ScTiny())
			var starts [][3]sv
			n := eng.Pick(tier, 12, 2)
			for i := 0; i < n; i++ {
				starts = append(starts, [3]sv{A[(3*i)%len(A)], A[(5*i+5)%len(A)], A[(7*i+16)%len(A)]})
			}
			depth := eng.Pick(tier, 2, 3)
			size := uint64(len(starts))
			for k := 0; k < depth; k++ {
				size *= uint64(len(ops))
			}
			return size, func(i uint64) error {
				st := starts[i%uint64(len(starts))]
				i /= uint64(len(starts))
				var s scState
				for k := range s.r {
					s.r[k], s.m[k] = scRaw(st[k].b), st[k].n
				}
				var trace []string
				for k := 0; k < depth; k++ {
					op := ops[i%uint64(len(ops))]
					i /= uint64(len(ops))
					trace = append(trace, op.name)
					eng.Op(1)
					if err := op.do(&s); err != nil {
						return note(err, "start %x %x %x, sequence %v", st[0].b, st[1].b, st[2].b, trace)
					}
					for j := range s.r {
						if err := scIs(fmt.Sprintf("register r%d after %s", j, op.name), &s.r[j], s.m[j]); err != nil {
							return note(err, "start %x %x %x, sequence %v", st[0].b, st[1].b, st[2].b, trace)
						}
					}
				}
				sample("C08/histories", "%v", trace)
				return nil
			}
		}})

	// ---- C09: conversions, comparisons ------------------------------------
	setBytes := func(b B32) error {
		eng.Op(6)
		eng.State(b[:])
		n := ref.LEToBig(b[:])
		m := new(big.Int).And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 253), big.NewInt(1)))
		m.Mod(m, ref.L)
		s := junkSc(1)
		in := b
		if err := isSc("SetBytes", s.SetBytes(&in), &s, m); err != nil {
			return note(err, "input %x", b)
		}
		want := ref.RedScalar(m)
		if err := wantBytes("Bytes", s.Bytes(), want[:]); err != nil {
			return note(err, "input %x", b)
		}
		var out B32
		for k := range out {
			out[k] = 0xa5
		}
		if s.BytesInto(&out) != &s || out != want {
			return fmt.Errorf("BytesInto gave %x, expected %x (input %x)", out, want, b)
		}
		if s.BigInt().Cmp(m) != 0 {
			return fmt.Errorf("BigInt gave %v, expected %v (input %x)", s.BigInt(), m, b)
		}
		old := scRaw(ref.RedScalar(big.NewInt(0x1234567)))
		t := old
		ok := t.SetBytesStrict(&in)
		if canon := n.Cmp(ref.L) < 0; ok != canon {
			return fmt.Errorf("SetBytesStrict(%x) = %v, but canonical is %v", b, ok, canon)
		}
		if ok && scBytes(&t) != b {
			return fmt.Errorf("SetBytesStrict(%x) gave %x", b, scBytes(&t))
		}
		if !ok && t != old {
			return fmt.Errorf("failing SetBytesStrict(%x) changed the scalar to %x", b, scBytes(&t))
		}
		if in != b {
			return fmt.Errorf("input buffer changed")
		}
		return nil
	}
	eng.Register(eng.Space{Prop: "C09", Name: "set-bytes",
		Bound: "SetBytes, SetBytesStrict, Bytes, BytesInto, BigInt on every string of the 10556-letter 32-byte alphabet (multiples of the order +-3, all byte positions where a string first differs from the order, limb patterns, top-bit variants)",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := alpha.Raw32()
			return uint64(len(al)), func(i uint64) error { sample("C09/set-bytes", "%x", al[i]); return setBytes(al[i]) }
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "set-bytes-ranges",
		Bound: "every integer within N of 0, 2^252, the order, 2*order-1.., 2^253, 2^255 and 2^256 (N = 4000 quick, 100000 thorough)",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.N(tier, 4000, 100000)
			one := big.NewInt(1)
			c := []*big.Int{new(big.Int), new(big.Int).Lsh(one, 252), ref.L, new(big.Int).Lsh(one, 253), new(big.Int).Lsh(ref.L, 1),
				new(big.Int).Lsh(one, 254), new(big.Int).Lsh(one, 255), new(big.Int).Lsh(one, 256), new(big.Int).Lsh(one, 128)}
			top := new(big.Int).Lsh(one, 256)
			return eng.Prod(len(c), 2*n), func(i uint64) error {
				d := eng.Digits(i, len(c), 2*n)
				x := new(big.Int).Add(c[d[0]], big.NewInt(int64(d[1]-n)))
				x.Mod(x, top)
				return setBytes(alpha.Le(x))
			}
		}})
	reduced := func(b [64]byte) error {
		eng.Op(1)
		in := b
		s := junkSc(2)
		want := ref.LEToBig(b[:])
		want.Mod(want, ref.L)
		if err := isSc("SetReduced", s.SetReduced(&in), &s, want); err != nil {
			return note(err, "input %x", b)
		}
		if in != b {
			return fmt.Errorf("input buffer changed")
		}
		return nil
	}
	eng.Register(eng.Space{Prop: "C09", Name: "set-reduced-pairs",
		Bound: "SetReduced on every concatenation of two 32-byte letters (low half: 89, high half: 832 letters quick; 832 x 832 thorough)",
		Make: func(tier string) (uint64, func(uint64) error) {
			lo := eng.Pick(tier, alpha.FeSmall(), alpha.FeMed())
			hi := alpha.FeMed()
			return eng.Prod(len(lo), len(hi)), func(i uint64) error {
				d := eng.Digits(i, len(lo), len(hi))
				var b [64]byte
				copy(b[:], lo[d[0]][:])
				copy(b[32:], hi[d[1]][:])
				sample("C09/set-reduced-pairs", "%x", b)
				eng.State(b[:])
				return reduced(b)
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "set-reduced-runs",
		Bound: "SetReduced on every run of ones 2^i-2^j (0<=j<=i<=512) and its complement",
		Make: func(tier string) (uint64, func(uint64) error) {
			return eng.Prod(513, 513, 2), func(i uint64) error {
				d := eng.Digits(i, 513, 513, 2)
				if d[0] > d[1] {
					return nil
				}
				x := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(d[1])), new(big.Int).Lsh(big.NewInt(1), uint(d[0])))
				var b [64]byte
				copy(b[:], ref.BigToLE(x, 64))
				if d[2] == 1 {
					for k := range b {
						b[k] ^= 255
					}
				}
				return reduced(b)
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "set-reduced-limbs",
		Bound: "SetReduced on 24 limbs of 21 bits at one of 6 extreme or rounding-boundary values except for at most two limbs, which take every other such value at every pair of positions; top 8 bits clear or set",
		Make: func(tier string) (uint64, func(uint64) error) {
			xs := alpha.Limb21(24, 2)
			return eng.Prod(len(xs), 2), func(i uint64) error {
				d := eng.Digits(i, len(xs), 2)
				var b [64]byte
				copy(b[:], ref.BigToLE(xs[d[0]], 64))
				b[63] = byte(-d[1])
				eng.State(b[:])
				return reduced(b)
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "set-reduced-multiples",
		Bound: "SetReduced on m*l+e for m = 2^k-1, 2^k, 2^k+1 (k<=259), the largest multiples below 2^512 and products of letters, |e| <= 4 quick / 40 thorough",
		Make: func(tier string) (uint64, func(uint64) error) {
			e := eng.Pick(tier, 4, 40)
			var ms []*big.Int
			one := big.NewInt(1)
			for k := uint(0); k < 260; k++ {
				p := new(big.Int).Lsh(one, k)
				ms = append(ms, p, new(big.Int).Add(p, one), new(big.Int).Sub(p, one))
			}
			top := new(big.Int).Lsh(one, 512)
			q := new(big.Int).Div(top, ref.L)
			for k := int64(0); k < 20; k++ {
				ms = append(ms, new(big.Int).Sub(q, big.NewInt(k)))
			}
			for _, b := range alpha.ScMed() {
				ms = append(ms, ref.LEToBig(b[:]))
			}
			return eng.Prod(len(ms), 2*e+1), func(i uint64) error {
				d := eng.Digits(i, len(ms), 2*e+1)
				x := new(big.Int).Mul(ms[d[0]], ref.L)
				x.Add(x, big.NewInt(int64(d[1]-e)))
				if x.Sign() < 0 || x.Cmp(top) >= 0 {
					return nil
				}
				var b [64]byte
				copy(b[:], ref.BigToLE(x, 64))
				eng.State(b[:])
				return reduced(b)
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "big-int",
		Bound: "SetBigInt on +-(2^k+e) for k<=1100, |e|<=2, +-m*l+e, +-every letter of the 32-byte alphabet, and +-64-byte values; argument unchanged; BigInt inverse",
		Make: func(tier string) (uint64, func(uint64) error) {
			var xs []*big.Int
			one := big.NewInt(1)
			for k := uint(0); k <= 1100; k++ {
				for e := int64(-2); e <= 2; e++ {
					xs = append(xs, new(big.Int).Add(new(big.Int).Lsh(one, k), big.NewInt(e)))
				}
			}
			for _, b := range eng.Pick(tier, alpha.FeMed(), alpha.Raw32()) {
				x := ref.LEToBig(b[:])
				xs = append(xs, x, new(big.Int).Mul(x, ref.L), new(big.Int).Add(one, new(big.Int).Mul(x, ref.L)), new(big.Int).Mul(x, x))
			}
			return eng.Prod(len(xs), 2), func(i uint64) error {
				d := eng.Digits(i, len(xs), 2)
				x := new(big.Int).Set(xs[d[0]])
				if d[1] == 1 {
					x.Neg(x)
				}
				keep := new(big.Int).Set(x)
				want := new(big.Int).Mod(x, ref.L)
				s := junkSc(3)
				eng.Op(2)
				sample("C09/big-int", "%v", x)
				eng.State(x.Bytes())
				if err := isSc("SetBigInt", s.SetBigInt(x), &s, want); err != nil {
					return note(err, "x = %v", keep)
				}
				if x.Cmp(keep) != 0 {
					return fmt.Errorf("SetBigInt changed its argument %v to %v", keep, x)
				}
				if y := s.BigInt(); y.Cmp(want) != 0 {
					return fmt.Errorf("BigInt gave %v, expected %v", y, want)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "uint64",
		Bound: "SetUint64 on all values 2^k+e (|e|<=3), all runs of ones, all single-byte patterns, and every integer < N",
		Make: func(tier string) (uint64, func(uint64) error) {
			var xs []uint64
			for k := uint(0); k < 64; k++ {
				for e := -3; e <= 3; e++ {
					xs = append(xs, uint64(1)<<k+uint64(int64(e)))
				}
				for j := uint(0); j < k; j++ {
					xs = append(xs, uint64(1)<<k-uint64(1)<<j, ^(uint64(1)<<k - uint64(1)<<j))
				}
			}
			for p := uint(0); p < 8; p++ {
				for v := uint64(0); v < 256; v++ {
					xs = append(xs, v<<(8*p), ^(v << (8 * p)))
				}
			}
			for k := 0; k < eng.N(tier, 4096, 200000); k++ {
				xs = append(xs, uint64(k))
			}
			return uint64(len(xs)), func(i uint64) error {
				s := junkSc(4)
				eng.Op(1)
				return note(isSc("SetUint64", s.SetUint64(xs[i]), &s, new(big.Int).SetUint64(xs[i])), "x=%#x", xs[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "derive",
		Bound: "Derive and DeriveShort on byte strings of every length 0..300 (quick) / 0..1100 (thorough), and lengths around powers of two and 3/2 powers of two up to 2^20+1, x 7 fillings; SHA-512 reduced, respectively its first 16 bytes",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.Pick(tier, 301, 1101)
			long := longLengths(n - 1)
			return eng.Prod(n+len(long), 7), func(i uint64) error {
				d := eng.Digits(i, n+len(long), 7)
				if d[0] >= n {
					d[0] = long[d[0]-n]
				}
				in := make([]byte, d[0], d[0]+7)
				for k := range in {
					switch d[1] {
					case 0:
						in[k] = byte(k)
					case 1:
						in[k] = 0
					case 2:
						in[k] = 255
					case 3:
						in[k] = byte(k*37 + 11)
					case 4:
						in[k] = byte(k >> 8 * 7)
					case 5:
						in[k] = ' '
					case 6:
						in[k] = "\n=0A"[(len(in)-k)%4]
					}
				}
				if d[0] == 0 && d[1] == 0 {
					in = nil
				}
				keep := append([]byte{}, in...)
				h := sha512.Sum512(in)
				full := ref.LEToBig(h[:])
				full.Mod(full, ref.L)
				half := ref.LEToBig(h[:16])
				eng.Op(2)
				sample("C09/derive", "length %d", d[0])
				s, t := junkSc(5), junkSc(6)
				if err := chain(
					func() error { return isSc("Derive", s.Derive(in), &s, full) },
					func() error { return isSc("DeriveShort", t.DeriveShort(in), &t, half) },
				); err != nil {
					return note(err, "input of %d bytes %.80x", len(keep), keep)
				}
				if !bytes.Equal(in, keep) {
					return fmt.Errorf("input buffer changed")
				}
				return nil
			}
		}})
	cmp := func(a, b B32) error {
		s, t := scRaw(a), scRaw(b)
		want := int32(0)
		if a == b {
			want = 1
		}
		eng.Op(3)
		if g := s.EqualsI(&t); g != want {
			return fmt.Errorf("EqualsI(%x, %x) = %d, expected %d", a, b, g, want)
		}
		if g := s.Equals(&t); g != (want == 1) {
			return fmt.Errorf("Equals(%x, %x) = %v", a, b, g)
		}
		nz := int32(1)
		if a == (B32{}) {
			nz = 0
		}
		if g := s.IsNonZeroI(); g != nz {
			return fmt.Errorf("IsNonZeroI(%x) = %d, expected %d", a, g, nz)
		}
		if scBytes(&s) != a || scBytes(&t) != b {
			return fmt.Errorf("comparison changed an operand")
		}
		return nil
	}
	eng.Register(eng.Space{Prop: "C09", Name: "compare-pairs",
		Bound: "EqualsI, Equals, IsNonZeroI on every pair of the 858-letter alphabet",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := alpha.ScMed()
			return eng.Prod(len(al), len(al)), func(i uint64) error {
				d := eng.Digits(i, len(al), len(al))
				return cmp(al[d[0]], al[d[1]])
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "compare-two-bits",
		Bound: "for each of 6 (quick) / 118 (thorough) scalars: against every reduced scalar differing in exactly one or two bits; and IsNonZeroI on all scalars with one or two bits set",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := eng.Pick(tier, []B32{alpha.ScTiny()[0], alpha.ScTiny()[1], alpha.ScTiny()[5], alpha.GenSc(0), alpha.GenSc(1), alpha.GenSc(2)}, alpha.ScSmall())
			return eng.Prod(len(al), 253, 253), func(i uint64) error {
				d := eng.Digits(i, len(al), 253, 253)
				if d[1] > d[2] {
					return nil
				}
				a := al[d[0]]
				b := a
				b[d[1]/8] ^= 1 << uint(d[1]%8)
				if d[1] != d[2] {
					b[d[2]/8] ^= 1 << uint(d[2]%8)
				}
				if ref.LEToBig(b[:]).Cmp(ref.L) >= 0 {
					return nil
				}
				if err := cmp(a, b); err != nil {
					return err
				}
				return cmp(b, a)
			}
		}})
	eng.Register(eng.Space{Prop: "C09", Name: "compare-limb-deltas",
		Bound: "pairs of scalars whose 32-bit limbs differ by patterns from {0, 1, 2^31, 2^32-1, 2^16} in all 5^8 combinations (differences that cancel under addition, xor or truncation)",
		Make: func(tier string) (uint64, func(uint64) error) {
			pats := []uint32{0, 1, 0x80000000, 0xffffffff, 0x10000}
			bases := []B32{{}, alpha.GenSc(3)}
			return eng.Prod(5, 5, 5, 5, 5, 5, 5, 4, 2), func(i uint64) error {
				d := eng.Digits(i, 5, 5, 5, 5, 5, 5, 5, 4, 2)
				a := bases[d[8]]
				s := scRaw(a)
				for k := 0; k < 7; k++ {
					s[k] ^= pats[d[k]]
				}
				s[7] ^= []uint32{0, 1, 0x08000000, 0x07ffffff}[d[7]]
				b := scBytes(&s)
				if ref.LEToBig(b[:]).Cmp(ref.L) >= 0 {
					return nil
				}
				if err := cmp(a, b); err != nil {
					return err
				}
				return cmp(b, a)
			}
		}})
}
