package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C19: scalars and group elements fit together, protocols work ----------

// baseRoutes are all ways to compute s*B, varRoutes all ways to compute s*q.
var baseRoutes = []struct {
	name string
	f    func(p *Pt, s *Sc)
}{
	{"ScalarMultBase", func(p *Pt, s *Sc) { p.ScalarMultBase(s) }},
	{"PublicScalarMultBase", func(p *Pt, s *Sc) { p.PublicScalarMultBase(s) }},
	{"ScalarMult(base)", func(p *Pt, s *Sc) { var b Pt; b.SetBase(); p.ScalarMult(&b, s) }},
	{"PublicScalarMult(base) in place", func(p *Pt, s *Sc) { p.SetBase(); p.PublicScalarMult(p, s) }},
	{"table of base", func(p *Pt, s *Sc) { p.ScalarMultTable(&c19base, s) }},
	{"public table of base", func(p *Pt, s *Sc) { p.PublicScalarMultTable(&c19base, s) }},
}

var varRoutes = []struct {
	name string
	f    func(p, q *Pt, s *Sc)
}{
	{"ScalarMult", func(p, q *Pt, s *Sc) { p.ScalarMult(q, s) }},
	{"PublicScalarMult", func(p, q *Pt, s *Sc) { p.PublicScalarMult(q, s) }},
	{"table", func(p, q *Pt, s *Sc) { c19tab.Compute(q); p.ScalarMultTable(&c19tab, s) }},
	{"public table", func(p, q *Pt, s *Sc) { c19tab.Compute(q); p.PublicScalarMultTable(&c19tab, s) }},
}

var c19base, c19tab Tab

// transports send an element to the other party.
var transports = []struct {
	name string
	f    func(p *Pt) (*Pt, error)
}{
	{"same object", func(p *Pt) (*Pt, error) { return p, nil }},
	{"bytes", func(p *Pt) (*Pt, error) {
		var b B32
		p.BytesInto(&b)
		r := new(Pt)
		if !r.SetBytes(&b) {
			return nil, fmt.Errorf("encoding %x of a computed element is rejected", b)
		}
		return r, nil
	}},
	{"binary", func(p *Pt) (*Pt, error) {
		b, err := p.MarshalBinary()
		if err != nil {
			return nil, err
		}
		r := new(Pt)
		return r, r.UnmarshalBinary(b)
	}},
	{"text", func(p *Pt) (*Pt, error) {
		b, err := p.MarshalText()
		if err != nil {
			return nil, err
		}
		r := new(Pt)
		return r, r.UnmarshalText(b)
	}},
	{"json", func(p *Pt) (*Pt, error) {
		b, err := json.Marshal(p)
		if err != nil {
			return nil, err
		}
		r := new(Pt)
		return r, json.Unmarshal(b, r)
	}},
}

// removals compute c - s.
var removals = []struct {
	name string
	f    func(c, s *Pt) Pt
}{
	{"Sub", func(c, s *Pt) Pt { var r Pt; r.Sub(c, s); return r }},
	{"Neg, Add", func(c, s *Pt) Pt { var r Pt; r.Neg(s); r.Add(c, &r); return r }},
	{"Sub in place", func(c, s *Pt) Pt { r := *s; r.Sub(c, &r); return r }},
}

func samePt(what string, p, q *Pt) error {
	var a, b B32
	p.BytesInto(&a)
	q.BytesInto(&b)
	if a != b {
		return fmt.Errorf("%s: %x and %x differ", what, a, b)
	}
	if !p.Equals(q) || q.EqualsI(p) != 1 {
		return fmt.Errorf("%s: both encode to %x but do not compare equal", what, a)
	}
	return nil
}

func init() {
	setup := func() {
		var b Pt
		b.SetBase()
		c19base.Compute(&b)
	}
	keys := func(tier string) []B32 {
		l1 := ref.RedScalar(new(big.Int).Sub(ref.L, big.NewInt(1)))
		one := ref.RedScalar(big.NewInt(1))
		ks := []B32{alpha.GenSc(3), l1}
		if tier != "quick" {
			ks = append(ks, one, alpha.GenSc(4), ref.RedScalar(new(big.Int).Lsh(big.NewInt(1), 252)))
		}
		return ks
	}
	eng.Register(eng.Space{Prop: "C19", Name: "el-gamal",
		Bound: "ElGamal encryption of a Lizard payload and decryption: every choice of routine for the key (6), the transport of key and ciphertext (5 each), the ephemeral key (6), the shared secret (4 and 4), the addition (2) and its removal (3), for 2 (quick, routine and transport of the key rotating) / 5 (thorough) keys",
		Make: func(tier string) (uint64, func(uint64) error) {
			setup()
			ks := keys(tier)
			dims := []int{len(baseRoutes), len(transports), len(baseRoutes), len(varRoutes), 2, len(transports), len(varRoutes), len(removals), len(ks)}
			if tier == "quick" {
				dims[0], dims[1] = 1, 1
			}
			return eng.Prod(dims...), func(i uint64) error {
				d := eng.Digits(i, dims...)
				if tier == "quick" {
					d[0], d[1] = int(i+i/6+i/36)%len(baseRoutes), int(i+i/5+i/25)%len(transports)
				}
				x, r := scRaw(ks[d[8]]), scRaw(alpha.GenSc(int(i%97)))
				var data [16]byte
				h := alpha.Gen32("elgamal", int(i%89))
				copy(data[:], h[:])
				var pk, c1, sh, c2, m, sh2 Pt
				eng.Op(10)
				baseRoutes[d[0]].f(&pk, &x)
				kp, err := transports[d[1]].f(&pk)
				if err != nil {
					return note(err, "transport of the public key (%s)", transports[d[1]].name)
				}
				baseRoutes[d[2]].f(&c1, &r)
				varRoutes[d[3]].f(&sh, kp, &r)
				m.SetLizard(&data)
				if d[4] == 0 {
					c2.Add(&m, &sh)
				} else {
					c2.Set(&m).Add(&sh, &c2)
				}
				t := transports[d[5]]
				k1, err := t.f(&c1)
				if err != nil {
					return note(err, "transport of the ciphertext (%s)", t.name)
				}
				k2, err := t.f(&c2)
				if err != nil {
					return note(err, "transport of the ciphertext (%s)", t.name)
				}
				varRoutes[d[6]].f(&sh2, k1, &x)
				p := removals[d[7]].f(k2, &sh2)
				stateP(&p)
				what := fmt.Sprintf("key by %s sent as %s, ephemeral by %s, secret by %s, sent as %s, secret by %s, removed by %s, x=%x",
					baseRoutes[d[0]].name, transports[d[1]].name, baseRoutes[d[2]].name, varRoutes[d[3]].name, t.name, varRoutes[d[6]].name, removals[d[7]].name, ks[d[8]])
				sample("C19/el-gamal", "%s", what)
				if err := samePt("plaintext and decryption", &m, &p); err != nil {
					return note(err, "%s", what)
				}
				if got := p.Lizard(); !bytes.Equal(got, data[:]) {
					return fmt.Errorf("%s: the decryption decodes to %x, the payload was %x", what, got, data)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C19", Name: "key-agreement",
		Bound: "Diffie-Hellman: every pair of the 118-letter scalar alphabet, routines and transports rotating so that each pair of routines meets each transport; both parties get the element (a*b)*B",
		Make: func(tier string) (uint64, func(uint64) error) {
			setup()
			A := alpha.ScSmall()
			if tier == "quick" {
				A = append(append([]B32{}, A[:30]...), alpha.ScTiny()...)
			}
			return eng.Prod(len(A), len(A)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(A))
				a, b := scRaw(A[d[0]]), scRaw(A[d[1]])
				var pa, pb, sa, sb, s Pt
				var ab Sc
				k := int(i)
				eng.Op(7)
				baseRoutes[k%6].f(&pa, &a)
				baseRoutes[k/6%6].f(&pb, &b)
				t := transports[k/36%5]
				qa, err := t.f(&pa)
				if err != nil {
					return note(err, "a=%x", A[d[0]])
				}
				qb, err := t.f(&pb)
				if err != nil {
					return note(err, "b=%x", A[d[1]])
				}
				varRoutes[k/180%4].f(&sa, qb, &a)
				varRoutes[k/720%4].f(&sb, qa, &b)
				ab.Mul(&a, &b)
				s.ScalarMultBase(&ab)
				stateP(&sa)
				return note(chain(
					func() error { return samePt("the two shared secrets", &sa, &sb) },
					func() error { return samePt("a*(b*B) and (a*b)*B", &sa, &s) },
				), "a=%x b=%x", A[d[0]], A[d[1]])
			}
		}})
	eng.Register(eng.Space{Prop: "C19", Name: "module-laws",
		Bound: "(a+b)P = aP+bP, (a-b)P = aP-bP, (ab)P = a(bP), (ab+c)P, (ab-c)P, (-a)P = -(aP), (a^-1)(aP) = P, a(P+Q) = aP+aQ for every pair of a 38-letter (quick) / 118-letter (thorough) scalar alphabet, points and routines rotating",
		Make: func(tier string) (uint64, func(uint64) error) {
			setup()
			A := alpha.ScSmall()
			if tier == "quick" {
				A = append(append([]B32{}, A[:18]...), alpha.ScTiny()...)
			}
			var reps []Rep
			tg := alpha.Targets()
			for k, p := range alpha.PtsSmall() {
				reps = append(reps, Rep{p, p.Add(ref.Torsion4[k%4]).Affine(), tg[k%len(tg)]})
			}
			return eng.Prod(len(A), len(A)), func(i uint64) error {
				d := eng.Digits(i, len(A), len(A))
				a, b := scRaw(A[d[0]]), scRaw(A[d[1]])
				p, q := reps[int(i)%len(reps)].P(), reps[int(i/3)%len(reps)].P()
				k := int(i)
				mul := func(r *Pt, s *Sc, q *Pt) *Pt { varRoutes[k%4].f(r, q, s); k++; return r }
				var t Sc
				var ap, bp, r, w, pq Pt
				eng.Op(20)
				mul(&ap, &a, &p)
				mul(&bp, &b, &p)
				stateP(&ap)
				c := a
				return note(chain(
					func() error {
						t.Add(&a, &b)
						w.Add(&ap, &bp)
						return samePt("(a+b)P and aP+bP", mul(&r, &t, &p), &w)
					},
					func() error {
						t.Sub(&a, &b)
						w.Sub(&ap, &bp)
						return samePt("(a-b)P and aP-bP", mul(&r, &t, &p), &w)
					},
					func() error { t.Mul(&a, &b); return samePt("(ab)P and a(bP)", mul(&r, &t, &p), mul(&w, &a, &bp)) },
					func() error {
						t.MulAdd(&a, &b, &c)
						mul(&w, &a, &bp)
						w.Add(&w, &ap)
						return samePt("(ab+a)P and a(bP)+aP", mul(&r, &t, &p), &w)
					},
					func() error {
						t.MulSub(&a, &b, &c)
						mul(&w, &a, &bp)
						w.Sub(&w, &ap)
						return samePt("(ab-a)P and a(bP)-aP", mul(&r, &t, &p), &w)
					},
					func() error { t.Neg(&a); w.Neg(&ap); return samePt("(-a)P and -(aP)", mul(&r, &t, &p), &w) },
					func() error {
						if a.IsNonZeroI() == 0 {
							return nil
						}
						t.Inverse(&a)
						return samePt("(1/a)(aP) and P", mul(&r, &t, &ap), &p)
					},
					func() error {
						pq.Add(&p, &q)
						mul(&w, &a, &q)
						w.Add(&ap, &w)
						return samePt("a(P+Q) and aP+aQ", mul(&r, &a, &pq), &w)
					},
				), "a=%x b=%x P=%v Q=%v", A[d[0]], A[d[1]], reps[int(i)%len(reps)], reps[int(i/3)%len(reps)])
			}
		}})
	eng.Register(eng.Space{Prop: "C19", Name: "signatures",
		Bound: "Schnorr signatures: 6 routes for key and nonce commitment, 3 ways to form the response, 2 challenge derivations, 4 x 4 routes to verify, 5 transports, messages of 0, 1, 64 and 200 bytes (quick: 3, 2 and 3 base routes, 2 messages); the signature verifies and does not verify with a response, challenge or key that is off by one",
		Make: func(tier string) (uint64, func(uint64) error) {
			setup()
			dims := []int{len(baseRoutes), len(baseRoutes), 3, 2, len(varRoutes), len(baseRoutes), len(transports), 4}
			if tier == "quick" {
				dims[0], dims[1], dims[5], dims[7] = 3, 2, 3, 2
			}
			return eng.Prod(dims...), func(i uint64) error {
				d := eng.Digits(i, dims...)
				x, k := scRaw(alpha.GenSc(int(i%13)+20)), scRaw(alpha.GenSc(int(i%17)+40))
				var P, R, L, W Pt
				var c, s, one, nk Sc
				one.SetOne()
				eng.Op(12)
				baseRoutes[d[0]].f(&P, &x)
				baseRoutes[d[1]].f(&R, &k)
				msg := bytes.Repeat([]byte{byte(i)}, []int{0, 1, 64, 200}[d[7]])
				in := append(append(append([]byte{}, R.Bytes()...), P.Bytes()...), msg...)
				if d[3] == 0 {
					c.Derive(in)
				} else {
					c.DeriveShort(in)
				}
				switch d[2] {
				case 0:
					s.MulAdd(&c, &x, &k)
				case 1:
					s.Mul(&x, &c)
					s.Add(&s, &k)
				case 2:
					nk.Neg(&k)
					s.MulSub(&x, &c, &nk)
				}
				P2, err := transports[d[6]].f(&P)
				if err != nil {
					return err
				}
				R2, err := transports[d[6]].f(&R)
				if err != nil {
					return err
				}
				ver := func(s, c *Sc, P *Pt) bool {
					baseRoutes[d[5]].f(&L, s)
					varRoutes[d[4]].f(&W, P, c)
					W.Add(&W, R2)
					return L.Equals(&W)
				}
				stateP(&L)
				var s1, c1 Sc
				var P1, B Pt
				s1.Add(&s, &one)
				c1.Sub(&c, &one)
				P1.Add(P2, B.SetBase())
				switch {
				case !ver(&s, &c, P2):
					return fmt.Errorf("routes %v: a valid signature does not verify", d)
				case ver(&s1, &c, P2):
					return fmt.Errorf("routes %v: a response off by one verifies", d)
				case ver(&s, &c1, P2):
					return fmt.Errorf("routes %v: a challenge off by one verifies", d)
				case ver(&s, &c, &P1):
					return fmt.Errorf("routes %v: another key verifies", d)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C19", Name: "commitments",
		Bound: "Pedersen commitments vG + rH to every pair of the tiny scalar alphabet squared: sums of commitments open to the sums of values and blindings, scaled ones to scaled values; generator H derived in 3 ways; selecting one of two commitments with conditional assignment gives that commitment and opening",
		Make: func(tier string) (uint64, func(uint64) error) {
			setup()
			A := alpha.ScTiny()
			if len(A) > 12 && tier == "quick" {
				A = A[:12]
			}
			n := len(A)
			return eng.Prod(n, n, n, 3), func(i uint64) error {
				d := eng.Digits(i, n, n, n, 3)
				var H Pt
				switch d[3] {
				case 0:
					H.Derive([]byte("H"))
				case 1:
					H.DeriveDalek([]byte("H"))
				case 2:
					b := alpha.Gen32("pedersen", 1)
					H.SetElligator(&b)
				}
				v, r, w := scRaw(A[d[0]]), scRaw(A[d[1]]), scRaw(A[d[2]])
				commit := func(v, r *Sc, k int) Pt {
					var p, q Pt
					baseRoutes[k%6].f(&p, v)
					varRoutes[k/6%4].f(&q, &H, r)
					p.Add(&p, &q)
					return p
				}
				k := int(i)
				eng.Op(15)
				c1, c2 := commit(&v, &r, k), commit(&w, &v, k+5)
				stateP(&c1)
				var sum, sc, sel, dif Pt
				var a, b Sc
				sum.Add(&c1, &c2)
				a.Add(&v, &w)
				b.Add(&r, &v)
				e := commit(&a, &b, k+7)
				sc.ScalarMult(&c1, &w)
				a.Mul(&v, &w)
				b.Mul(&r, &w)
				f := commit(&a, &b, k+11)
				dif.Sub(&sum, &c2)
				bit := int32(i & 1)
				sel.Set(&c1)
				sel.ConditionalSet(&c2, bit)
				sv, sr := v, r
				sv.ConditionalSet(&w, bit)
				sr.ConditionalSet(&v, bit)
				g := commit(&sv, &sr, k+13)
				return note(chain(
					func() error { return samePt("sum of commitments and commitment to the sums", &sum, &e) },
					func() error { return samePt("scaled commitment and commitment to the scaled values", &sc, &f) },
					func() error { return samePt("sum minus second commitment and the first", &dif, &c1) },
					func() error { return samePt("selected commitment and its opening", &sel, &g) },
				), "v=%x r=%x w=%x generator %d", A[d[0]], A[d[1]], A[d[2]], d[3])
			}
		}})
	// The laws hold for all scalars and elements exactly when each routine is exact: the protocols above fix the
	// composition, these spaces the operands.
	eng.Late = append(eng.Late, func() {
		for _, n := range []string{"C02/", "C08/unary", "C08/inverse", "C08/binary", "C08/ternary", "C08/limb-products", "C08/forced-results",
			"C08/add-carries", "C01/binary-reps", "C01/unary-reps", "C01/histories-conv", "C03/encode-reps", "C03/encode-multiples",
			"C04/near-equal", "C04/self", "C07/round-trip", "C09/derive"} {
			for _, s := range eng.All(n[:3]) {
				if strings.HasPrefix(s.Name, n[4:]) {
					s.Prop, s.Name = "C19", "component-"+s.Prop+"-"+s.Name
					eng.Register(s)
				}
			}
		}
	})
}
