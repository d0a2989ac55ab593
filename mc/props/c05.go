package props

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C05: hash to group ------------------------------------------------------

func checkElligator(b B32) error {
	in := b
	want := ref.MapBytes(b)
	var p Pt
	eng.Op(2)
	if p.SetElligator(&b) != &p {
		return fmt.Errorf("SetElligator does not return its receiver")
	}
	if b != in {
		return fmt.Errorf("SetElligator(%x) modified its input", in)
	}
	stateP(&p)
	if err := isClass(&p, want); err != nil {
		return note(err, "SetElligator(%x)", in)
	}
	e := want.Encode()
	return note(wantBytes("encoding", p.Bytes(), e[:]), "SetElligator(%x)", in)
}

// deriveInputs: every length up to n with four contents, and nil.
func deriveInputs(n int) [][]byte {
	r := [][]byte{nil, {}}
	for l := 0; l <= n; l++ {
		for _, f := range []func(i int) byte{
			func(i int) byte { return 0 }, func(i int) byte { return 255 },
			func(i int) byte { return byte(i) }, func(i int) byte { return byte(i*i + 7*l + 1) },
			func(i int) byte { return ' ' }, func(i int) byte { return "\n=0A"[(l-i)%4] }} {
			b := make([]byte, l, l+(l%3)*8)
			for i := range b {
				b[i] = f(i)
			}
			r = append(r, b)
		}
	}
	for _, l := range longLengths(n) {
		r = append(r, bytes.Repeat([]byte{0x5a}, l))
	}
	return r
}

// longLengths: lengths beyond n, around every power of two and a few block multiples, up to 2^20+1.
func longLengths(n int) []int {
	var r []int
	for k := 3; k <= 20; k++ {
		for d := -1; d <= 1; d++ {
			r = append(r, 1<<k+d, 3<<(k-1)+d)
		}
	}
	r = append(r, 1000, 10000, 100000)
	out := r[:0]
	for _, l := range r {
		if l > n && l <= 1<<20+1 {
			out = append(out, l)
		}
	}
	return out
}

// feRoots are the inputs that make an intermediate of the map special: r = i*t^2
// hits each of a set of distinguished values.
func feRoots() []ref.Fe {
	var out []ref.Fe
	d := ref.D
	targets := []ref.Fe{ref.Zero, ref.One, d, d.Inv(), d.Add(ref.One), d.Sub(ref.One), ref.FeInt(2), ref.SqrtM1,
		d.Mul(ref.FeInt(2)), d.Sqr(), d.Sqr().Inv(), ref.FeInt(3), ref.FeInt(486662)}
	for _, f := range alpha.SpecialFe() {
		targets = append(targets, f)
	}
	for _, t := range targets {
		for _, u := range []ref.Fe{t, t.Neg()} {
			if q, ok := u.Mul(ref.SqrtM1.Neg()).Sqrt(); ok { // t^2 = u/i
				out = append(out, q, q.Neg())
			}
			if q, ok := u.Sqrt(); ok {
				out = append(out, q, q.Neg())
			}
		}
	}
	return out
}

func elligatorInputs() []B32 {
	in := alpha.FeBig()
	for _, f := range feRoots() {
		b := f.Bytes()
		in = append(in, b)
		b[31] |= 128
		in = append(in, b)
		if y := new(big.Int).Add(ref.LEToBig(f2s(f)), ref.P); y.BitLen() <= 255 {
			in = append(in, alpha.Le(y))
		}
	}
	return alpha.Dedup(in)
}

func f2s(f ref.Fe) []byte { b := f.Bytes(); return b[:] }

func init() {
	eng.Register(eng.Space{Prop: "C05", Name: "map-alphabet",
		Bound: "the map on every letter of the field-input alphabet: exceptional roots (r=0, r=-d, r=-1/d, ...) with both signs, non-canonical forms, top bit set and clear, limb patterns, single bits and bytes",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := elligatorInputs()
			return uint64(len(in)), func(i uint64) error { sample("C05/map-alphabet", "%x", in[i]); return checkElligator(in[i]) }
		}})
	eng.Register(eng.Space{Prop: "C05", Name: "map-ranges",
		Bound: "the map on every integer in [0,N) and (p-N, 2^255), both with and without top bit",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.N(tier, int64(20000), int64(400000))
			return uint64(2*n + 19), func(i uint64) error {
				k := int64(i)
				var x *big.Int
				if k < n {
					x = big.NewInt(k)
				} else {
					x = new(big.Int).Add(ref.P, big.NewInt(k-2*n))
				}
				b := alpha.Le(x)
				if k%2 == 1 {
					b[31] |= 128
				}
				return checkElligator(b)
			}
		}})
	eng.Register(eng.Space{Prop: "C05", Name: "derive-lengths",
		Bound: "Derive and DeriveDalek on every input length 0..N with six contents each, nil, and lengths around powers of two and 3/2 powers of two up to 2^20+1",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := deriveInputs(eng.N(tier, 300, 1500))
			return uint64(len(in)), func(i uint64) error {
				b := in[i]
				cp := append([]byte(nil), b...)
				var p Pt
				eng.Op(2)
				if p.Derive(b) != &p {
					return fmt.Errorf("Derive does not return its receiver")
				}
				if err := isClass(&p, ref.Derive(cp)); err != nil {
					return note(err, "Derive(%d bytes %.40x)", len(b), b)
				}
				p.DeriveDalek(b)
				if err := isClass(&p, ref.DeriveDalek(cp)); err != nil {
					return note(err, "DeriveDalek(%d bytes %.40x)", len(b), b)
				}
				if !bytes.Equal(b, cp) {
					return fmt.Errorf("input of length %d modified", len(b))
				}
				sample("C05/derive-lengths", "%d bytes", len(b))
				return nil
			}
		}})
}

// ---- C06: inverse of the map -----------------------------------------------

// checkInverse compares the reported preimage set with the reference.
func checkInverse(e *EP, class ref.Pt) error {
	var fes [8]FE
	for i := range fes {
		fes[i].SetI() // stale contents must not matter
	}
	eng.Op(1)
	before := *e
	mask := e.RistrettoElligator2Inverse(&fes)
	if *e != before {
		return fmt.Errorf("operand modified")
	}
	got := map[ref.Fe]bool{}
	for j := 0; j < 8; j++ {
		if mask>>uint(j)&1 == 0 {
			continue
		}
		f := val(&fes[j])
		if f.IsNeg() {
			return fmt.Errorf("reported preimage %x is negative", f.Bytes())
		}
		if !ref.Map(f).REq(class) {
			return fmt.Errorf("reported preimage %x does not map to the element", f.Bytes())
		}
		got[f] = true
		eng.State(f2s(f))
	}
	want := ref.Preimages(class)
	if len(got) > 8 || len(want) > 8 {
		return fmt.Errorf("more than 8 preimages")
	}
	var extra error
	for _, w := range want {
		if !got[w] {
			if class.REq(ref.Ident) && w == identityExtra {
				extra = &eng.Finding{Key: "C06-identity-sqrt-i-over-d", Msg: "for the identity the preimage sqrt(i/d) is not reported"}
				continue
			}
			return fmt.Errorf("preimage %x is not reported (reported %d of %d)", w.Bytes(), len(got), len(want))
		}
	}
	return extra
}

// identityExtra is sqrt(i/d), the third exceptional preimage of the identity.
var identityExtra = func() ref.Fe { r, _ := ref.SqrtM1.Mul(ref.D.Inv()).Sqrt(); return r }()

func init() {
	eng.Register(eng.Space{Prop: "C06", Name: "reps",
		Bound: "every representation (89 group elements incl. identity and images of the exceptional inputs, x 4 cosets x forced scalings)",
		Make: func(tier string) (uint64, func(uint64) error) {
			rs := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 3, 10)])
			return uint64(len(rs)), func(i uint64) error {
				e := mkE(rs[i].Pt, rs[i].M)
				sample("C06/reps", "%v", rs[i])
				return note(checkInverse(&e, rs[i].Class), "%v", rs[i])
			}
		}})
	eng.Register(eng.Space{Prop: "C06", Name: "images",
		Bound: "every image of the field-input alphabet under the map, as the map produced it and in all 4 cosets",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := elligatorInputs()
			if !eng.Full(tier) {
				in = append(in[:0:0], in...)
				var q []B32
				for k, b := range in {
					if k < 900 || k%3 == 0 || k > len(in)-400 {
						q = append(q, b)
					}
				}
				in = q
			}
			return eng.Prod(len(in), 5), func(i uint64) error {
				d := eng.Digits(i, 5, len(in))
				b := in[d[1]]
				class := ref.MapBytes(b).Affine()
				var e EP
				if d[0] == 4 {
					var fe FE
					fe.SetBytes(&b)
					var cp ed.CompletedPoint
					cp.SetRistrettoElligator2(&fe)
					e.SetCompleted(&cp)
					eng.Op(2)
				} else {
					e = mkE(class.Add(ref.Torsion4[d[0]]).Affine(), ref.One)
				}
				return note(checkInverse(&e, class), "image of %x (form %d)", b, d[0])
			}
		}})
	eng.Register(eng.Space{Prop: "C06", Name: "multiples",
		Bound: "k*B for every k < N",
		Make: func(tier string) (uint64, func(uint64) error) {
			return uint64(eng.N(tier, 4000, 80000)), func(i uint64) error {
				p := ref.Base.MulBig(new(big.Int).SetUint64(i)).Affine()
				e := mkE(p, ref.One)
				return note(checkInverse(&e, p), "%d*B", i)
			}
		}})
}

// ---- C07: Lizard ---------------------------------------------------------------

func lizardFe(data [16]byte) B32 {
	h := sha256.Sum256(data[:])
	copy(h[8:], data[:])
	h[0] &= 254
	h[31] &= 63
	return h
}

// lizardPre lists the payloads whose Lizard preimage maps to p.
func lizardPre(p ref.Pt) [][16]byte {
	var r [][16]byte
	for _, f := range ref.Preimages(p) {
		b := f.Bytes()
		var d [16]byte
		copy(d[:], b[8:24])
		if lizardFe(d) == b {
			r = append(r, d)
		}
	}
	return r
}

// checkLizardDecode compares decoding of p with the reference verdict for its class.
func checkLizardDecode(p *Pt, pre [][16]byte) error {
	var buf [16]byte
	for i := range buf {
		buf[i] = 0x77
	}
	filled := buf
	eng.Op(2)
	before := *p
	err := p.LizardInto(&buf)
	got := p.Lizard()
	if *p != before {
		return fmt.Errorf("decoding modified the point")
	}
	if len(pre) == 1 {
		if err != nil || got == nil {
			return fmt.Errorf("payload %x not decoded (LizardInto: %v, Lizard: %x)", pre[0], err, got)
		}
		if buf != pre[0] {
			return fmt.Errorf("LizardInto returned %x instead of %x", buf, pre[0])
		}
		return wantBytes("Lizard", got, pre[0][:])
	}
	if err == nil || got != nil {
		return fmt.Errorf("decoding succeeded (LizardInto: %x %v, Lizard: %x) although the element has %d Lizard preimages", buf, err, got, len(pre))
	}
	if len(pre) == 0 && buf != ([16]byte{}) && buf != filled {
		return fmt.Errorf("LizardInto reports failure (%v) but delivers %x", err, buf)
	}
	return nil
}

func lizardPayloads(tier string) [][16]byte {
	var r [][16]byte
	m := map[[16]byte]bool{}
	put := func(b [16]byte) {
		if !m[b] {
			m[b] = true
			r = append(r, b)
		}
	}
	for _, bg := range []byte{0, 255, 0x55} {
		var b [16]byte
		for i := range b {
			b[i] = bg
		}
		put(b)
		for bit := 0; bit < 128; bit++ {
			c := b
			c[bit/8] ^= 1 << uint(bit%8)
			put(c)
		}
		for pos := 0; pos < 16; pos++ {
			for v := 0; v < 256; v += eng.Pick(tier, 15, 1) {
				c := b
				c[pos] = byte(v)
				put(c)
			}
		}
	}
	for i := 0; i < eng.N(tier, 500, 20000); i++ {
		h := alpha.Hash("lizard", i)
		var b [16]byte
		copy(b[:], h[:])
		put(b)
	}
	for i := 0; i < 256; i++ {
		var b [16]byte
		for k := range b {
			b[k] = byte(i)
		}
		put(b)
	}
	return r
}

func init() {
	eng.Register(eng.Space{Prop: "C07", Name: "round-trip",
		Bound: "every payload of the alphabet (all single bits and bytes on three backgrounds, constant and generic payloads): as produced, re-decoded from its encoding, in all 4 cosets, negated twice, shifted by a sum",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := lizardPayloads(tier)
			return uint64(len(in)), func(i uint64) error {
				data := in[i]
				fe := lizardFe(data)
				want := ref.MapBytes(fe).Affine()
				cp := data
				var p Pt
				eng.Op(1)
				if p.SetLizard(&data) != &p || data != cp {
					return fmt.Errorf("SetLizard(%x): wrong return value or input modified", cp)
				}
				sample("C07/round-trip", "%x", data)
				stateP(&p)
				if err := isClass(&p, want); err != nil {
					return note(err, "SetLizard(%x)", cp)
				}
				pre := [][16]byte{data}
				if err := checkLizardDecode(&p, pre); err != nil {
					return note(err, "payload %x", data)
				}
				var q Pt
				e := want.Encode()
				q.SetBytes(&e)
				if err := checkLizardDecode(&q, pre); err != nil {
					return note(err, "payload %x after decoding its encoding", data)
				}
				k := int(i)
				for t := 0; t < 4; t++ {
					m := alpha.Targets()[(k+t)%10]
					q = mkP(want.Add(ref.Torsion4[t]).Affine(), m)
					if err := checkLizardDecode(&q, pre); err != nil {
						return note(err, "payload %x in coset %d", data, t)
					}
				}
				q.Neg(&p)
				q.Neg(&q)
				if err := checkLizardDecode(&q, pre); err != nil {
					return note(err, "payload %x after two negations", data)
				}
				var b Pt
				b.SetBase()
				q.Add(&p, &b)
				q.Sub(&q, &b)
				return note(checkLizardDecode(&q, pre), "payload %x after +B-B", data)
			}
		}})
	eng.Register(eng.Space{Prop: "C07", Name: "reject-near",
		Bound: "for payloads of the alphabet: the point of every 32-byte string that differs from the Lizard string in exactly one of its 256 bits (all check bits and payload bits)",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := lizardPayloads(tier)
			n := eng.Pick(tier, 40, 400)
			stride := len(in) / n
			return eng.Prod(n, 256), func(i uint64) error {
				d := eng.Digits(i, 256, n)
				data := in[d[1]*stride]
				fe := lizardFe(data)
				fe[d[0]/8] ^= 1 << uint(d[0]%8)
				var p Pt
				p.SetElligator(&fe)
				eng.Op(1)
				return note(checkLizardDecode(&p, lizardPre(ref.MapBytes(fe))), "Lizard string of %x with bit %d flipped", data, d[0])
			}
		}})
	eng.Register(eng.Space{Prop: "C07", Name: "reject-other",
		Bound: "every representation of the element alphabet, images of the field-input alphabet, and k*B: verdict equals the reference (number of Lizard preimages)",
		Make: func(tier string) (uint64, func(uint64) error) {
			rs := repsOf(alpha.PtsMed(), alpha.Targets()[:1])
			n := eng.N(tier, 1500, 20000)
			return uint64(len(rs) + n), func(i uint64) error {
				if int(i) < len(rs) {
					p := rs[i].P()
					return note(checkLizardDecode(&p, lizardPre(rs[i].Class)), "%v", rs[i])
				}
				k := i - uint64(len(rs))
				q := ref.Base.MulBig(new(big.Int).SetUint64(k)).Affine()
				p := mkP(q, ref.One)
				return note(checkLizardDecode(&p, lizardPre(q)), "%d*B", k)
			}
		}})
	eng.Register(eng.Space{Prop: "C07", Name: "sums",
		Bound: "sums, differences, negations and doubles of pairs of Lizard points: verdict equals the reference",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := lizardPayloads(tier)
			n := eng.Pick(tier, 24, 100)
			return eng.Prod(n, n), func(i uint64) error {
				d := eng.Digits(i, n, n)
				a, b := in[d[0]*7], in[d[1]*5+1]
				var pa, pb, s Pt
				pa.SetLizard(&a)
				pb.SetLizard(&b)
				ma, mb := ref.MapBytes(lizardFe(a)), ref.MapBytes(lizardFe(b))
				s.Add(&pa, &pb)
				if err := checkLizardDecode(&s, lizardPre(ma.Add(mb))); err != nil {
					return note(err, "sum of %x and %x", a, b)
				}
				s.Neg(&pa)
				return note(checkLizardDecode(&s, lizardPre(ma.Neg())), "negation of %x", a)
			}
		}})
}
