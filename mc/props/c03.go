package props

import (
	"fmt"
	"math/big"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C03: encoding ---------------------------------------------------------

// checkDecode compares decoding of b with RFC 9496.
func checkDecode(b B32) error {
	in := b
	var p Pt
	eng.Op(1)
	ok := p.SetBytes(&b)
	if b != in {
		return fmt.Errorf("decoding %x modified its input", in)
	}
	want, wok := ref.Decode(in)
	if ok != wok {
		return fmt.Errorf("decoding %x reports %v, the specification says %v", in, ok, wok)
	}
	if !ok {
		eng.State(in[:1], []byte("rejected"))
		return nil
	}
	if err := isClass(&p, want); err != nil {
		return note(err, "decoding %x", in)
	}
	eng.Op(2)
	eng.State(in[:])
	if err := wantBytes("encoding of a decoded element", p.Bytes(), in[:]); err != nil {
		return err
	}
	return nil
}

func checkEncode(p *Pt, want B32) error {
	var b B32
	for i := range b {
		b[i] = 0xa5
	}
	eng.Op(2)
	if p.BytesInto(&b) != p {
		return fmt.Errorf("BytesInto does not return its receiver")
	}
	eng.State(b[:])
	if err := wantBytes("BytesInto", b[:], want[:]); err != nil {
		return err
	}
	return wantBytes("Bytes", p.Bytes(), want[:])
}

// variants returns malformed relatives of a valid encoding.
func variants(e B32) []B32 {
	var r []B32
	x := ref.LEToBig(e[:])
	two255 := new(big.Int).Lsh(big.NewInt(1), 255)
	for _, y := range []*big.Int{
		new(big.Int).Add(x, ref.P), new(big.Int).Sub(ref.P, x), new(big.Int).Add(x, two255),
		new(big.Int).Add(new(big.Int).Add(x, ref.P), ref.P), new(big.Int).Add(new(big.Int).Sub(ref.P, x), two255),
		new(big.Int).Add(x, big.NewInt(1)), new(big.Int).Add(x, big.NewInt(2)),
	} {
		if y.Sign() >= 0 && y.BitLen() <= 256 {
			r = append(r, alpha.Le(y))
		}
	}
	return r
}

func init() {
	eng.Register(eng.Space{Prop: "C03", Name: "decode-alphabet",
		Bound: "decode every string of the field-input alphabet (powers of two, runs, limb patterns, single bytes, all non-canonical values near p and 2^255, top bit set, roots)",
		Make: func(tier string) (uint64, func(uint64) error) {
			in := alpha.Raw32()
			return uint64(len(in)), func(i uint64) error { sample("C03/decode-alphabet", "%x", in[i]); return checkDecode(in[i]) }
		}})
	eng.Register(eng.Space{Prop: "C03", Name: "decode-ranges",
		Bound: "decode every integer in [0,N), (p-N, 2^255), [2^255, 2^255+N/4), and (2^256-N/4, 2^256)",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.N(tier, int64(20000), int64(400000))
			p := ref.P
			two255 := new(big.Int).Lsh(big.NewInt(1), 255)
			two256 := new(big.Int).Lsh(big.NewInt(1), 256)
			top := new(big.Int).Sub(two255, p).Int64()
			sz := []int64{n, n + top, n / 4, n / 4}
			return uint64(sz[0] + sz[1] + sz[2] + sz[3]), func(i uint64) error {
				k := int64(i)
				var x *big.Int
				switch {
				case k < sz[0]:
					x = big.NewInt(k)
				case k < sz[0]+sz[1]:
					x = new(big.Int).Add(p, big.NewInt(k-sz[0]-n))
				case k < sz[0]+sz[1]+sz[2]:
					x = new(big.Int).Add(two255, big.NewInt(k-sz[0]-sz[1]))
				default:
					x = new(big.Int).Sub(two256, big.NewInt(k-sz[0]-sz[1]-sz[2]+1))
				}
				return checkDecode(alpha.Le(x))
			}
		}})
	eng.Register(eng.Space{Prop: "C03", Name: "decode-mutants",
		Bound: "every single-bit flip, the negated, non-canonical (+p, +2p, +2^255) and neighbouring strings of valid encodings",
		Make: func(tier string) (uint64, func(uint64) error) {
			var in []B32
			var valid []B32
			pts := alpha.PtsMed()
			if !eng.Full(tier) {
				pts = pts[:40]
			}
			for _, p := range pts {
				valid = append(valid, p.Encode())
			}
			valid = append(alpha.Dedup(valid), alpha.EncSmall()...)
			for _, e := range valid {
				in = append(in, e)
				in = append(in, variants(e)...)
				for b := 0; b < 256; b++ {
					m := e
					m[b/8] ^= 1 << uint(b%8)
					in = append(in, m)
				}
			}
			in = alpha.Dedup(in)
			return uint64(len(in)), func(i uint64) error { return checkDecode(in[i]) }
		}})
	eng.Register(eng.Space{Prop: "C03", Name: "encode-reps",
		Bound: "encode every representation (89 group elements x 4 cosets x forced scalings), also after Neg of Neg (other limb form)",
		Make: func(tier string) (uint64, func(uint64) error) {
			rs := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 5, 10)])
			return uint64(len(rs)), func(i uint64) error {
				r := rs[i]
				p := r.P()
				want := r.Class.Encode()
				sample("C03/encode-reps", "%v", r)
				if err := checkEncode(&p, want); err != nil {
					return note(err, "%v", r)
				}
				var q Pt
				q.Neg(&p)
				if err := checkEncode(&q, r.Class.Neg().Encode()); err != nil {
					return note(err, "negation of %v", r)
				}
				q.Neg(&q)
				return note(checkEncode(&q, want), "double negation of %v", r)
			}
		}})
	eng.Register(eng.Space{Prop: "C03", Name: "coordinate-patterns",
		Bound: "encode, and decode the encoding of, both even curve points of which the affine x or y is a letter of the 6497-letter field alphabet or has a single non-zero byte (all 32 x 255), or is the negative of one",
		Make: func(tier string) (uint64, func(uint64) error) {
			return uint64(alpha.CoordCount()), func(i uint64) error {
				c, ok := alpha.CoordPoint(int(i))
				if !ok {
					return nil
				}
				for _, c := range []ref.Pt{c, c.Neg()} {
					p := mkP(c, ref.One)
					e := c.Encode()
					if err := checkEncode(&p, e); err != nil {
						return note(err, "the point (%x, %x)", c.X.Bytes(), c.Y.Bytes())
					}
					if err := checkDecode(e); err != nil {
						return err
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C03", Name: "encode-multiples",
		Bound: "encode k*B for every k < N as reached by repeated addition, and decode it back",
		Make: func(tier string) (uint64, func(uint64) error) {
			n := eng.N(tier, 4000, 60000)
			const block = 50
			return uint64(n / block), func(i uint64) error {
				k := new(big.Int).SetUint64(i * block)
				m := ref.Base.MulBig(k)
				p := mkP(m, ref.One)
				var b Pt
				b.SetBase()
				for j := 0; j < block; j++ {
					e := m.Encode()
					if err := checkEncode(&p, e); err != nil {
						return note(err, "%d*B", i*block+uint64(j))
					}
					if err := checkDecode(e); err != nil {
						return err
					}
					p.Add(&p, &b)
					m = m.Add(ref.Base)
				}
				return nil
			}
		}})
}
