package ref

import (
	"encoding/hex"
	"fmt"
	"math/big"
)

// SelfTest validates the reference against math/big and against the published
// vectors of RFC 9496.  It is run at the start of every check.
func SelfTest() error {
	vals := []*big.Int{}
	for _, e := range []uint{0, 1, 51, 64, 102, 128, 192, 204, 254, 255} {
		for _, d := range []int64{-20, -19, -18, -1, 0, 1, 2, 19} {
			vals = append(vals, new(big.Int).Mod(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d)), P))
		}
	}
	x := big.NewInt(3)
	for i := 0; i < 40; i++ {
		x = new(big.Int).Mod(new(big.Int).Mul(new(big.Int).Add(x, big.NewInt(7)), new(big.Int).Add(x, big.NewInt(11))), P)
		vals = append(vals, x)
	}
	for _, a := range vals {
		fa := FeBig(a)
		if fa.Big().Cmp(a) != 0 {
			return fmt.Errorf("ref: conversion")
		}
		for _, b := range vals {
			fb := FeBig(b)
			if fa.Mul(fb).Big().Cmp(new(big.Int).Mod(new(big.Int).Mul(a, b), P)) != 0 ||
				fa.Add(fb).Big().Cmp(new(big.Int).Mod(new(big.Int).Add(a, b), P)) != 0 ||
				fa.Sub(fb).Big().Cmp(new(big.Int).Mod(new(big.Int).Sub(a, b), P)) != 0 {
				return fmt.Errorf("ref: field arithmetic wrong on %v %v", a, b)
			}
		}
		if a.Sign() != 0 && fa.Inv().Big().Cmp(new(big.Int).ModInverse(a, P)) != 0 {
			return fmt.Errorf("ref: inverse")
		}
		if fa.IsSquare() != (big.Jacobi(a, P) != -1) {
			return fmt.Errorf("ref: IsSquare")
		}
		if r, ok := fa.Sqrt(); ok != fa.IsSquare() || (ok && (r.Sqr() != fa || r.IsNeg())) {
			return fmt.Errorf("ref: sqrt")
		}
	}
	if s, _ := new(big.Int).SetString("25063068953384623474111414158702152701244531502492656460079210482610430750235", 10); SqrtADMinusOne.Big().Cmp(s) != 0 {
		return fmt.Errorf("ref: SQRT_AD_MINUS_ONE")
	}
	if s, _ := new(big.Int).SetString("54469307008909316920995813868745141605393597292927456921205312896311721017578", 10); InvSqrtAmD.Big().Cmp(s) != 0 {
		return fmt.Errorf("ref: INVSQRT_A_MINUS_D")
	}
	if s, _ := new(big.Int).SetString("19681161376707505956807079304988542015446066515923890162744021073123829784752", 10); SqrtM1.Big().Cmp(s) != 0 {
		return fmt.Errorf("ref: SQRT_M1")
	}
	mult := []string{
		"0000000000000000000000000000000000000000000000000000000000000000",
		"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
		"6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
		"94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
		"da80862773358b466ffadfe0b3293ab3d9fd53c5ea6c955358f568322daf6a57",
		"e882b131016b52c1d3337080187cf768423efccbb517bb495ab812c4160ff44e",
		"f64746d3c92b13050ed8d80236a7f0007c3b3f962f5ba793d19a601ebb1df403",
		"44f53520926ec81fbd5a387845beb7df85a96a24ece18738bdcfa6a7822a176d",
	}
	p := Ident
	for i, m := range mult {
		for _, t := range Torsion4 {
			e := p.Add(t).Scale(FeInt(int64(12345 + i))).Encode()
			if hex.EncodeToString(e[:]) != m {
				return fmt.Errorf("ref: %d*B encodes to %x", i, e)
			}
			q, ok := Decode(e)
			if !ok || !q.REq(p.Add(t)) || !q.OnCurve() {
				return fmt.Errorf("ref: decode %d*B", i)
			}
		}
		p = p.Add(Base)
	}
	if !Base.MulBig(L).IsIdent() || Base.IsIdent() || !Base.OnCurve() {
		return fmt.Errorf("ref: order")
	}
	if !Torsion8.Dbl().Dbl().Dbl().IsIdent() || Torsion8.Dbl().Dbl().IsIdent() {
		return fmt.Errorf("ref: torsion8")
	}
	for i, v := range vals {
		q := Base.MulBig(v)
		if i%8 == 0 && !q.Eq(Base.MulSlow(v)) {
			return fmt.Errorf("ref: MulBig")
		}
		q = q.Add(Torsion8)
		if !q.Dbl().Eq(q.Add(q)) || !q.OnCurve() {
			return fmt.Errorf("ref: Dbl")
		}
	}
	h2g := []struct{ in, out string }{ // RFC 9496 A.3 one-way map uses both halves
		{"Ristretto is traditionally a short shot of espresso coffee", "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46"},
		{"made with the normal amount of ground coffee but extracted with", "f26e5b6f7d362d2d2a94c5d0e7602cb4773c95a2e5c31a64f133189fa76ed61b"},
		{"about half the amount of water in the same amount of time", "006ccd2a9e6867e6a2c5cea83d3302cc9de128dd2a9a57dd8ee7b9d7ffe02826"},
	}
	for _, v := range h2g {
		e := DeriveDalek([]byte(v.in)).Encode()
		if hex.EncodeToString(e[:]) != v.out {
			return fmt.Errorf("ref: derive %q = %x", v.in, e)
		}
	}
	bad := []string{
		"00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
		"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"0100000000000000000000000000000000000000000000000000000000000000",
		"01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	}
	for _, s := range bad {
		b, _ := hex.DecodeString(s)
		var x [32]byte
		copy(x[:], b)
		if _, ok := Decode(x); ok {
			return fmt.Errorf("ref: accepts %s", s)
		}
	}
	return nil
}
