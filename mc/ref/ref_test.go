package ref

import "testing"

func TestSelf(t *testing.T) {
	if err := SelfTest(); err != nil {
		t.Fatal(err)
	}
	for i := int64(0); i < 200; i++ {
		f := FeInt(i * i * 1234567891).Sqr().Abs()
		p := Map(f)
		if !p.OnCurve() {
			t.Fatal("map off curve", i)
		}
		found := false
		pre := Preimages(p)
		for _, q := range pre {
			if q == f {
				found = true
			}
		}
		if !found || len(pre) > 8 {
			t.Fatal("preimage", i, found, len(pre))
		}
	}
	t.Log(len(Preimages(Ident)))
}
func BenchmarkMul(b *testing.B) {
	x := FeInt(12345).Pow58()
	for i := 0; i < b.N; i++ {
		x = x.Mul(x)
	}
}
func BenchmarkSM(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Base.MulBig(L)
	}
}
