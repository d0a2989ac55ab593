package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// Larger argument domains than those of C12, for the properties that compare
// executions (C14: across builds, C15: across secrets).  Letters are ordered
// so that every prefix is a structurally diverse set.

var richMemo = map[domKey][]func() reflect.Value{}

// interleave merges lists round-robin.
func interleave[T any](ls ...[]T) []T {
	var r []T
	for k := 0; ; k++ {
		any := false
		for _, l := range ls {
			if k < len(l) {
				r = append(r, l[k])
				any = true
			}
		}
		if !any {
			return r
		}
	}
}

func gens(tag string, n int) []B32 {
	var r []B32
	for i := 0; i < n; i++ {
		r = append(r, alpha.Gen32(tag, i))
	}
	return r
}

// richPts: representations of group elements.
func richPts() []EP {
	g := ref.FeBytes(alpha.Gen32("rich", 1))
	var a, b, c []EP
	a = append(a, c12Pts()...)
	tg := alpha.Targets()
	for i, p := range alpha.PtsSmall() {
		for k, t := range ref.Torsion4 {
			q := p.Add(t).Affine()
			ms := alpha.Scalings(q, tg[:3])
			b = append(b, mkE(q, ms[(i+k)%len(ms)]), mkE(q, g))
		}
	}
	for _, p := range alpha.PtsMed() {
		c = append(c, mkE(p, ref.One))
	}
	return interleave(a, b, c)
}

func rich(t reflect.Type, tag byte) []func() reflect.Value {
	k := domKey{t, tag}
	if d, ok := richMemo[k]; ok {
		return d
	}
	d := mkRich(t, tag)
	richMemo[k] = d
	return d
}

func mkRich(t reflect.Type, tag byte) []func() reflect.Value {
	var r []func() reflect.Value
	val := func(x any) {
		v := reflect.ValueOf(x)
		r = append(r, func() reflect.Value {
			n := reflect.New(v.Type())
			n.Elem().Set(v)
			return n
		})
	}
	switch t {
	case tPt:
		var ps []Pt
		for _, p := range richPts() {
			ps = append(ps, Pt(p))
		}
		var lz []Pt // carrying a payload
		for i := 0; i < 40; i++ {
			var d [16]byte
			h := alpha.Hash("richlz", i)
			copy(d[:], h[:])
			lz = append(lz, *new(Pt).SetLizard(&d))
		}
		for _, p := range interleave(ps, lz) {
			val(p)
		}
	case tEP:
		for _, p := range richPts() {
			val(p)
		}
	case tCP:
		ps := richPts()
		for i := 0; i < 80 && i < len(ps); i++ {
			var c ed.CompletedPoint
			if i%3 == 2 {
				c.DoubleExtended(&ps[i])
			} else {
				c.AddExtended(&ps[i], &ps[(7*i+1)%len(ps)])
			}
			val(c)
		}
	case tPP:
		for _, p := range richPts() {
			val(ed.ProjectivePoint{X: p.X, Y: p.Y, Z: p.Z})
		}
	case tNP:
		ps := richPts()
		for i := range ps[:80] {
			var n ed.NielsPoint
			n.SetExtended(&ps[i])
			val(n)
		}
	case tJP:
		ps := richPts()
		for i := range ps[:40] {
			var js [4]ed.JacobiPoint
			ps[i].ToJacobiQuarticRistretto(&js)
			for _, j := range js {
				val(j)
			}
		}
	case tFE:
		l := interleave(gens("richfe", 30), alpha.FeSmall(), alpha.FeMed())
		for i, b := range alpha.Dedup(l) {
			f := ref.FeBytes(b)
			if tag == 'q' {
				val(feOf(f.Sqr()))
				continue
			}
			var x FE
			x.SetBytes(&b)
			switch i % 4 { // forms that operations produce
			case 1:
				one := feOf(ref.One)
				x.Mul(&x, &one)
			case 2:
				z := feOf(ref.Zero)
				x.Sub(&z, &x)
			case 3:
				x.Neg(&x)
			}
			val(x)
		}
	case tSc:
		for _, b := range alpha.Dedup(interleave(alpha.ScTiny(), alpha.ScSmall(), alpha.ScMed())) {
			if tag == 'n' && b == (B32{}) {
				continue
			}
			val(scRaw(b))
		}
	case tTab, tET:
		for i, p := range richPts() {
			if i%9 != 0 || len(r) >= 6 {
				continue
			}
			var tb ed.ScalarMultTable
			q := p
			tb.Compute(&q)
			if t == tTab {
				val(Tab(tb))
			} else {
				val(tb)
			}
		}
	case tB32:
		var l []B32
		switch tag {
		case 'e':
			var e []B32
			for _, p := range alpha.PtsMed() {
				e = append(e, p.Encode())
			}
			l = interleave(e, alpha.FeSmall(), alpha.Raw32())
		case 's':
			l = interleave(alpha.ScTiny(), alpha.ScSmall(), alpha.ScMed())
		default:
			l = interleave(gens("richb", 20), alpha.FeSmall(), alpha.Raw32())
		}
		for _, b := range alpha.Dedup(l) {
			val(b)
		}
	case tB64:
		l := alpha.Raw32()
		for i := 0; i < 20; i++ {
			val(alpha.Hash("rich64", i))
		}
		for i := 0; i < len(l); i += 3 {
			var b [64]byte
			copy(b[:], l[i][:])
			copy(b[32:], l[(i*7+1)%len(l)][:])
			val(b)
		}
	case tB16:
		for i := 0; i < 40; i++ {
			var b [16]byte
			h := alpha.Hash("rich16", i)
			copy(b[:], h[:])
			val(b)
		}
		for i := 0; i < 128; i++ {
			var b [16]byte
			b[i/8] = 1 << uint(i%8)
			val(b)
		}
		val([16]byte{})
		var f [16]byte
		for i := range f {
			f[i] = 255
		}
		val(f)
	case tSl:
		var ss [][]byte
		var encs []B32
		for _, p := range alpha.PtsMed() {
			encs = append(encs, p.Encode())
		}
		encs = alpha.Dedup(interleave(encs, alpha.FeSmall(), gens("richsl", 20), alpha.ScSmall()))
		switch tag {
		case 'b':
			for i, e := range encs {
				e := e
				ss = append(ss, append([]byte{}, e[:]...))
				if i%16 == 0 {
					ss = append(ss, append([]byte{}, e[:31]...), append(append([]byte{}, e[:]...), 0))
				}
			}
			ss = append(ss, []byte{})
		case 't':
			for i, e := range encs {
				ss = append(ss, []byte(base64.RawURLEncoding.EncodeToString(e[:])))
				if i%8 == 0 {
					ss = append(ss, []byte(hex.EncodeToString(e[:])), []byte(base64.StdEncoding.EncodeToString(e[:])),
						[]byte(base64.RawURLEncoding.EncodeToString(e[:30])), bytes.ToUpper([]byte(hex.EncodeToString(e[:]))))
				}
			}
			ss = append(ss, []byte{}, []byte("!"), bytes.Repeat([]byte("A"), 64), bytes.Repeat([]byte("g"), 64), bytes.Repeat([]byte("A"), 44))
		default:
			for _, n := range []int{0, 1, 5, 32, 63, 64, 111, 112, 127, 128, 200} {
				for i := 0; i < 6; i++ {
					b := make([]byte, n)
					for j := range b {
						b[j] = byte(alpha.Hash("richd", i)[j%64] + byte(j/64))
					}
					ss = append(ss, b)
				}
				ss = append(ss, bytes.Repeat([]byte{0}, n), bytes.Repeat([]byte{255}, n))
			}
		}
		for _, s := range ss {
			s := s
			r = append(r, func() reflect.Value {
				b := make([]byte, len(s), len(s)+16)
				copy(b, s)
				return reflect.ValueOf(&b)
			})
		}
	case tBig:
		var l []*big.Int
		for _, b := range interleave(alpha.ScTiny(), alpha.FeSmall()) {
			x := ref.LEToBig(b[:])
			l = append(l, x, new(big.Int).Neg(x), new(big.Int).Lsh(x, 130), new(big.Int).Mul(x, x))
		}
		for _, x := range l {
			x := x
			r = append(r, func() reflect.Value { return reflect.ValueOf(new(big.Int).Set(x)) })
		}
	case tU64:
		for i := uint(0); i < 64; i++ {
			val(uint64(1) << i)
			val(uint64(1)<<i - 1)
		}
		val(^uint64(0))
	default:
		return domain(t, tag)
	}
	return r
}

// tuples enumerates argument tuples of an operation: the complete product of
// domain prefixes, and every letter of every domain in every argument with the
// others at two base choices.
func tuples(in *minst, limit int) [][]int {
	n := len(in.args)
	size := make([]int, n)
	free := 0
	for i := range size {
		size[i] = 1
		if in.op.roles[i] != 'w' {
			size[i] = len(rich(in.args[i], in.tag(i)))
			free++
		}
	}
	pre := make([]int, n)
	for i := range pre {
		pre[i] = 1
	}
	for grow := true; grow; { // widen prefixes evenly while the product stays within the limit
		grow = false
		for i := range pre {
			if pre[i] >= size[i] {
				continue
			}
			p := 1
			for j := range pre {
				q := pre[j]
				if j == i {
					q++
				}
				p *= q
			}
			if p <= limit {
				pre[i]++
				grow = true
			}
		}
	}
	var out [][]int
	seen := map[string]bool{}
	put := func(t []int) {
		k := fmt.Sprint(t)
		if !seen[k] {
			seen[k] = true
			out = append(out, append([]int{}, t...))
		}
	}
	total := eng.Prod(pre...)
	for i := uint64(0); i < total; i++ {
		put(eng.Digits(i, pre...))
	}
	for base := 0; base < 2; base++ {
		for i := 0; i < n; i++ {
			t := make([]int, n)
			for j := range t {
				t[j] = base % size[j]
			}
			for v := 0; v < size[i]; v++ {
				t[i] = v
				put(t)
			}
		}
	}
	return out
}

// richAlloc makes separate argument objects for a tuple.
func richAlloc(in *minst, t []int) []reflect.Value {
	al := make([]reflect.Value, len(t))
	for i := range t {
		if in.op.roles[i] == 'w' {
			al[i] = zeroOf(in.args[i])
			continue
		}
		al[i] = rich(in.args[i], in.tag(i))[t[i]]()
	}
	return al
}
