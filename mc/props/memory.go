package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- histories of one operation on the same objects -----------------------
//
// A result may depend on the arguments only, not on what an earlier call saw:
// anything an implementation remembers between calls (a table, a hash, a
// converted value) must be keyed by everything it depends on.  The letters of
// the alphabets here agree in parts: points that share a coordinate, scalars
// and byte strings that differ in a single limb or byte, strings that are
// prefixes of each other, elements and their negatives.

var collideMemo = map[domKey][]func() reflect.Value{}

func collide(t reflect.Type, tag byte) []func() reflect.Value {
	k := domKey{t, tag}
	if d, ok := collideMemo[k]; ok {
		return d
	}
	d := mkCollide(t, tag)
	collideMemo[k] = d
	return d
}

// collidePts are representations sharing coordinates with the first one.
func collidePts() []EP {
	g := ref.FeBytes(alpha.Gen32("collide", 1))
	q := ref.MapBytes(alpha.Gen32("collide", 2)).Affine()
	r := []EP{mkE(q, g)}
	for _, t := range ref.Torsion4 {
		for k, p := range []ref.Pt{q.Add(t).Affine(), q.Neg().Add(t).Affine()} {
			r = append(r, mkE(p, g))
			if k == 0 {
				r = append(r, mkE(p, g.Neg()), mkE(p, ref.One))
			}
		}
	}
	x, y, tt := q.X.Mul(g), q.Y.Mul(g), q.X.Mul(q.Y).Mul(g)
	b3 := ref.Base.Add(ref.Base).Add(ref.Base).Affine()
	for _, p := range []ref.Pt{ref.Base.Affine(), b3} {
		r = append(r, mkE(p, g), mkE(p, x.Mul(p.X.Inv())), mkE(p, y.Mul(p.Y.Inv())), mkE(p, tt.Mul(p.X.Mul(p.Y).Inv())), mkE(p, ref.One))
	}
	for _, t := range ref.Torsion4 {
		r = append(r, mkE(t.Affine(), g))
	}
	return r
}

// vary gives b with single bytes changed.
func vary(b []byte, pos ...int) [][]byte {
	r := [][]byte{append([]byte{}, b...)}
	for _, p := range pos {
		c := append([]byte{}, b...)
		c[p] ^= 0x20
		r = append(r, c)
	}
	for _, e := range []struct{ p, m int }{{0, 1}, {len(b) - 1, 0x80}, {len(b) - 1, 1}} {
		c := append([]byte{}, b...)
		c[e.p] ^= byte(e.m)
		r = append(r, c)
	}
	return r
}

func mkCollide(t reflect.Type, tag byte) []func() reflect.Value {
	var r []func() reflect.Value
	val := func(x any) {
		v := reflect.ValueOf(x)
		r = append(r, func() reflect.Value {
			n := reflect.New(v.Type())
			n.Elem().Set(v)
			return n
		})
	}
	b32 := func(s []byte) (b B32) { copy(b[:], s); return }
	everyByte := []int{0, 1, 2, 3, 4, 7, 8, 11, 12, 15, 16, 19, 20, 23, 24, 27, 28, 30, 31}
	switch t {
	case tPt:
		for _, p := range collidePts() {
			val(Pt(p))
		}
		for i := 0; i < 2; i++ {
			val(*new(Pt).SetLizard(&[16]byte{7, byte(i)}))
		}
	case tEP:
		for _, p := range collidePts() {
			val(p)
		}
	case tCP:
		ps := collidePts()
		for i := range ps {
			var c ed.CompletedPoint
			c.AddExtended(&ps[i], &ps[1])
			val(c)
		}
	case tPP:
		for _, p := range collidePts() {
			val(ed.ProjectivePoint{X: p.X, Y: p.Y, Z: p.Z})
		}
	case tNP:
		for _, p := range collidePts() {
			var n ed.NielsPoint
			n.SetExtended(&p)
			val(n)
		}
	case tJP:
		for _, p := range collidePts()[:6] {
			var js [4]ed.JacobiPoint
			p.ToJacobiQuarticRistretto(&js)
			for _, j := range js {
				val(j)
			}
		}
	case tFE:
		g := alpha.Gen32("collide", 5)
		g[31] &= 127
		for _, s := range vary(g[:], everyByte...) {
			f := ref.FeBytes(b32(s))
			if tag == 'q' {
				f = f.Sqr()
			}
			val(feOf(f))
		}
		f := ref.FeBytes(g)
		if tag == 'q' {
			f = f.Sqr()
		} else {
			val(feOf(f.Neg()))
		}
		val(feOf(f.Mul(ref.FeInt(4))))
		val(feOf(ref.One))
		if tag != 'z' {
			val(feOf(ref.Zero))
		}
	case tSc:
		g := alpha.GenSc(7)
		for _, s := range vary(g[:], everyByte[:len(everyByte)-1]...) {
			val(scRaw(ref.RedScalar(ref.LEToBig(s))))
		}
		val(scRaw(ref.RedScalar(new(big.Int).Neg(ref.LEToBig(g[:])))))
		val(scRaw(B32{1}))
		if tag != 'n' {
			val(scRaw(B32{}))
		}
	case tTab, tET:
		ps := collidePts()
		for _, k := range []int{0, 2, 4, 13} {
			var tb ed.ScalarMultTable
			q := ps[k]
			tb.Compute(&q)
			if t == tTab {
				val(Tab(tb))
			} else {
				val(tb)
			}
		}
	case tB32:
		var g B32
		switch tag {
		case 'e':
			for _, e := range alpha.EncSmall()[:8] {
				val(e)
			}
			g = alpha.EncSmall()[2]
		case 's':
			g = alpha.GenSc(8)
			g[31] = 0
		default:
			g = alpha.Gen32("collide", 8)
		}
		for _, s := range vary(g[:], everyByte...) {
			b := b32(s)
			if tag == 's' {
				b[31] &= 15
			}
			val(b)
		}
	case tB64:
		g := alpha.Hash("collide", 9)
		for _, s := range vary(g[:], 0, 3, 7, 8, 15, 16, 21, 31, 32, 33, 40, 47, 48, 55, 62, 63) {
			var b [64]byte
			copy(b[:], s)
			val(b)
		}
	case tB16:
		g := alpha.Hash("collide", 10)
		for _, s := range vary(g[:16], 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) {
			var b [16]byte
			copy(b[:], s)
			val(b)
		}
	case tSl:
		var ss [][]byte
		switch tag {
		case 'b':
			for _, e := range alpha.EncSmall()[:6] {
				ss = append(ss, append([]byte{}, e[:]...))
			}
			g := alpha.EncSmall()[2]
			ss = append(ss, vary(g[:], everyByte...)...)
			ss = append(ss, g[:31])
		case 't':
			for _, e := range alpha.EncSmall()[:6] {
				ss = append(ss, []byte(base64.RawURLEncoding.EncodeToString(e[:])))
			}
			g := alpha.EncSmall()[2]
			for _, v := range vary(g[:], everyByte...) {
				ss = append(ss, []byte(base64.RawURLEncoding.EncodeToString(v)))
			}
			ss = append(ss, []byte(hex.EncodeToString(g[:])), []byte("!"))
		default:
			h := alpha.Hash("collide", 11)
			long := bytes.Repeat(h[:], 5)
			ss = append(ss, vary(long[:64], 0, 1, 7, 8, 31, 32, 63)...)
			ss = append(ss, vary(long[:200], 0, 127, 128, 199)...)
			ss = append(ss, vary(bytes.Repeat(h[:], 20), 255, 256, 300, 512, 1024, 1200)...)
			ss = append(ss, long[:0], long[:1], long[:63], long[:65], long[:128], long[:256])
		}
		for _, s := range ss {
			s := s
			r = append(r, func() reflect.Value {
				b := make([]byte, len(s), 1500)
				copy(b, s)
				return reflect.ValueOf(&b)
			})
		}
	case tBig:
		g := alpha.GenSc(9)
		x := ref.LEToBig(g[:])
		l := []*big.Int{x, new(big.Int).Neg(x), new(big.Int).Lsh(x, 64), new(big.Int).Add(x, ref.LEToBig([]byte{0, 0, 0, 0, 0, 0, 0, 0, 1})), new(big.Int)}
		for _, p := range []uint{0, 31, 32, 63, 64, 128, 192, 256, 400} {
			l = append(l, new(big.Int).Xor(x, new(big.Int).Lsh(big.NewInt(1), p)))
		}
		for _, x := range l {
			x := x
			r = append(r, func() reflect.Value { return reflect.ValueOf(new(big.Int).Set(x)) })
		}
	case tU64:
		for _, x := range []uint64{0, 1, 1 << 32, 1<<32 + 1, 1<<63 + 1, 1 << 63, ^uint64(0)} {
			val(x)
		}
	default:
		return domain(t, tag)
	}
	return r
}

// replace overwrites the object of an argument in place.
func replace(dst, src reflect.Value) {
	switch x := dst.Interface().(type) {
	case *big.Int:
		x.Set(src.Interface().(*big.Int))
	case *[]byte:
		y := *src.Interface().(*[]byte)
		if cap(*x) >= len(y) {
			*x = append((*x)[:0], y...)
		} else {
			*x = y
		}
	default:
		dst.Elem().Set(src.Elem())
	}
}

// memoryOps says which operations' histories belong to which property.
var memoryOps = map[string]string{
	"C01": "Point.Add Point.Sub Point.Neg Point.Double Point.Set Point.ConditionalSet Point.SetZero Point.SetBase",
	"C02": "Point.ScalarMult Point.PublicScalarMult Point.ScalarMultTable Point.PublicScalarMultTable Point.ScalarMultBase Point.PublicScalarMultBase ScalarMultTable.Compute",
	"C03": "Point.Bytes Point.BytesInto Point.SetBytes ExtendedPoint.Ristretto ExtendedPoint.RistrettoInto ExtendedPoint.SetRistretto",
	"C04": "Point.Equals Point.EqualsI ExtendedPoint.RistrettoEqualsI",
	"C05": "Point.SetElligator Point.Derive Point.DeriveDalek CompletedPoint.SetRistrettoElligator2",
	"C06": "ExtendedPoint.RistrettoElligator2Inverse",
	"C07": "Point.SetLizard Point.Lizard Point.LizardInto",
	"C08": "Scalar.Add Scalar.Sub Scalar.Mul Scalar.MulAdd Scalar.MulSub Scalar.Neg Scalar.Square Scalar.Inverse Scalar.Set Scalar.ConditionalSet",
	"C09": "Scalar.SetBytes Scalar.SetBytesStrict Scalar.SetReduced Scalar.SetBigInt Scalar.SetUint64 Scalar.BigInt Scalar.Bytes Scalar.BytesInto Scalar.Derive Scalar.DeriveShort Scalar.Equals Scalar.EqualsI Scalar.IsNonZeroI",
	"C10": "Point.MarshalBinary Point.MarshalText Point.UnmarshalBinary Point.UnmarshalText Point.String Scalar.MarshalBinary Scalar.MarshalText Scalar.UnmarshalBinary Scalar.UnmarshalText Scalar.String",
	"C11": "FieldElement.*",
	"C12": "*",
	"C18": "ExtendedPoint.* CompletedPoint.* ProjectivePoint.* NielsPoint.* JacobiPoint.* ScalarMultTable.*",
	"C19": "Point.ScalarMult Point.PublicScalarMult Point.ScalarMultBase Point.PublicScalarMultBase Scalar.Mul Scalar.MulAdd Scalar.MulSub Scalar.Inverse Point.SetBytes Point.UnmarshalText Point.UnmarshalBinary",
}

func memoryInst(spec string) []*minst {
	var r []*minst
	for _, in := range allInst() {
		n := in.op.String()
		for _, f := range strings.Fields(spec) {
			if f == "*" || f == n || strings.HasSuffix(f, ".*") && strings.HasPrefix(n, f[:len(f)-1]) {
				r = append(r, in)
				break
			}
		}
	}
	return r
}

type memCase struct {
	in      *minst
	j, base int // varying argument, letters of the others
	a, b    int
}

func (c memCase) alloc(letter int) []reflect.Value {
	al := make([]reflect.Value, len(c.in.args))
	for i, t := range c.in.args {
		if c.in.op.roles[i] == 'w' {
			al[i] = reflect.New(deref(t))
			continue
		}
		d := collide(t, c.in.tag(i))
		k := (c.base * (3 + i)) % len(d)
		if i == c.j {
			k = letter
		}
		al[i] = d[k]()
	}
	return al
}

func deref(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

// short makes an outcome printable.
func short(s string) string {
	if len(s) <= 300 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q... (sha256 %x)", s[:100], sha256.Sum256([]byte(s)))
}

type memKey struct{ j, base, l int }

// freshOutcomes gives the outcomes of calls in processes that use one letter only.
func freshOutcomes(prop string) func(memCase, int) string {
	memo := map[memKey]map[string]string{}
	return func(c memCase, l int) string {
		k := memKey{c.j, c.base, l}
		m, ok := memo[k]
		if !ok {
			exe, err := os.Executable()
			if err == nil {
				cmd := exec.Command(exe)
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=memory %s %d %d %d", prop, k.j, k.base, k.l))
				var out []byte
				if out, err = cmd.Output(); err == nil {
					err = json.Unmarshal(out, &m)
				}
			}
			if err != nil || m == nil {
				m = map[string]string{}
			}
			memo[k] = m
		}
		w, ok := m[c.in.op.String()]
		if !ok { // no answer from a process of its own
			al := c.alloc(l)
			w = short(c.in.outcome(al, c.in.call(al)))
			m[c.in.op.String()] = w
		}
		return w
	}
}

func memoryChild(args []string) {
	var k memKey
	fmt.Sscan(args[1], &k.j)
	fmt.Sscan(args[2], &k.base)
	fmt.Sscan(args[3], &k.l)
	m := map[string]string{}
	for _, in := range memoryInst(memoryOps[args[0]]) {
		if k.j >= len(in.args) || in.op.roles[k.j] == 'w' || k.l >= len(collide(in.args[k.j], in.tag(k.j))) {
			continue
		}
		c := memCase{in: in, j: k.j, base: k.base}
		eng.Guard(func() error {
			al := c.alloc(k.l)
			m[in.op.String()] = short(in.outcome(al, in.call(al)))
			return nil
		})
	}
	b, _ := json.Marshal(m)
	os.Stdout.Write(b)
}

func init() {
	eng.Child["memory"] = memoryChild
	var props []string
	for p := range memoryOps {
		props = append(props, p)
	}
	sort.Strings(props)
	for _, p := range props {
		p, spec := p, memoryOps[p]
		eng.Register(eng.Space{Prop: p, Name: "memory",
			Bound: "every operation of the property x every argument x every ordered pair of letters that agree in parts (points sharing a coordinate, values differing in one limb or byte, negatives, common prefixes) x 2 choices of the other arguments: called on a, on b written over it in the same object, and on a again; each outcome is that of the call in a fresh process that only ever saw that letter",
			Make: func(tier string) (uint64, func(uint64) error) {
				var cs []memCase
				for _, in := range memoryInst(spec) {
					for j := range in.args {
						if in.op.roles[j] == 'w' {
							continue
						}
						n := len(collide(in.args[j], in.tag(j)))
						bases := 2
						if len(in.args) == 1 || in.op.name == "Compute" {
							bases = 1
						}
						for base := 0; base < bases; base++ {
							for a := 0; a < n; a++ {
								for b := 0; b < n; b++ {
									if a != b {
										cs = append(cs, memCase{in, j, base, a, b})
									}
								}
							}
						}
					}
				}
				want := freshOutcomes(p)
				return uint64(len(cs)), func(i uint64) error {
					c := cs[i]
					wa, wb := want(c, c.a), want(c, c.b)
					al := c.alloc(c.a)
					d := collide(c.in.args[c.j], c.in.tag(c.j))
					keep := -1 // a read-and-written destination starts afresh for every call
					if c.in.op.roles[0] == 'm' {
						keep = 0
					}
					for n, l := range []int{c.a, c.b, c.a} {
						if n > 0 {
							if keep == 0 {
								replace(al[0], c.alloc(l)[0])
							}
							replace(al[c.j], d[l]())
						}
						w := wa
						if l == c.b {
							w = wb
						}
						if got := short(c.in.outcome(al, c.in.call(al))); got != w {
							return fmt.Errorf("%v, argument %d with letters %d, %d, %d on the same objects, call %d: outcome %s, in a fresh process %s", c.in.op, c.j, c.a, c.b, c.a, n+1, got, w)
						}
					}
					eng.State([]byte(fmt.Sprint(c.in.op, c.j, c.base, c.a)), []byte(wa))
					sample(p+"/memory", "%v argument %d letters %d, %d", c.in.op, c.j, c.a, c.b)
					return nil
				}
			}})
	}
	eng.Register(eng.Space{Prop: "C12", Name: "returned",
		Bound: "every operation that returns a byte slice or a big integer x every letter of the large argument alphabets: overwriting what was returned (to its full capacity) changes neither a later call's result nor any package state",
		Make: func(tier string) (uint64, func(uint64) error) {
			type rc struct {
				in *minst
				l  int
			}
			var cs []rc
			for _, in := range allInst() {
				for k := 0; k < in.m.Type.NumOut(); k++ {
					if o := in.m.Type.Out(k); o == tSl || o == tBig {
						for l := range rich(in.args[0], in.tag(0)) {
							cs = append(cs, rc{in, l})
						}
						break
					}
				}
			}
			if canary0 == "" {
				canary0 = canary()
			}
			return uint64(len(cs)), func(i uint64) error {
				in, l := cs[i].in, cs[i].l
				var w string
				for n := 0; n < 2; n++ {
					al := []reflect.Value{rich(in.args[0], in.tag(0))[l]()}
					ret := in.call(al)
					got := in.outcome(al, ret)
					if n == 0 {
						w = got
					} else if got != w {
						return fmt.Errorf("%v on letter %d: %q, after overwriting what an earlier call returned %q", in.op, l, cutStr(w), cutStr(got))
					}
					for _, r := range ret {
						switch x := r.Interface().(type) {
						case []byte:
							x = x[:cap(x)]
							for k := range x {
								x[k] ^= 0xff
							}
						case *big.Int:
							if x != nil {
								b := x.Bits()
								b = b[:cap(b)]
								for k := range b {
									b[k] = ^b[k]
								}
							}
						}
					}
				}
				return note(checkGlobals(), "after overwriting what %v returned for letter %d", in.op, l)
			}
		}})
}
