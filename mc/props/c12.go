package props

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C12: destinations, operands, aliasing, histories ---------------------
//
// mop describes a method by the roles of its arguments (receiver first):
//   w destination, only written      r operand, only read
//   m destination, read and written
// and a tag choosing the value domain of restricted operands.

type mop struct {
	typ   reflect.Type
	name  string
	roles string
	dom   string // optional domain tags per argument, e.g. "..q" (q: square)
	retR  bool   // documented to return its receiver
}

func (o mop) String() string { return o.typ.Elem().Name() + "." + o.name }

var (
	tPt  = reflect.TypeOf((*Pt)(nil))
	tSc  = reflect.TypeOf((*Sc)(nil))
	tTab = reflect.TypeOf((*Tab)(nil))
	tEP  = reflect.TypeOf((*EP)(nil))
	tCP  = reflect.TypeOf((*ed.CompletedPoint)(nil))
	tPP  = reflect.TypeOf((*ed.ProjectivePoint)(nil))
	tNP  = reflect.TypeOf((*ed.NielsPoint)(nil))
	tJP  = reflect.TypeOf((*ed.JacobiPoint)(nil))
	tFE  = reflect.TypeOf((*FE)(nil))
	tET  = reflect.TypeOf((*ed.ScalarMultTable)(nil))
	tB32 = reflect.TypeOf((*[32]byte)(nil))
	tB64 = reflect.TypeOf((*[64]byte)(nil))
	tB16 = reflect.TypeOf((*[16]byte)(nil))
	tSl  = reflect.TypeOf([]byte(nil))
	tBig = reflect.TypeOf((*big.Int)(nil))
	tI32 = reflect.TypeOf(int32(0))
	tU64 = reflect.TypeOf(uint64(0))
	tF8  = reflect.TypeOf((*[8]FE)(nil))
	tJ4  = reflect.TypeOf((*[4]ed.JacobiPoint)(nil))
)

func mops() []mop {
	var r []mop
	add := func(t reflect.Type, spec string) {
		for _, f := range strings.Fields(spec) {
			p := strings.Split(f, ":")
			o := mop{typ: t, name: p[0], roles: p[1]}
			if strings.HasPrefix(o.name, "^") {
				o.name, o.retR = o.name[1:], true
			}
			if len(p) > 2 {
				o.dom = p[2]
			}
			r = append(r, o)
		}
	}
	add(tPt, "^Add:wrr ^Sub:wrr ^Neg:wr ^Double:wr ^Set:wr ConditionalSet:mrr ^SetZero:w ^SetBase:w Bytes:r ^BytesInto:rw SetBytes:wr:.e "+
		"^SetElligator:wr ^Derive:wr ^DeriveDalek:wr ^SetLizard:wr Lizard:r LizardInto:rw Equals:rr EqualsI:rr MarshalBinary:r MarshalText:r "+
		"UnmarshalBinary:wr:.b UnmarshalText:wr:.t String:r ^ScalarMult:wrr ^PublicScalarMult:wrr ^ScalarMultTable:wrr ^PublicScalarMultTable:wrr "+
		"^ScalarMultBase:wr ^PublicScalarMultBase:wr")
	add(tSc, "^Add:wrr ^Sub:wrr ^Mul:wrr ^MulAdd:wrrr ^MulSub:wrrr ^Neg:wr ^Square:wr ^Inverse:wr:.n ^Set:wr ConditionalSet:mrr ^SetZero:w ^SetOne:w "+
		"Bytes:r ^BytesInto:rw ^SetBytes:wr SetBytesStrict:mr:.s ^SetReduced:wr ^SetBigInt:wr ^SetUint64:wr BigInt:r ^Derive:wr ^DeriveShort:wr "+
		"Equals:rr EqualsI:rr IsNonZeroI:r MarshalBinary:r MarshalText:r UnmarshalBinary:wr:.b UnmarshalText:wr:.t String:r")
	add(tTab, "Compute:wr")
	add(tEP, "^Add:wrr ^Sub:wrr ^Neg:wr ^Double:wr ^Set:wr ^ConditionalSet:mrr ^SetZero:w ^SetBase:w ^SetTorsion1:w ^SetTorsion2:w ^SetTorsion3:w "+
		"^SetCompleted:wr SetRistretto:wr:.e Ristretto:r ^RistrettoInto:rw RistrettoEqualsI:rr RistrettoElligator2Inverse:rw ^ToJacobiQuarticRistretto:rw "+
		"^ScalarMult:wrr:..s ^VarTimeScalarMult:wrr:..s String:r")
	add(tCP, "^AddExtended:wrr ^SubExtended:wrr ^AddExtendedNiels:wrr ^SubExtendedNiels:wrr ^DoubleExtended:wr ^DoubleProjective:wr ^SetJacobiQuartic:wr "+
		"^SetRistrettoElligator2:wr String:r")
	add(tPP, "^SetZero:w ^SetExtended:wr ^SetCompleted:wr")
	add(tNP, "^SetZero:w ^Set:wr ^Neg:wr ^ConditionalSet:mrr ^SetExtended:wr")
	add(tJP, "^Dual:wr String:r")
	add(tFE, "^Add:wrr ^Sub:wrr ^Mul:wrr ^Neg:wr ^Square:wr ^DoubledSquare:wr ^Abs:wr ^Set:wr ^Inverse:wr ^Exp22523:wr ^InvSqrt:wr:.q ^Sqrt:wr:.q InvSqrtI:wr:.z "+
		"ConditionalSet:mrr ^SetZero:w ^SetOne:w ^SetI:w Bytes:r ^BytesInto:rw ^SetBytes:wr ^SetBigInt:wr BigInt:r String:r Equals:rr EqualsI:rr "+
		"IsNegativeI:r IsNonZeroI:r IsOneI:r")
	add(tET, "Compute:wr ScalarMult:rwr:..s VarTimeScalarMult:rwr:..s")
	return r
}

// c12Pts are five representations: base, identity as 4-torsion, scaled multiples.
func c12Pts() []EP {
	g := ref.FeBytes(alpha.Gen32("c12", 1))
	b3 := ref.Base.Add(ref.Base).Add(ref.Base).Affine()
	q := ref.MapBytes(alpha.Gen32("c12", 2)).Affine()
	return []EP{mkE(ref.Base, ref.One), mkE(q, g), mkE(ref.Torsion4[1].Affine(), g.Neg()), mkE(b3.Add(ref.Torsion4[2]).Affine(), g.Sqr()), mkE(q.Neg(), ref.One)}
}

// domain gives the values of an argument as freshly allocated reflect values.
func domain(t reflect.Type, tag byte) []func() reflect.Value {
	var r []func() reflect.Value
	val := func(x any) {
		v := reflect.ValueOf(x)
		r = append(r, func() reflect.Value {
			n := reflect.New(v.Type())
			n.Elem().Set(v)
			return n
		})
	}
	enc := func(i int) B32 { return alpha.EncSmall()[i+1] }
	switch t {
	case tPt:
		for _, p := range c12Pts() {
			val(Pt(p))
		}
	case tEP:
		for _, p := range c12Pts() {
			val(p)
		}
	case tCP:
		ps := c12Pts()
		for i := range ps[:4] {
			var c ed.CompletedPoint
			c.AddExtended(&ps[i], &ps[1])
			val(c)
		}
	case tPP:
		for _, p := range c12Pts()[:4] {
			val(ed.ProjectivePoint{X: p.X, Y: p.Y, Z: p.Z})
		}
	case tNP:
		for _, p := range c12Pts()[:4] {
			var n ed.NielsPoint
			n.SetExtended(&p)
			val(n)
		}
	case tJP:
		p := c12Pts()[1]
		var js [4]ed.JacobiPoint
		p.ToJacobiQuarticRistretto(&js)
		for _, j := range js {
			val(j)
		}
	case tFE:
		one, g := ref.One, ref.FeBytes(alpha.Gen32("c12", 5))
		h := ref.FeBytes(alpha.Gen32("c12", 6))
		switch tag {
		case 'q':
			for _, v := range []ref.Fe{g.Sqr(), one, h.Sqr(), ref.Zero, ref.FeInt(4)} {
				val(feOf(v))
			}
		case 'z':
			for _, v := range []ref.Fe{g.Sqr(), g.Sqr().Mul(ref.SqrtM1), h, h.Mul(ref.FeInt(2)), one} {
				val(feOf(v))
			}
		default:
			for _, v := range []ref.Fe{g, ref.Zero, one.Neg(), h, one} {
				val(feOf(v))
			}
		}
	case tSc:
		for k, b := range []B32{alpha.GenSc(1), alpha.ScTiny()[5], alpha.GenSc(2), alpha.ScTiny()[1], {}} {
			if tag == 'n' && k == 4 {
				continue
			}
			val(scRaw(b))
		}
	case tTab:
		for i := 0; i < 2; i++ {
			var tb Tab
			p := Pt(c12Pts()[i])
			tb.Compute(&p)
			val(tb)
		}
	case tET:
		for i := 0; i < 2; i++ {
			var tb ed.ScalarMultTable
			p := c12Pts()[i]
			tb.Compute(&p)
			val(tb)
		}
	case tB32:
		switch tag {
		case 'e':
			bad := enc(1)
			bad[0] |= 1
			for _, b := range []B32{enc(0), enc(1), {}, bad} {
				val(b)
			}
		case 's':
			for _, b := range []B32{alpha.GenSc(3), alpha.ScTiny()[5], {5}} {
				val(b)
			}
		default:
			for _, b := range []B32{alpha.Gen32("c12b", 1), alpha.Gen32("c12b", 2), {}, {1}} {
				val(b)
			}
		}
	case tB64:
		val(alpha.Hash("c12", 1))
		val(alpha.Hash("c12", 2))
		val([64]byte{1})
	case tB16:
		val([16]byte{1, 2, 3})
		val([16]byte{})
		val([16]byte{255, 254, 7, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9})
	case tSl:
		var ss [][]byte
		e, e2, bad := enc(0), enc(1), enc(2)
		bad[0] |= 1
		switch tag {
		case 'b':
			ss = [][]byte{e[:], e2[:], bad[:], e[:31]}
		case 't':
			p := Pt(c12Pts()[1])
			t, _ := p.MarshalText()
			ss = [][]byte{t, []byte(fmt.Sprintf("%x", e)), t[:40], []byte("!")}
		default:
			ss = [][]byte{[]byte("hello"), {}, bytes.Repeat([]byte{7}, 200)}
		}
		for _, s := range ss {
			s := s
			r = append(r, func() reflect.Value {
				b := make([]byte, len(s), len(s)+40)
				copy(b, s)
				for k := range b[len(s):cap(b)] {
					b[:cap(b)][len(s)+k] = 0xcc
				}
				return reflect.ValueOf(&b)
			})
		}
	case tBig:
		for _, s := range []string{"-5", "123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890", "7"} {
			s := s
			r = append(r, func() reflect.Value { x, _ := new(big.Int).SetString(s, 10); return reflect.ValueOf(x) })
		}
	case tI32:
		val(int32(0))
		val(int32(1))
	case tU64:
		val(uint64(1<<63 + 5))
		val(uint64(7))
	case tF8:
		val([8]FE{})
		p := c12Pts()[1]
		val([8]FE{p.X, p.Y, p.Z, p.T, p.X, p.Y, p.Z, p.T})
	case tJ4:
		val([4]ed.JacobiPoint{})
		p := c12Pts()[1]
		val([4]ed.JacobiPoint{{S: p.X, T: p.Y}, {S: p.Z, T: p.T}, {S: p.X, T: p.X}, {S: p.Y, T: p.Y}})
	default:
		panic("no domain for " + t.String())
	}
	return r
}

// obs is the observable value of a destination or return value.
func obs(v reflect.Value) string {
	feS := func(f *FE) string { c := *f; var b B32; c.BytesInto(&b); return fmt.Sprintf("%x", b) }
	aff := func(x, xz, y, yz *FE) string {
		zx, zy := val(xz), val(yz)
		if zx.IsZero() || zy.IsZero() {
			return "malformed " + feS(x) + feS(xz) + feS(y) + feS(yz)
		}
		return fmt.Sprintf("(%x,%x)", val(x).Mul(zx.Inv()).Bytes(), val(y).Mul(zy.Inv()).Bytes())
	}
	ext := func(e *EP) string {
		if _, err := refOf(e); err != nil {
			return "malformed " + feS(&e.X) + feS(&e.Y) + feS(&e.Z) + feS(&e.T)
		}
		return aff(&e.X, &e.Z, &e.Y, &e.Z)
	}
	table := func(t *ed.ScalarMultTable) string {
		h := []byte{}
		for i := range t {
			for j := range t[i] {
				for _, f := range []*FE{&t[i][j].YPlusX, &t[i][j].YMinusX, &t[i][j].XY2D} {
					var b B32
					f.BytesInto(&b)
					h = append(h, b[:]...)
				}
			}
		}
		return string(h)
	}
	switch x := v.Interface().(type) {
	case *Pt:
		q, err := refOf((*EP)(x))
		if err != nil {
			return "malformed " + err.Error()
		}
		return fmt.Sprintf("%x", q.Encode())
	case *EP:
		return ext(x)
	case *ed.CompletedPoint:
		return aff(&x.X, &x.Z, &x.Y, &x.T)
	case *ed.ProjectivePoint:
		return aff(&x.X, &x.Z, &x.Y, &x.Z)
	case *ed.NielsPoint:
		return feS(&x.YPlusX) + feS(&x.YMinusX) + feS(&x.XY2D)
	case *ed.JacobiPoint:
		return feS(&x.S) + feS(&x.T)
	case *FE:
		return feS(x)
	case *Sc:
		b := scBytes(x)
		return fmt.Sprintf("%x", b)
	case *Tab:
		return table((*ed.ScalarMultTable)(x))
	case *ed.ScalarMultTable:
		return table(x)
	case *[32]byte:
		return fmt.Sprintf("%x", *x)
	case *[16]byte:
		return fmt.Sprintf("%x", *x)
	case *[4]ed.JacobiPoint:
		s := ""
		for k := range x {
			s += feS(&x[k].S) + feS(&x[k].T) + " "
		}
		return s
	case *[8]FE:
		s := ""
		for k := range x {
			s += feS(&x[k]) + " "
		}
		return s
	case *big.Int:
		return x.String()
	case error:
		return "error"
	case nil:
		return "nil"
	default:
		return fmt.Sprintf("%v", x)
	}
}

type snap struct {
	v    reflect.Value
	copy reflect.Value
	bytes,
	full []byte
}

// take stores a bitwise copy of *v.
func take(v reflect.Value) snap {
	s := snap{v: v}
	switch x := v.Interface().(type) {
	case *big.Int:
		s.copy = reflect.ValueOf(new(big.Int).Set(x))
	case *[]byte:
		s.bytes = *x
		s.full = append([]byte{}, (*x)[:cap(*x)]...)
	default:
		s.copy = reflect.New(v.Elem().Type())
		s.copy.Elem().Set(v.Elem())
	}
	return s
}

func (s snap) changed() bool {
	switch x := s.v.Interface().(type) {
	case *big.Int:
		return x.Cmp(s.copy.Interface().(*big.Int)) != 0
	case *[]byte:
		return !bytes.Equal(s.full, (*x)[:cap(*x)]) || len(*x) != len(s.bytes)
	default:
		return s.v.Elem().Interface() != s.copy.Elem().Interface()
	}
}

type minst struct {
	op   mop
	m    reflect.Method
	args []reflect.Type // receiver first; as passed to the method
	ptr  []bool         // args that are passed by pointer to our allocation (others by value)
}

func mkInst(o mop) minst {
	m, ok := o.typ.MethodByName(o.name)
	if !ok {
		panic("no method " + o.String())
	}
	in := minst{op: o, m: m}
	for i := 0; i < m.Type.NumIn(); i++ {
		t := m.Type.In(i)
		in.args = append(in.args, t)
		in.ptr = append(in.ptr, t.Kind() == reflect.Ptr)
	}
	if len(in.args) != len(o.roles) {
		panic("roles of " + o.String())
	}
	return in
}

func (in *minst) tag(i int) byte {
	if i < len(in.op.dom) {
		return in.op.dom[i]
	}
	return '.'
}

// call runs the method on allocations (one per argument, possibly shared).
func (in *minst) call(al []reflect.Value) []reflect.Value {
	a := make([]reflect.Value, len(al))
	for i, v := range al {
		if in.ptr[i] {
			a[i] = v
		} else {
			a[i] = v.Elem()
		}
	}
	eng.Op(1)
	return in.m.Func.Call(a)
}

// outcome renders everything a caller may rely on: destinations and return values.
func (in *minst) outcome(al, ret []reflect.Value) string {
	var sb strings.Builder
	failed := false
	for i, r := range ret {
		if r.Kind() == reflect.Ptr && r.Type() == in.op.typ {
			if r.Pointer() == al[0].Pointer() {
				sb.WriteString("returns receiver; ")
			} else {
				sb.WriteString("returns another object; ")
			}
			continue
		}
		s := obs(r)
		if r.Type() == tSl && r.IsNil() {
			s = "nil slice"
		}
		fmt.Fprintf(&sb, "ret%d=%s; ", i, s)
		if s == "error" || (s == "false" && strings.HasPrefix(in.op.name, "Set")) {
			failed = true
		}
	}
	for i, c := range in.op.roles {
		if c == 'r' {
			continue
		}
		if failed && c == 'w' {
			sb.WriteString("(failed: destination unspecified); ")
			continue
		}
		if f, ok := al[i].Interface().(*[8]FE); ok {
			mask := ret[0].Uint()
			for k := range f {
				if mask>>uint(k)&1 == 1 {
					fmt.Fprintf(&sb, "%s ", obs(reflect.ValueOf(&f[k])))
				}
			}
			continue
		}
		fmt.Fprintf(&sb, "arg%d=%s; ", i, obs(al[i]))
	}
	return sb.String()
}

// partitions of {0..n-1} as restricted growth strings where equal blocks have equal pointer types.
func partitions(in *minst) [][]int {
	n := len(in.args)
	var r [][]int
	cur := make([]int, n)
	var rec func(i, blocks int)
	rec = func(i, blocks int) {
		if i == n {
			r = append(r, append([]int{}, cur...))
			return
		}
		for b := 0; b <= blocks; b++ {
			if b < blocks {
				ok := in.ptr[i]
				for j := 0; j < i; j++ {
					if cur[j] == b && (in.args[j] != in.args[i] || in.tag(j) != in.tag(i) && in.tag(i) != '.' && in.tag(j) != '.') {
						ok = false
					}
				}
				if !ok {
					continue
				}
			}
			cur[i] = b
			nb := blocks
			if b == blocks {
				nb++
			}
			rec(i+1, nb)
		}
	}
	rec(0, 0)
	return r
}

type c12case struct {
	in    *minst
	part  []int
	vals  []int // per block: domain index (for blocks that are only written: stale content index)
	stale []bool
}

func blockDomain(in *minst, part []int, b int) (reflect.Type, byte, bool) {
	var t reflect.Type
	tag := byte('.')
	stale := true
	for i, p := range part {
		if p != b {
			continue
		}
		t = in.args[i]
		if in.tag(i) != '.' {
			tag = in.tag(i)
		}
		if in.op.roles[i] != 'w' {
			stale = false
		}
	}
	return t, tag, stale
}

func c12cases(in *minst) []c12case {
	var r []c12case
	for _, part := range partitions(in) {
		nb := 0
		for _, p := range part {
			if p >= nb {
				nb = p + 1
			}
		}
		radix := make([]int, nb)
		st := make([]bool, nb)
		total := uint64(1)
		for b := 0; b < nb; b++ {
			t, tag, stale := blockDomain(in, part, b)
			radix[b] = len(domCache(t, tag))
			if stale {
				radix[b]++ // plus the all-ones content
			}
			st[b] = stale
			total *= uint64(radix[b])
		}
		for i := uint64(0); i < total; i++ {
			r = append(r, c12case{in, part, eng.Digits(i, radix...), st})
		}
	}
	return r
}

type domKey struct {
	t   reflect.Type
	tag byte
}

var domMemo = map[domKey][]func() reflect.Value{}

func domCache(t reflect.Type, tag byte) []func() reflect.Value {
	k := domKey{t, tag}
	if d, ok := domMemo[k]; ok {
		return d
	}
	d := domain(t, tag)
	domMemo[k] = d
	return d
}

// ones allocates a value of pointer type t with every byte of plain storage set.
func ones(t reflect.Type) reflect.Value {
	v := reflect.New(t.Elem())
	var fill func(x reflect.Value)
	fill = func(x reflect.Value) {
		switch x.Kind() {
		case reflect.Array:
			for i := 0; i < x.Len(); i++ {
				fill(x.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				fill(x.Field(i))
			}
		case reflect.Uint8, reflect.Uint32, reflect.Uint64:
			x.SetUint(^uint64(0) >> (64 - uint(x.Type().Bits())))
		case reflect.Int32:
			x.SetInt(0x7fffffff)
		}
	}
	fill(v.Elem())
	return v
}

func zeroOf(t reflect.Type) reflect.Value { return reflect.New(t.Elem()) }

// alloc makes the allocations of a case; shared says whether blocks share one object.
func (c *c12case) alloc(shared bool) []reflect.Value {
	al := make([]reflect.Value, len(c.part))
	objs := map[int]reflect.Value{}
	for i, b := range c.part {
		t, tag, stale := blockDomain(c.in, c.part, b)
		if shared {
			if o, ok := objs[b]; ok {
				al[i] = o
				continue
			}
		}
		d := domCache(t, tag)
		switch {
		case !shared && c.in.op.roles[i] == 'w':
			al[i] = zeroOf(t)
		case stale && c.vals[b] == len(d):
			al[i] = ones(t)
		default:
			al[i] = d[c.vals[b]]()
		}
		objs[b] = al[i]
	}
	return al
}

func (c *c12case) String() string {
	return fmt.Sprintf("%v, objects %v, values %v", c.in.op, c.part, c.vals)
}

var baseTabCopy = ed.BaseScalarMultTable

// canary exercises the package constants and tables.
func canary() string {
	var sb strings.Builder
	var p, q Pt
	var s Sc
	b := alpha.Gen32("canary", 1)
	p.SetElligator(&b)
	sb.Write(p.Bytes())
	s.SetBytes(&b)
	sb.Write(s.Bytes())
	var b64 [64]byte
	copy(b64[:], b[:])
	copy(b64[32:], b[:])
	s.SetReduced(&b64)
	sb.Write(s.Bytes())
	s.Neg(&s)
	sb.Write(s.Bytes())
	q.ScalarMultBase(&s)
	sb.Write(q.Bytes())
	q.SetBase()
	sb.Write(q.Bytes())
	q.Add(&q, &p)
	sb.Write(q.Bytes())
	q.SetZero()
	sb.Write(q.Bytes())
	s.SetOne()
	sb.Write(s.Bytes())
	s.SetZero()
	sb.Write(s.Bytes())
	var fe FE
	for _, f := range []func() *FE{fe.SetOne, fe.SetZero, fe.SetI} {
		x := f().Bytes()
		sb.Write(x[:])
	}
	var d [16]byte
	copy(d[:], b[:])
	q.SetLizard(&d)
	sb.Write(q.Lizard())
	var e EP
	for _, f := range []func() *EP{e.SetTorsion1, e.SetTorsion2, e.SetTorsion3} {
		sb.WriteString(obs(reflect.ValueOf(f())))
	}
	return sb.String()
}

var canary0 string

func checkGlobals() error {
	if ed.BaseScalarMultTable != baseTabCopy {
		return fmt.Errorf("the built-in base-point table changed")
	}
	if g := canary(); g != canary0 {
		return fmt.Errorf("later, unrelated operations give different results")
	}
	return nil
}

func allInst() []*minst {
	var r []*minst
	for _, o := range mops() {
		in := mkInst(o)
		r = append(r, &in)
	}
	return r
}

func init() {
	eng.Register(eng.Space{Prop: "C12", Name: "alias-stale",
		Bound: "every exported operation (132 methods) x every partition of its same-typed arguments into shared objects x every value tuple of the argument domains x every previous content of pure destinations (valid values and all-ones memory): same outcome as with separate objects and a zeroed destination, operands, buffers (with spare capacity), tables and package state unchanged bit by bit, receiver returned where documented",
		Make: func(tier string) (uint64, func(uint64) error) {
			var cs []c12case
			for _, in := range allInst() {
				cs = append(cs, c12cases(in)...)
			}
			canary0 = canary()
			return uint64(len(cs)), func(i uint64) error {
				c := &cs[i]
				sample("C12/alias-stale", "%v", c)
				ref := c.alloc(false)
				want := c.in.outcome(ref, c.in.call(ref))
				al := c.alloc(true)
				var snaps []snap
				for k, v := range al {
					written := false
					for j, w := range al {
						if c.part[j] == c.part[k] && c.in.op.roles[j] != 'r' {
							written = true
						}
						_ = w
					}
					if !written {
						snaps = append(snaps, take(v))
					}
				}
				ret := c.in.call(al)
				for _, s := range snaps {
					if s.changed() {
						return fmt.Errorf("%v: an operand of type %v was modified", c, s.v.Type())
					}
				}
				got := c.in.outcome(al, ret)
				if got != want {
					return fmt.Errorf("%v: outcome %q, expected %q", c, cutStr(got), cutStr(want))
				}
				if c.in.op.retR && !strings.Contains(got, "returns receiver") {
					return fmt.Errorf("%v does not return its receiver", c)
				}
				eng.State([]byte(fmt.Sprint(c.in.op, c.part)), []byte(got))
				return note(checkGlobals(), "after %v", c)
			}
		}})
	eng.Register(eng.Space{Prop: "C12", Name: "pairs",
		Bound: "every ordered pair of operations (132 x 132), each with distinct arguments: the second gives the same outcome as on its own, and what the first returned (byte slices, integers) or wrote is unaffected",
		Make: func(tier string) (uint64, func(uint64) error) {
			ins := allInst()
			mk := func(in *minst, k int) *c12case {
				c := &c12case{in: in, part: make([]int, len(in.args)), vals: make([]int, len(in.args))}
				for i := range c.part {
					c.part[i] = i
				}
				for i := range c.part {
					t, tag, _ := blockDomain(in, c.part, i)
					c.vals[i] = (k + i) % len(domCache(t, tag))
				}
				return c
			}
			nv := 2
			var base [2][]string
			for k := 0; k < nv; k++ {
				for _, in := range ins {
					c := mk(in, k)
					al := c.alloc(false)
					base[k] = append(base[k], in.outcome(al, in.call(al)))
				}
			}
			n := len(ins)
			return eng.Prod(n, n, nv, nv), func(i uint64) error {
				d := eng.Digits(i, n, n, nv, nv)
				a, b := mk(ins[d[0]], d[2]), mk(ins[d[1]], d[3])
				aa, ba := a.alloc(false), b.alloc(true)
				sample("C12/pairs", "%v then %v", a.in.op, b.in.op)
				ra := a.in.call(aa)
				before := a.in.outcome(aa, ra)
				if before != base[d[2]][d[0]] {
					return fmt.Errorf("%v alone gave %q, earlier %q", a, cutStr(before), cutStr(base[d[2]][d[0]]))
				}
				rb := b.in.call(ba)
				if got := b.in.outcome(ba, rb); got != base[d[3]][d[1]] {
					return fmt.Errorf("%v after %v gave %q, expected %q", b, a, cutStr(got), cutStr(base[d[3]][d[1]]))
				}
				if after := a.in.outcome(aa, ra); after != before {
					return fmt.Errorf("%v changed the result of the earlier %v from %q to %q", b, a, cutStr(before), cutStr(after))
				}
				// writing to a returned slice must not influence anything
				for _, r := range ra {
					if r.Type() == tSl && !r.IsNil() {
						s := r.Bytes()
						for k := range s[:cap(s)] {
							s[:cap(s)][k] ^= 0xff
						}
					}
				}
				bb := b.alloc(true)
				if got := b.in.outcome(bb, b.in.call(bb)); got != base[d[3]][d[1]] {
					return fmt.Errorf("%v depends on the slice returned by %v", b, a)
				}
				a2 := a.alloc(false)
				if got := a.in.outcome(a2, a.in.call(a2)); got != base[d[2]][d[0]] {
					return fmt.Errorf("%v depends on a slice it returned earlier", a)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C12", Name: "reuse",
		Bound: "every operation on the same objects again after their contents were replaced, for every pair of value choices: same outcome as on fresh objects",
		Make: func(tier string) (uint64, func(uint64) error) {
			ins := allInst()
			return eng.Prod(len(ins), 5, 5, 4), func(i uint64) error {
				d := eng.Digits(i, len(ins), 5, 5, 4)
				in := ins[d[0]]
				mk := func(k int) *c12case {
					c := &c12case{in: in, part: make([]int, len(in.args)), vals: make([]int, len(in.args))}
					for i := range c.part {
						c.part[i] = i
					}
					for i := range c.part {
						t, tag, _ := blockDomain(in, c.part, i)
						kk := k
						if i == d[3] { // keep one argument fixed
							kk = 0
						}
						c.vals[i] = kk % len(domCache(t, tag))
					}
					return c
				}
				c1, c2 := mk(d[1]), mk(d[2])
				fresh := c2.alloc(false)
				want := in.outcome(fresh, in.call(fresh))
				al := c1.alloc(true)
				in.call(al)
				nw := c2.alloc(true)
				for k := range al {
					if in.op.roles[k] == 'w' {
						continue
					}
					if x, ok := al[k].Interface().(*big.Int); ok {
						x.Set(nw[k].Interface().(*big.Int))
						continue
					}
					if x, ok := al[k].Interface().(*[]byte); ok {
						y := *nw[k].Interface().(*[]byte)
						if cap(*x) >= len(y) {
							*x = append((*x)[:0], y...)
							continue
						}
					}
					al[k].Elem().Set(nw[k].Elem())
				}
				if got := in.outcome(al, in.call(al)); got != want {
					return fmt.Errorf("%v on reused objects: outcome %q, expected %q", c2, cutStr(got), cutStr(want))
				}
				return nil
			}
		}})
}

func cutStr(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}
