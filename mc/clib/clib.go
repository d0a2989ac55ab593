// Package clib gives access to the whole interface (cref.h) of the bundled C
// library, not just the part its Go binding exposes.  cref.c is compiled into
// this package: wrap.c and wrap.h include it from the repository.  The driver
// replaces both through an overlay that carries a digest of what they include,
// since the go command does not notice changes in included files.
package clib

// #include "wrap.h"
import "C"
import "unsafe"

type (
	B32 = [32]byte
	Sc  struct{ c C.group_scalar }
	Fe  struct{ c C.fe25519 }
	Ge  struct{ c C.group_ge }
)

func u8(b *byte) *C.uchar { return (*C.uchar)(unsafe.Pointer(b)) }

// scalars

func (r *Sc) Unpack(b *B32) int   { return int(C.group_scalar_unpack(&r.c, u8(&b[0]))) }
func (r *Sc) Pack(b *B32)         { C.group_scalar_pack(u8(&b[0]), &r.c) }
func (r *Sc) SetZero()            { C.group_scalar_setzero(&r.c) }
func (r *Sc) SetOne()             { C.group_scalar_setone(&r.c) }
func (r *Sc) Add(x, y *Sc)        { C.group_scalar_add(&r.c, &x.c, &y.c) }
func (r *Sc) Sub(x, y *Sc)        { C.group_scalar_sub(&r.c, &x.c, &y.c) }
func (r *Sc) Mul(x, y *Sc)        { C.group_scalar_mul(&r.c, &x.c, &y.c) }
func (r *Sc) Neg(x *Sc)           { C.group_scalar_negate(&r.c, &x.c) }
func (r *Sc) Square(x *Sc)        { C.group_scalar_square(&r.c, &x.c) }
func (r *Sc) Invert(x *Sc)        { C.group_scalar_invert(&r.c, &x.c) }
func (r *Sc) IsOne() int          { return int(C.group_scalar_isone(&r.c)) }
func (r *Sc) IsZero() int         { return int(C.group_scalar_iszero(&r.c)) }
func (r *Sc) Equals(x *Sc) int    { return int(C.group_scalar_equals(&r.c, &x.c)) }
func (r *Sc) TstBit(i uint) int   { return int(C.scalar_tstbit(&r.c, C.uint(i))) }
func (r *Sc) BitLen() int         { return int(C.scalar_bitlen(&r.c)) }
func (r *Sc) From64(b *[64]byte)  { C.scalar_from64bytes(&r.c, u8(&b[0])) }
func (r *Sc) Window3(d *[85]int8) { C.scalar_window3((*C.schar)(unsafe.Pointer(d)), &r.c) }
func (r *Sc) Window5(d *[51]int8) { C.scalar_window5((*C.schar)(unsafe.Pointer(d)), &r.c) }
func (r *Sc) Slide(d *[256]int8, w int) {
	C.scalar_slide((*C.schar)(unsafe.Pointer(d)), &r.c, C.int(w))
}

func ScZero() Sc { return Sc{C.group_scalar_zero} }
func ScOne() Sc  { return Sc{C.group_scalar_one} }

// field

func (r *Fe) Unpack(b *B32)         { C.fe25519_unpack(&r.c, u8(&b[0])) }
func (r *Fe) Pack(b *B32)           { C.fe25519_pack(u8(&b[0]), &r.c) }
func (r *Fe) IsZero() int           { return int(C.fe25519_iszero(&r.c)) }
func (r *Fe) IsOne() int            { return int(C.fe25519_isone(&r.c)) }
func (r *Fe) IsNegative() int       { return int(C.fe25519_isnegative(&r.c)) }
func (r *Fe) Parity() int           { return int(C.fe25519_getparity(&r.c)) }
func (r *Fe) IsEq(x *Fe) int        { return int(C.fe25519_iseq(&r.c, &x.c)) }
func (r *Fe) IsEqVartime(x *Fe) int { return int(C.fe25519_iseq_vartime(&r.c, &x.c)) }
func (r *Fe) CMov(x *Fe, b byte)    { C.fe25519_cmov(&r.c, &x.c, C.uchar(b)) }
func (r *Fe) SetOne()               { C.fe25519_setone(&r.c) }
func (r *Fe) SetZero()              { C.fe25519_setzero(&r.c) }
func (r *Fe) Neg(x *Fe)             { C.fe25519_neg(&r.c, &x.c) }
func (r *Fe) Add(x, y *Fe)          { C.fe25519_add(&r.c, &x.c, &y.c) }
func (r *Fe) Sub(x, y *Fe)          { C.fe25519_sub(&r.c, &x.c, &y.c) }
func (r *Fe) Mul(x, y *Fe)          { C.fe25519_mul(&r.c, &x.c, &y.c) }
func (r *Fe) Double(x *Fe)          { C.fe25519_double(&r.c, &x.c) }
func (r *Fe) Triple(x *Fe)          { C.fe25519_triple(&r.c, &x.c) }
func (r *Fe) Square(x *Fe)          { C.fe25519_square(&r.c, &x.c) }
func (r *Fe) SquareDouble(x *Fe)    { C.fe25519_square_double(&r.c, &x.c) }
func (r *Fe) Invert(x *Fe)          { C.fe25519_invert(&r.c, &x.c) }
func (r *Fe) Pow2523(x *Fe)         { C.fe25519_pow2523(&r.c, &x.c) }
func (r *Fe) InvSqrt(x *Fe)         { C.fe25519_invsqrt(&r.c, &x.c) }
func (r *Fe) InvSqrtI(x *Fe) int    { return int(C.fe25519_invsqrti(&r.c, &x.c)) }
func (r *Fe) SqrtI(x *Fe) int       { return int(C.fe25519_sqrti(&r.c, &x.c)) }
func (r *Fe) Sqrt(x *Fe)            { C.fe25519_sqrt(&r.c, &x.c) }

// FeConsts are zero, one, two, i, -i, -1.
func FeConsts() [6]Fe {
	return [6]Fe{{C.fe25519_zero}, {C.fe25519_one}, {C.fe25519_two}, {C.fe25519_sqrtm1}, {C.fe25519_msqrtm1}, {C.fe25519_m1}}
}

// group

func (r *Ge) X() *Fe             { return (*Fe)(unsafe.Pointer(&r.c.x)) }
func (r *Ge) Y() *Fe             { return (*Fe)(unsafe.Pointer(&r.c.y)) }
func (r *Ge) Z() *Fe             { return (*Fe)(unsafe.Pointer(&r.c.z)) }
func (r *Ge) T() *Fe             { return (*Fe)(unsafe.Pointer(&r.c.t)) }
func (r *Ge) Unpack(b *B32) int  { return int(C.group_ge_unpack(&r.c, u8(&b[0]))) }
func (r *Ge) Pack(b *B32)        { C.group_ge_pack(u8(&b[0]), &r.c) }
func (r *Ge) Add(x, y *Ge)       { C.group_ge_add(&r.c, &x.c, &y.c) }
func (r *Ge) Double(x *Ge)       { C.group_ge_double(&r.c, &x.c) }
func (r *Ge) Neg(x *Ge)          { C.group_ge_negate(&r.c, &x.c) }
func (r *Ge) Mult(x *Ge, s *Sc)  { C.group_ge_scalarmult(&r.c, &x.c, &s.c) }
func (r *Ge) MultBase(s *Sc)     { C.group_ge_scalarmult_base(&r.c, &s.c) }
func (r *Ge) Equals(x *Ge) int   { return int(C.group_ge_equals(&r.c, &x.c)) }
func (r *Ge) IsNeutral() int     { return int(C.group_ge_isneutral(&r.c)) }
func (r *Ge) PAdd(x, y *Ge)      { C.group_ge_add_publicinputs(&r.c, &x.c, &y.c) }
func (r *Ge) PDouble(x *Ge)      { C.group_ge_double_publicinputs(&r.c, &x.c) }
func (r *Ge) PNeg(x *Ge)         { C.group_ge_negate_publicinputs(&r.c, &x.c) }
func (r *Ge) PMult(x *Ge, s *Sc) { C.group_ge_scalarmult_publicinputs(&r.c, &x.c, &s.c) }
func (r *Ge) PMultBase(s *Sc)    { C.group_ge_scalarmult_base_publicinputs(&r.c, &s.c) }
func (r *Ge) PEquals(x *Ge) int  { return int(C.group_ge_equals_publicinputs(&r.c, &x.c)) }
func (r *Ge) PIsNeutral() int    { return int(C.group_ge_isneutral_publicinputs(&r.c)) }
func (r *Ge) Quartic(s, t *Fe)   { C.group_ge_from_jacobi_quartic(&r.c, &s.c, &t.c) }
func (r *Ge) Elligator(x *Fe)    { C.group_ge_elligator(&r.c, &x.c) }

func (r *Ge) Multi(x []Ge, s []Sc) {
	if len(x) == 0 {
		C.group_ge_multiscalarmult(&r.c, nil, nil, 0)
		return
	}
	C.group_ge_multiscalarmult(&r.c, &x[0].c, &s[0].c, C.ulonglong(len(x)))
}

func (r *Ge) PMulti(x []Ge, s []Sc) {
	if len(x) == 0 {
		C.group_ge_multiscalarmult_publicinputs(&r.c, nil, nil, 0)
		return
	}
	C.group_ge_multiscalarmult_publicinputs(&r.c, &x[0].c, &s[0].c, C.ulonglong(len(x)))
}

func GeBase() Ge    { return Ge{C.group_ge_base} }
func GeNeutral() Ge { return Ge{C.group_ge_neutral} }
