// Code generated from mops(); direct calls, because reflect.Call synchronises through a pool.

package props

import (
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

var direct = map[string]func(a []any) []any{
	"Point.Add/*ristretto.Point":                                           func(a []any) []any { return []any{a[0].(*Pt).Add(a[1].(*Pt), a[2].(*Pt))} },
	"Point.Sub/*ristretto.Point":                                           func(a []any) []any { return []any{a[0].(*Pt).Sub(a[1].(*Pt), a[2].(*Pt))} },
	"Point.Neg/*ristretto.Point":                                           func(a []any) []any { return []any{a[0].(*Pt).Neg(a[1].(*Pt))} },
	"Point.Double/*ristretto.Point":                                        func(a []any) []any { return []any{a[0].(*Pt).Double(a[1].(*Pt))} },
	"Point.Set/*ristretto.Point":                                           func(a []any) []any { return []any{a[0].(*Pt).Set(a[1].(*Pt))} },
	"Point.ConditionalSet/*ristretto.Point":                                func(a []any) []any { a[0].(*Pt).ConditionalSet(a[1].(*Pt), *a[2].(*int32)); return nil },
	"Point.SetZero/*ristretto.Point":                                       func(a []any) []any { return []any{a[0].(*Pt).SetZero()} },
	"Point.SetBase/*ristretto.Point":                                       func(a []any) []any { return []any{a[0].(*Pt).SetBase()} },
	"Point.Bytes/*ristretto.Point":                                         func(a []any) []any { return []any{a[0].(*Pt).Bytes()} },
	"Point.BytesInto/*ristretto.Point":                                     func(a []any) []any { return []any{a[0].(*Pt).BytesInto(a[1].(*[32]uint8))} },
	"Point.SetBytes/*ristretto.Point":                                      func(a []any) []any { return []any{a[0].(*Pt).SetBytes(a[1].(*[32]uint8))} },
	"Point.SetElligator/*ristretto.Point":                                  func(a []any) []any { return []any{a[0].(*Pt).SetElligator(a[1].(*[32]uint8))} },
	"Point.Derive/*ristretto.Point":                                        func(a []any) []any { return []any{a[0].(*Pt).Derive(*a[1].(*[]uint8))} },
	"Point.DeriveDalek/*ristretto.Point":                                   func(a []any) []any { return []any{a[0].(*Pt).DeriveDalek(*a[1].(*[]uint8))} },
	"Point.SetLizard/*ristretto.Point":                                     func(a []any) []any { return []any{a[0].(*Pt).SetLizard(a[1].(*[16]uint8))} },
	"Point.Lizard/*ristretto.Point":                                        func(a []any) []any { return []any{a[0].(*Pt).Lizard()} },
	"Point.LizardInto/*ristretto.Point":                                    func(a []any) []any { return []any{a[0].(*Pt).LizardInto(a[1].(*[16]uint8))} },
	"Point.Equals/*ristretto.Point":                                        func(a []any) []any { return []any{a[0].(*Pt).Equals(a[1].(*Pt))} },
	"Point.EqualsI/*ristretto.Point":                                       func(a []any) []any { return []any{a[0].(*Pt).EqualsI(a[1].(*Pt))} },
	"Point.MarshalBinary/*ristretto.Point":                                 func(a []any) []any { x, y := a[0].(*Pt).MarshalBinary(); return []any{x, y} },
	"Point.MarshalText/*ristretto.Point":                                   func(a []any) []any { x, y := a[0].(*Pt).MarshalText(); return []any{x, y} },
	"Point.UnmarshalBinary/*ristretto.Point":                               func(a []any) []any { return []any{a[0].(*Pt).UnmarshalBinary(*a[1].(*[]uint8))} },
	"Point.UnmarshalText/*ristretto.Point":                                 func(a []any) []any { return []any{a[0].(*Pt).UnmarshalText(*a[1].(*[]uint8))} },
	"Point.String/*ristretto.Point":                                        func(a []any) []any { return []any{a[0].(*Pt).String()} },
	"Point.ScalarMult/*ristretto.Point":                                    func(a []any) []any { return []any{a[0].(*Pt).ScalarMult(a[1].(*Pt), a[2].(*Sc))} },
	"Point.PublicScalarMult/*ristretto.Point":                              func(a []any) []any { return []any{a[0].(*Pt).PublicScalarMult(a[1].(*Pt), a[2].(*Sc))} },
	"Point.ScalarMultTable/*ristretto.Point":                               func(a []any) []any { return []any{a[0].(*Pt).ScalarMultTable(a[1].(*Tab), a[2].(*Sc))} },
	"Point.PublicScalarMultTable/*ristretto.Point":                         func(a []any) []any { return []any{a[0].(*Pt).PublicScalarMultTable(a[1].(*Tab), a[2].(*Sc))} },
	"Point.ScalarMultBase/*ristretto.Point":                                func(a []any) []any { return []any{a[0].(*Pt).ScalarMultBase(a[1].(*Sc))} },
	"Point.PublicScalarMultBase/*ristretto.Point":                          func(a []any) []any { return []any{a[0].(*Pt).PublicScalarMultBase(a[1].(*Sc))} },
	"Scalar.Add/*ristretto.Scalar":                                         func(a []any) []any { return []any{a[0].(*Sc).Add(a[1].(*Sc), a[2].(*Sc))} },
	"Scalar.Sub/*ristretto.Scalar":                                         func(a []any) []any { return []any{a[0].(*Sc).Sub(a[1].(*Sc), a[2].(*Sc))} },
	"Scalar.Mul/*ristretto.Scalar":                                         func(a []any) []any { return []any{a[0].(*Sc).Mul(a[1].(*Sc), a[2].(*Sc))} },
	"Scalar.MulAdd/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).MulAdd(a[1].(*Sc), a[2].(*Sc), a[3].(*Sc))} },
	"Scalar.MulSub/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).MulSub(a[1].(*Sc), a[2].(*Sc), a[3].(*Sc))} },
	"Scalar.Neg/*ristretto.Scalar":                                         func(a []any) []any { return []any{a[0].(*Sc).Neg(a[1].(*Sc))} },
	"Scalar.Square/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).Square(a[1].(*Sc))} },
	"Scalar.Inverse/*ristretto.Scalar":                                     func(a []any) []any { return []any{a[0].(*Sc).Inverse(a[1].(*Sc))} },
	"Scalar.Set/*ristretto.Scalar":                                         func(a []any) []any { return []any{a[0].(*Sc).Set(a[1].(*Sc))} },
	"Scalar.ConditionalSet/*ristretto.Scalar":                              func(a []any) []any { a[0].(*Sc).ConditionalSet(a[1].(*Sc), *a[2].(*int32)); return nil },
	"Scalar.SetZero/*ristretto.Scalar":                                     func(a []any) []any { return []any{a[0].(*Sc).SetZero()} },
	"Scalar.SetOne/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).SetOne()} },
	"Scalar.Bytes/*ristretto.Scalar":                                       func(a []any) []any { return []any{a[0].(*Sc).Bytes()} },
	"Scalar.BytesInto/*ristretto.Scalar":                                   func(a []any) []any { return []any{a[0].(*Sc).BytesInto(a[1].(*[32]uint8))} },
	"Scalar.SetBytes/*ristretto.Scalar":                                    func(a []any) []any { return []any{a[0].(*Sc).SetBytes(a[1].(*[32]uint8))} },
	"Scalar.SetBytesStrict/*ristretto.Scalar":                              func(a []any) []any { return []any{a[0].(*Sc).SetBytesStrict(a[1].(*[32]uint8))} },
	"Scalar.SetReduced/*ristretto.Scalar":                                  func(a []any) []any { return []any{a[0].(*Sc).SetReduced(a[1].(*[64]uint8))} },
	"Scalar.SetBigInt/*ristretto.Scalar":                                   func(a []any) []any { return []any{a[0].(*Sc).SetBigInt(a[1].(*big.Int))} },
	"Scalar.SetUint64/*ristretto.Scalar":                                   func(a []any) []any { return []any{a[0].(*Sc).SetUint64(*a[1].(*uint64))} },
	"Scalar.BigInt/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).BigInt()} },
	"Scalar.Derive/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).Derive(*a[1].(*[]uint8))} },
	"Scalar.DeriveShort/*ristretto.Scalar":                                 func(a []any) []any { return []any{a[0].(*Sc).DeriveShort(*a[1].(*[]uint8))} },
	"Scalar.Equals/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).Equals(a[1].(*Sc))} },
	"Scalar.EqualsI/*ristretto.Scalar":                                     func(a []any) []any { return []any{a[0].(*Sc).EqualsI(a[1].(*Sc))} },
	"Scalar.IsNonZeroI/*ristretto.Scalar":                                  func(a []any) []any { return []any{a[0].(*Sc).IsNonZeroI()} },
	"Scalar.MarshalBinary/*ristretto.Scalar":                               func(a []any) []any { x, y := a[0].(*Sc).MarshalBinary(); return []any{x, y} },
	"Scalar.MarshalText/*ristretto.Scalar":                                 func(a []any) []any { x, y := a[0].(*Sc).MarshalText(); return []any{x, y} },
	"Scalar.UnmarshalBinary/*ristretto.Scalar":                             func(a []any) []any { return []any{a[0].(*Sc).UnmarshalBinary(*a[1].(*[]uint8))} },
	"Scalar.UnmarshalText/*ristretto.Scalar":                               func(a []any) []any { return []any{a[0].(*Sc).UnmarshalText(*a[1].(*[]uint8))} },
	"Scalar.String/*ristretto.Scalar":                                      func(a []any) []any { return []any{a[0].(*Sc).String()} },
	"ScalarMultTable.Compute/*ristretto.ScalarMultTable":                   func(a []any) []any { a[0].(*Tab).Compute(a[1].(*Pt)); return nil },
	"ExtendedPoint.Add/*edwards25519.ExtendedPoint":                        func(a []any) []any { return []any{a[0].(*EP).Add(a[1].(*EP), a[2].(*EP))} },
	"ExtendedPoint.Sub/*edwards25519.ExtendedPoint":                        func(a []any) []any { return []any{a[0].(*EP).Sub(a[1].(*EP), a[2].(*EP))} },
	"ExtendedPoint.Neg/*edwards25519.ExtendedPoint":                        func(a []any) []any { return []any{a[0].(*EP).Neg(a[1].(*EP))} },
	"ExtendedPoint.Double/*edwards25519.ExtendedPoint":                     func(a []any) []any { return []any{a[0].(*EP).Double(a[1].(*EP))} },
	"ExtendedPoint.Set/*edwards25519.ExtendedPoint":                        func(a []any) []any { return []any{a[0].(*EP).Set(a[1].(*EP))} },
	"ExtendedPoint.ConditionalSet/*edwards25519.ExtendedPoint":             func(a []any) []any { return []any{a[0].(*EP).ConditionalSet(a[1].(*EP), *a[2].(*int32))} },
	"ExtendedPoint.SetZero/*edwards25519.ExtendedPoint":                    func(a []any) []any { return []any{a[0].(*EP).SetZero()} },
	"ExtendedPoint.SetBase/*edwards25519.ExtendedPoint":                    func(a []any) []any { return []any{a[0].(*EP).SetBase()} },
	"ExtendedPoint.SetTorsion1/*edwards25519.ExtendedPoint":                func(a []any) []any { return []any{a[0].(*EP).SetTorsion1()} },
	"ExtendedPoint.SetTorsion2/*edwards25519.ExtendedPoint":                func(a []any) []any { return []any{a[0].(*EP).SetTorsion2()} },
	"ExtendedPoint.SetTorsion3/*edwards25519.ExtendedPoint":                func(a []any) []any { return []any{a[0].(*EP).SetTorsion3()} },
	"ExtendedPoint.SetCompleted/*edwards25519.ExtendedPoint":               func(a []any) []any { return []any{a[0].(*EP).SetCompleted(a[1].(*ed.CompletedPoint))} },
	"ExtendedPoint.SetRistretto/*edwards25519.ExtendedPoint":               func(a []any) []any { return []any{a[0].(*EP).SetRistretto(a[1].(*[32]uint8))} },
	"ExtendedPoint.Ristretto/*edwards25519.ExtendedPoint":                  func(a []any) []any { return []any{a[0].(*EP).Ristretto()} },
	"ExtendedPoint.RistrettoInto/*edwards25519.ExtendedPoint":              func(a []any) []any { return []any{a[0].(*EP).RistrettoInto(a[1].(*[32]uint8))} },
	"ExtendedPoint.RistrettoEqualsI/*edwards25519.ExtendedPoint":           func(a []any) []any { return []any{a[0].(*EP).RistrettoEqualsI(a[1].(*EP))} },
	"ExtendedPoint.RistrettoElligator2Inverse/*edwards25519.ExtendedPoint": func(a []any) []any { return []any{a[0].(*EP).RistrettoElligator2Inverse(a[1].(*[8]FE))} },
	"ExtendedPoint.ToJacobiQuarticRistretto/*edwards25519.ExtendedPoint":   func(a []any) []any { return []any{a[0].(*EP).ToJacobiQuarticRistretto(a[1].(*[4]ed.JacobiPoint))} },
	"ExtendedPoint.ScalarMult/*edwards25519.ExtendedPoint":                 func(a []any) []any { return []any{a[0].(*EP).ScalarMult(a[1].(*EP), a[2].(*[32]uint8))} },
	"ExtendedPoint.VarTimeScalarMult/*edwards25519.ExtendedPoint":          func(a []any) []any { return []any{a[0].(*EP).VarTimeScalarMult(a[1].(*EP), a[2].(*[32]uint8))} },
	"ExtendedPoint.String/*edwards25519.ExtendedPoint":                     func(a []any) []any { return []any{a[0].(*EP).String()} },
	"CompletedPoint.AddExtended/*edwards25519.CompletedPoint":              func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).AddExtended(a[1].(*EP), a[2].(*EP))} },
	"CompletedPoint.SubExtended/*edwards25519.CompletedPoint":              func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).SubExtended(a[1].(*EP), a[2].(*EP))} },
	"CompletedPoint.AddExtendedNiels/*edwards25519.CompletedPoint": func(a []any) []any {
		return []any{a[0].(*ed.CompletedPoint).AddExtendedNiels(a[1].(*EP), a[2].(*ed.NielsPoint))}
	},
	"CompletedPoint.SubExtendedNiels/*edwards25519.CompletedPoint": func(a []any) []any {
		return []any{a[0].(*ed.CompletedPoint).SubExtendedNiels(a[1].(*EP), a[2].(*ed.NielsPoint))}
	},
	"CompletedPoint.DoubleExtended/*edwards25519.CompletedPoint": func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).DoubleExtended(a[1].(*EP))} },
	"CompletedPoint.DoubleProjective/*edwards25519.CompletedPoint": func(a []any) []any {
		return []any{a[0].(*ed.CompletedPoint).DoubleProjective(a[1].(*ed.ProjectivePoint))}
	},
	"CompletedPoint.SetJacobiQuartic/*edwards25519.CompletedPoint":       func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).SetJacobiQuartic(a[1].(*ed.JacobiPoint))} },
	"CompletedPoint.SetRistrettoElligator2/*edwards25519.CompletedPoint": func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).SetRistrettoElligator2(a[1].(*FE))} },
	"CompletedPoint.String/*edwards25519.CompletedPoint":                 func(a []any) []any { return []any{a[0].(*ed.CompletedPoint).String()} },
	"ProjectivePoint.SetZero/*edwards25519.ProjectivePoint":              func(a []any) []any { return []any{a[0].(*ed.ProjectivePoint).SetZero()} },
	"ProjectivePoint.SetExtended/*edwards25519.ProjectivePoint":          func(a []any) []any { return []any{a[0].(*ed.ProjectivePoint).SetExtended(a[1].(*EP))} },
	"ProjectivePoint.SetCompleted/*edwards25519.ProjectivePoint":         func(a []any) []any { return []any{a[0].(*ed.ProjectivePoint).SetCompleted(a[1].(*ed.CompletedPoint))} },
	"NielsPoint.SetZero/*edwards25519.NielsPoint":                        func(a []any) []any { return []any{a[0].(*ed.NielsPoint).SetZero()} },
	"NielsPoint.Set/*edwards25519.NielsPoint":                            func(a []any) []any { return []any{a[0].(*ed.NielsPoint).Set(a[1].(*ed.NielsPoint))} },
	"NielsPoint.Neg/*edwards25519.NielsPoint":                            func(a []any) []any { return []any{a[0].(*ed.NielsPoint).Neg(a[1].(*ed.NielsPoint))} },
	"NielsPoint.ConditionalSet/*edwards25519.NielsPoint": func(a []any) []any {
		return []any{a[0].(*ed.NielsPoint).ConditionalSet(a[1].(*ed.NielsPoint), *a[2].(*int32))}
	},
	"NielsPoint.SetExtended/*edwards25519.NielsPoint":          func(a []any) []any { return []any{a[0].(*ed.NielsPoint).SetExtended(a[1].(*EP))} },
	"JacobiPoint.Dual/*edwards25519.JacobiPoint":               func(a []any) []any { return []any{a[0].(*ed.JacobiPoint).Dual(a[1].(*ed.JacobiPoint))} },
	"JacobiPoint.String/*edwards25519.JacobiPoint":             func(a []any) []any { return []any{a[0].(*ed.JacobiPoint).String()} },
	"FieldElement.Add/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Add(a[1].(*FE), a[2].(*FE))} },
	"FieldElement.Sub/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Sub(a[1].(*FE), a[2].(*FE))} },
	"FieldElement.Mul/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Mul(a[1].(*FE), a[2].(*FE))} },
	"FieldElement.Neg/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Neg(a[1].(*FE))} },
	"FieldElement.Square/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).Square(a[1].(*FE))} },
	"FieldElement.DoubledSquare/*edwards25519.FieldElement":    func(a []any) []any { return []any{a[0].(*FE).DoubledSquare(a[1].(*FE))} },
	"FieldElement.Abs/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Abs(a[1].(*FE))} },
	"FieldElement.Set/*edwards25519.FieldElement":              func(a []any) []any { return []any{a[0].(*FE).Set(a[1].(*FE))} },
	"FieldElement.Inverse/*edwards25519.FieldElement":          func(a []any) []any { return []any{a[0].(*FE).Inverse(a[1].(*FE))} },
	"FieldElement.Exp22523/*edwards25519.FieldElement":         func(a []any) []any { return []any{a[0].(*FE).Exp22523(a[1].(*FE))} },
	"FieldElement.InvSqrt/*edwards25519.FieldElement":          func(a []any) []any { return []any{a[0].(*FE).InvSqrt(a[1].(*FE))} },
	"FieldElement.Sqrt/*edwards25519.FieldElement":             func(a []any) []any { return []any{a[0].(*FE).Sqrt(a[1].(*FE))} },
	"FieldElement.InvSqrtI/*edwards25519.FieldElement":         func(a []any) []any { return []any{a[0].(*FE).InvSqrtI(a[1].(*FE))} },
	"FieldElement.ConditionalSet/*edwards25519.FieldElement":   func(a []any) []any { a[0].(*FE).ConditionalSet(a[1].(*FE), *a[2].(*int32)); return nil },
	"FieldElement.SetZero/*edwards25519.FieldElement":          func(a []any) []any { return []any{a[0].(*FE).SetZero()} },
	"FieldElement.SetOne/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).SetOne()} },
	"FieldElement.SetI/*edwards25519.FieldElement":             func(a []any) []any { return []any{a[0].(*FE).SetI()} },
	"FieldElement.Bytes/*edwards25519.FieldElement":            func(a []any) []any { return []any{a[0].(*FE).Bytes()} },
	"FieldElement.BytesInto/*edwards25519.FieldElement":        func(a []any) []any { return []any{a[0].(*FE).BytesInto(a[1].(*[32]uint8))} },
	"FieldElement.SetBytes/*edwards25519.FieldElement":         func(a []any) []any { return []any{a[0].(*FE).SetBytes(a[1].(*[32]uint8))} },
	"FieldElement.SetBigInt/*edwards25519.FieldElement":        func(a []any) []any { return []any{a[0].(*FE).SetBigInt(a[1].(*big.Int))} },
	"FieldElement.BigInt/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).BigInt()} },
	"FieldElement.String/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).String()} },
	"FieldElement.Equals/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).Equals(a[1].(*FE))} },
	"FieldElement.EqualsI/*edwards25519.FieldElement":          func(a []any) []any { return []any{a[0].(*FE).EqualsI(a[1].(*FE))} },
	"FieldElement.IsNegativeI/*edwards25519.FieldElement":      func(a []any) []any { return []any{a[0].(*FE).IsNegativeI()} },
	"FieldElement.IsNonZeroI/*edwards25519.FieldElement":       func(a []any) []any { return []any{a[0].(*FE).IsNonZeroI()} },
	"FieldElement.IsOneI/*edwards25519.FieldElement":           func(a []any) []any { return []any{a[0].(*FE).IsOneI()} },
	"ScalarMultTable.Compute/*edwards25519.ScalarMultTable":    func(a []any) []any { a[0].(*ed.ScalarMultTable).Compute(a[1].(*EP)); return nil },
	"ScalarMultTable.ScalarMult/*edwards25519.ScalarMultTable": func(a []any) []any { a[0].(*ed.ScalarMultTable).ScalarMult(a[1].(*EP), a[2].(*[32]uint8)); return nil },
	"ScalarMultTable.VarTimeScalarMult/*edwards25519.ScalarMultTable": func(a []any) []any {
		a[0].(*ed.ScalarMultTable).VarTimeScalarMult(a[1].(*EP), a[2].(*[32]uint8))
		return nil
	},
}
