// Package props holds, per property, the spaces that decide it.  Only the
// exported API of the library is used.
package props

import (
	"bytes"
	"fmt"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

func sample(space, format string, a ...any) { eng.Sample(space, format, a...) }

type (
	B32 = [32]byte
	Pt  = ristretto.Point
	Sc  = ristretto.Scalar
	Tab = ristretto.ScalarMultTable
	EP  = ed.ExtendedPoint
	FE  = ed.FieldElement
)

// feOf loads a reduced residue.
func feOf(f ref.Fe) FE {
	b := f.Bytes()
	var r FE
	r.SetBytes(&b)
	return r
}

// val reads a field element without touching it.
func val(f *FE) ref.Fe {
	c := *f
	var b B32
	c.BytesInto(&b)
	return ref.FeBytes(b)
}

// mkE builds extended coordinates of the affine point p scaled by m.
func mkE(p ref.Pt, m ref.Fe) EP {
	if p.Z != ref.One {
		p = p.Affine()
	}
	return EP{X: feOf(p.X.Mul(m)), Y: feOf(p.Y.Mul(m)), Z: feOf(m), T: feOf(p.X.Mul(p.Y).Mul(m))}
}

func mkP(p ref.Pt, m ref.Fe) Pt { return Pt(mkE(p, m)) }

// refOf reads extended coordinates: the point, and whether they are well formed.
func refOf(e *EP) (ref.Pt, error) {
	p := ref.Pt{X: val(&e.X), Y: val(&e.Y), Z: val(&e.Z)}
	if p.Z.IsZero() {
		return p, fmt.Errorf("result has Z=0")
	}
	if !p.OnCurve() {
		return p, fmt.Errorf("result is not on the curve: X=%x Y=%x Z=%x", p.X.Bytes(), p.Y.Bytes(), p.Z.Bytes())
	}
	if t := val(&e.T); p.X.Mul(p.Y) != p.Z.Mul(t) {
		return p, fmt.Errorf("result has an inconsistent auxiliary coordinate (XY != ZT): T=%x", t.Bytes())
	}
	return p, nil
}

// isClass checks that p is a well-formed representative of the element want.
func isClass(p *Pt, want ref.Pt) error {
	q, err := refOf((*EP)(p))
	if err != nil {
		return fmt.Errorf("%v (expected element %x)", err, want.Encode())
	}
	if !q.REq(want) {
		return fmt.Errorf("wrong element: got %x, expected %x", q.Encode(), want.Encode())
	}
	return nil
}

// isExact checks that e is a well-formed representation of the curve point want.
func isExact(e *EP, want ref.Pt) error {
	q, err := refOf(e)
	if err != nil {
		return err
	}
	if !q.Eq(want) {
		a, w := q.Affine(), want.Affine()
		return fmt.Errorf("wrong curve point: got (%x,%x), expected (%x,%x)", a.X.Bytes(), a.Y.Bytes(), w.X.Bytes(), w.Y.Bytes())
	}
	return nil
}

// scOf loads a reduced scalar.
func scOf(b B32) Sc {
	var s Sc
	s.SetBytes(&b)
	return s
}

// scRaw builds the scalar by its documented 8x32-bit representation.
func scRaw(b B32) Sc {
	var s Sc
	for i := 0; i < 8; i++ {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return s
}

func scBytes(s *Sc) B32 {
	var b B32
	for i := 0; i < 8; i++ {
		for j := 0; j < 4; j++ {
			b[4*i+j] = byte(s[i] >> (8 * uint(j)))
		}
	}
	return b
}

func wantBytes(what string, got []byte, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: got %x, expected %x", what, got, want)
	}
	return nil
}

// Rep is a representation of a group element: a curve point of its class and a scaling.
type Rep struct {
	Class ref.Pt // affine member of the class (the letter)
	Pt    ref.Pt // affine member actually represented
	M     ref.Fe
}

func (r Rep) P() Pt { return mkP(r.Pt, r.M) }

func (r Rep) String() string {
	return fmt.Sprintf("point(x=%x y=%x) scaled by Z=%x", r.Pt.X.Bytes(), r.Pt.Y.Bytes(), r.M.Bytes())
}

// repsOf enumerates cosets x scalings.
func repsOf(pts []ref.Pt, targets []ref.Fe) []Rep {
	var r []Rep
	for _, p := range pts {
		for _, t := range ref.Torsion4 {
			q := p.Add(t).Affine()
			for _, m := range alpha.Scalings(q, targets) {
				r = append(r, Rep{p, q, m})
			}
		}
	}
	return r
}

// chain runs steps until the first error.
func chain(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func note(err error, format string, a ...any) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s: %w", fmt.Sprintf(format, a...), err)
}

func stateP(p *Pt) {
	q := *p
	var b [4]B32
	q.X.BytesInto(&b[0])
	q.Y.BytesInto(&b[1])
	q.Z.BytesInto(&b[2])
	q.T.BytesInto(&b[3])
	eng.State(b[0][:], b[1][:], b[2][:], b[3][:])
}
