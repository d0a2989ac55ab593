package alpha

import (
	"testing"

	"verif/mc/ref"
)

func TestCoordEven(t *testing.T) {
	n, bad := 0, 0
	for i := 0; i < 3000; i++ {
		p, ok := CoordPoint(i)
		if p.Z.IsZero() {
			continue
		}
		q := p.MulBig(ref.L)
		even := q.REq(ref.Ident)
		for _, x := range ref.Torsion4 {
			if q.Eq(x) {
				even = true
			}
		}
		if even {
			n++
		}
		if even != ok {
			bad++
		}
	}
	t.Log(n, bad, CoordCount())
	if bad > 0 {
		t.Fail()
	}
}
