package props

import (
	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// Points with patterned affine coordinates, for the properties that speak of every element.

func init() {
	reg := func(prop, what string, even bool, check func(c ref.Pt) error) {
		kind := "curve points"
		if even {
			kind = "even curve points"
		}
		eng.Register(eng.Space{Prop: prop, Name: "coordinate-patterns",
			Bound: what + " of the " + kind + " of which the affine x or y is a letter of the 6497-letter field alphabet or has a single non-zero byte (all 32 x 255), or is the negative of one; both signs of the other coordinate",
			Make: func(tier string) (uint64, func(uint64) error) {
				return uint64(alpha.CoordCount()), func(i uint64) error {
					c, ok := alpha.CoordPoint(int(i))
					if c.Z.IsZero() || even && !ok {
						return nil
					}
					d := c.Neg()
					if i&2 != 0 {
						d = ref.Pt{X: c.X, Y: c.Y.Neg(), Z: c.Z}
					}
					if err := check(c); err != nil {
						return err
					}
					return check(d)
				}
			}})
	}
	reg("C01", "the unary operations and their compositions", true, func(c ref.Pt) error { return c01Unary(Rep{c, c, ref.One}) })
	reg("C04", "comparison with copies, re-encoding and negation", true, func(c ref.Pt) error { return c04Self(Rep{c, c, ref.One}) })
	reg("C06", "the inverse map", true, func(c ref.Pt) error {
		e := mkE(c, ref.One)
		return note(checkInverse(&e, c), "%v", Rep{c, c, ref.One})
	})
	reg("C18", "doubling, negation and conversions", false, func(c ref.Pt) error { return c18Unary(crep{p: c, m: ref.One}) })
}
