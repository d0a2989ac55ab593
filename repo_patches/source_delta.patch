From 06baa86f017d0c375a4803a550d8e211213b9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:30 +0000
Subject: [PATCH 1/4] fix: FieldElement.BytesInto (generic) must not modify the
 element it packs

Packing reduced the receiver in place and left it with unsigned limbs below
2^26.  Sign and zero tests pack, so a decoded point kept such coordinates;
the sum of two of them overflows the int32 products in Mul and about one in
six sums of a decoded point was wrong with -tags forcegeneric.
---
 edwards25519/field_generic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..7a95967 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,10 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Reduce a copy: packing must not change fe itself.
+	ret, t := fe, *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +331,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return ret
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From 1c4acfc81a5ead31a0b326564042fb088a95ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 2/4] fix: UnmarshalText must return an error, not panic, on
 over-long base64

The text was decoded into a 32-byte buffer, so base64 of more than 32 bytes
(44 or more characters) made Point.UnmarshalText and Scalar.UnmarshalText
panic with an index out of range instead of reporting the wrong length.
---
 ristretto.go | 4 +++-
 scalar.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..1d91786 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,15 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:n])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..defa9f6 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,15 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	dec := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(dec, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], dec)
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From b8e59dc7230529e0c73050acd847a7665a750668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:16 +0000
Subject: [PATCH 3/4] fix: NielsPoint.Neg must be correct when negating in
 place

---
 edwards25519/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..2b4a07d 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,9 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
+	t := q.YMinusX // p may be q
 	p.YMinusX.Set(&q.YPlusX)
-	p.YPlusX.Set(&q.YMinusX)
+	p.YPlusX.Set(&t)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0


From 4bf5f5b12fba25222c53468771b83e8373326442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:16 +0000
Subject: [PATCH 4/4] fix: cref group_ge_unpack must reject non-canonical
 encodings

It ignored bit 255 and accepted values of 2^255-19 and above, so GroupGe.Unpack
returned success for byte strings that encode no group element and that the Go
implementation rejects.
---
 cref/cref.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cref/cref.c b/cref/cref.c
index 3e01673..5b4b1a1 100644
--- a/cref/cref.c
+++ b/cref/cref.c
@@ -2208,12 +2208,19 @@ int group_ge_unpack(group_ge *r, const unsigned char x[GROUP_GE_PACKEDBYTES])
   fe25519 s, s2, chk, yden, ynum, yden2, xden2, isr, xdeninv, ydeninv, t;
   int ret;
   unsigned char b;
+  unsigned char canon[GROUP_GE_PACKEDBYTES], diff = 0;
 
   fe25519_unpack(&s, x);
 
   /* s = cls.bytesToGf(s,mustBePositive=True) */
   ret = fe25519_isnegative(&s);
 
+  /* x has to be the canonical encoding of s, i.e. 0 <= x < 2^255-19 */
+  fe25519_pack(canon, &s);
+  for (b = 0; b < GROUP_GE_PACKEDBYTES; b++)
+    diff |= canon[b] ^ x[b];
+  ret |= (diff != 0);
+
   /* yden     = 1-a*s^2    // 1+s^2 */
   /* ynum     = 1+a*s^2    // 1-s^2 */
   fe25519_square(&s2, &s);
-- 
2.43.0

