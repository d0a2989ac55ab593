package props

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C10: serialisation ---------------------------------------------------

// textCarries is the specification of the text forms: the 32 bytes carried, if any.
func textCarries(txt []byte, point bool) (B32, bool) {
	var r B32
	if point && len(txt) == 64 {
		if b, err := hex.DecodeString(string(txt)); err == nil {
			copy(r[:], b)
			return r, true
		}
	}
	b, err := base64.RawURLEncoding.DecodeString(string(txt))
	if err != nil || len(b) != 32 {
		return r, false
	}
	copy(r[:], b)
	return r, true
}

func scMask(b B32) *big.Int {
	b[31] &= 0x1f
	n := ref.LEToBig(b[:])
	return n.Mod(n, ref.L)
}

// checkPointOutcome: decoding b (if ok) must succeed exactly if RFC-valid and then give that element.
func checkPointOutcome(what string, p *Pt, err error, b B32, ok bool) error {
	var want ref.Pt
	if ok {
		want, ok = ref.Decode(b)
	}
	if ok != (err == nil) {
		return fmt.Errorf("%s: error %v, but valid is %v", what, err, ok)
	}
	if ok {
		return note(isClass(p, want), "%s", what)
	}
	return nil
}

func checkScalarOutcome(what string, s *Sc, err error, b B32, ok bool) error {
	if ok != (err == nil) {
		return fmt.Errorf("%s: error %v, but valid is %v", what, err, ok)
	}
	if ok {
		return scIs(what, s, scMask(b))
	}
	return nil
}

// textCase feeds one text to all text unmarshallers.
func textCase(txt []byte) error {
	eng.Op(4)
	eng.State(txt)
	keep := append([]byte{}, txt...)
	pb, pok := textCarries(txt, true)
	sb, sok := textCarries(txt, false)
	var p Pt
	p.SetBase()
	if err := checkPointOutcome("Point.UnmarshalText", &p, p.UnmarshalText(txt), pb, pok); err != nil {
		return note(err, "text %q", keep)
	}
	s := junkSc(7)
	if err := checkScalarOutcome("Scalar.UnmarshalText", &s, s.UnmarshalText(txt), sb, sok); err != nil {
		return note(err, "text %q", keep)
	}
	if !bytes.Equal(txt, keep) {
		return fmt.Errorf("UnmarshalText changed its input %q", keep)
	}
	return nil
}

func jsonCase(doc []byte) error {
	eng.Op(2)
	var str string
	isStr := json.Unmarshal(doc, &str) == nil
	var anyv any
	valid := json.Unmarshal(doc, &anyv) == nil
	var p Pt
	p.SetBase()
	var s Sc
	ep := json.Unmarshal(doc, &p)
	es := json.Unmarshal(doc, &s)
	if valid && anyv == nil { // JSON null: documented by encoding/json as a no-op
		if ep != nil || es != nil {
			return fmt.Errorf("null gave %v, %v", ep, es)
		}
		return nil
	}
	pb, pok := textCarries([]byte(str), true)
	sb, sok := textCarries([]byte(str), false)
	if err := checkPointOutcome("json point", &p, ep, pb, pok && isStr); err != nil {
		return note(err, "document %q", doc)
	}
	return note(checkScalarOutcome("json scalar", &s, es, sb, sok && isStr), "document %q", doc)
}

func validTexts() [][]byte {
	var r [][]byte
	for i, b := range alpha.EncSmall() {
		if i >= 6 {
			break
		}
		r = append(r, []byte(base64.RawURLEncoding.EncodeToString(b[:])))
	}
	for _, b := range []B32{alpha.GenSc(0), alpha.ScTiny()[5], alpha.Gen32("raw", 1)} {
		r = append(r, []byte(base64.RawURLEncoding.EncodeToString(b[:])))
	}
	return r
}

func validHex() [][]byte {
	var r [][]byte
	for i, b := range alpha.EncSmall() {
		if i >= 6 {
			break
		}
		h := hex.EncodeToString(b[:])
		r = append(r, []byte(h), []byte(strings.ToUpper(h)), []byte(h[:31]+strings.ToUpper(h[31:])))
	}
	return r
}

type jsonDoc struct {
	P  *Pt            `json:"p"`
	S  *Sc            `json:"s"`
	PV Pt             `json:"pv"`
	SV Sc             `json:"sv"`
	L  []Pt           `json:"l"`
	M  map[string]*Sc `json:"m"`
}

func init() {
	_ = encoding.BinaryMarshaler((*Pt)(nil))
	_ = encoding.TextUnmarshaler((*Sc)(nil))
	eng.Register(eng.Space{Prop: "C10", Name: "point-round-trip",
		Bound: "every representation (89 group elements x 4 cosets x forced scalings): binary, text, String, %v formatting and JSON (field, pointer, slice) marshal to the canonical encoding and back",
		Make: func(tier string) (uint64, func(uint64) error) {
			ra := repsOf(alpha.PtsMed(), alpha.Targets()[:eng.Pick(tier, 2, 10)])
			return uint64(len(ra)), func(i uint64) error {
				a := ra[i]
				p := a.P()
				enc := a.Class.Encode()
				txt := base64.RawURLEncoding.EncodeToString(enc[:])
				eng.Op(10)
				eng.State(enc[:])
				sample("C10/point-round-trip", "%v", a)
				mb, e1 := p.MarshalBinary()
				mt, e2 := p.MarshalText()
				if e1 != nil || e2 != nil {
					return fmt.Errorf("marshalling %v failed: %v %v", a, e1, e2)
				}
				doc := jsonDoc{P: &p, PV: p, L: []Pt{p, p}, S: &Sc{1}, M: map[string]*Sc{"x": {2}}}
				js, e3 := json.Marshal(&doc)
				if e3 != nil {
					return fmt.Errorf("json.Marshal: %v", e3)
				}
				var q, q2, q3, q4 Pt
				var back jsonDoc
				return note(chain(
					func() error { return wantBytes("MarshalBinary", mb, enc[:]) },
					func() error { return wantBytes("MarshalText", mt, []byte(txt)) },
					func() error { return wantBytes("String", []byte(p.String()), []byte(txt)) },
					func() error { return wantBytes("%v", []byte(fmt.Sprintf("%v", p)), []byte(txt)) },
					func() error { return wantBytes("%s of pointer", []byte(fmt.Sprintf("%s", &p)), []byte(txt)) },
					func() error { return checkPointOutcome("UnmarshalBinary", &q, q.UnmarshalBinary(mb), enc, true) },
					func() error { return checkPointOutcome("UnmarshalText", &q2, q2.UnmarshalText(mt), enc, true) },
					func() error {
						return checkPointOutcome("UnmarshalText of hex", &q3, q3.UnmarshalText([]byte(hex.EncodeToString(enc[:]))), enc, true)
					},
					func() error {
						return checkPointOutcome("UnmarshalText of String", &q4, q4.UnmarshalText([]byte(p.String())), enc, true)
					},
					func() error { return isClass(&p, a.Class) },
					func() error {
						if !bytes.Contains(js, []byte(`"p":"`+txt+`"`)) || !bytes.Contains(js, []byte(`"pv":"`+txt+`"`)) {
							return fmt.Errorf("JSON form is %s", js)
						}
						if err := json.Unmarshal(js, &back); err != nil {
							return fmt.Errorf("json.Unmarshal: %v", err)
						}
						if back.P == nil || len(back.L) != 2 {
							return fmt.Errorf("JSON lost elements")
						}
						return chain(func() error { return isClass(back.P, a.Class) }, func() error { return isClass(&back.PV, a.Class) },
							func() error { return isClass(&back.L[0], a.Class) }, func() error { return isClass(&back.L[1], a.Class) })
					},
				), "%v", a)
			}
		}})
	eng.Register(eng.Space{Prop: "C10", Name: "scalar-round-trip",
		Bound: "binary, text, String, formatting and JSON of every scalar of the 8368-letter alphabet",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := svs(alpha.ScBig())
			return uint64(len(al)), func(i uint64) error {
				a := al[i]
				s := scRaw(a.b)
				txt := base64.RawURLEncoding.EncodeToString(a.b[:])
				eng.Op(8)
				eng.State(a.b[:])
				mb, e1 := s.MarshalBinary()
				mt, e2 := s.MarshalText()
				js, e3 := json.Marshal(&jsonDoc{S: &s, SV: s, M: map[string]*Sc{"k": &s}})
				if e1 != nil || e2 != nil || e3 != nil {
					return fmt.Errorf("marshalling failed: %v %v %v", e1, e2, e3)
				}
				var back jsonDoc
				q, q2, q3 := junkSc(1), junkSc(2), junkSc(3)
				return note(chain(
					func() error { return wantBytes("MarshalBinary", mb, a.b[:]) },
					func() error { return wantBytes("MarshalText", mt, []byte(txt)) },
					func() error { return wantBytes("String", []byte(s.String()), []byte(txt)) },
					func() error { return wantBytes("%v", []byte(fmt.Sprintf("%v", s)), []byte(txt)) },
					func() error { return checkScalarOutcome("UnmarshalBinary", &q, q.UnmarshalBinary(mb), a.b, true) },
					func() error { return checkScalarOutcome("UnmarshalText", &q2, q2.UnmarshalText(mt), a.b, true) },
					func() error {
						return checkScalarOutcome("UnmarshalText of String", &q3, q3.UnmarshalText([]byte(s.String())), a.b, true)
					},
					func() error { return scIs("scalar after marshalling", &s, a.n) },
					func() error {
						if !bytes.Contains(js, []byte(`"s":"`+txt+`"`)) {
							return fmt.Errorf("JSON form is %s", js)
						}
						if err := json.Unmarshal(js, &back); err != nil {
							return fmt.Errorf("json.Unmarshal: %v", err)
						}
						if back.S == nil || back.M["k"] == nil {
							return fmt.Errorf("JSON lost elements")
						}
						return chain(func() error { return scIs("JSON", back.S, a.n) }, func() error { return scIs("JSON", &back.SV, a.n) },
							func() error { return scIs("JSON", back.M["k"], a.n) })
					},
				), "scalar %x", a.b)
			}
		}})
	bin := func(in []byte) error {
		eng.Op(2)
		eng.State(in)
		var b B32
		ok := len(in) == 32
		copy(b[:], in)
		keep := append([]byte{}, in...)
		var p Pt
		p.SetBase()
		s := junkSc(9)
		if err := checkPointOutcome("Point.UnmarshalBinary", &p, p.UnmarshalBinary(in), b, ok); err != nil {
			return note(err, "input %x", keep)
		}
		if err := checkScalarOutcome("Scalar.UnmarshalBinary", &s, s.UnmarshalBinary(in), b, ok); err != nil {
			return note(err, "input %x", keep)
		}
		if !bytes.Equal(in, keep) {
			return fmt.Errorf("UnmarshalBinary changed its input")
		}
		return nil
	}
	eng.Register(eng.Space{Prop: "C10", Name: "binary-lengths",
		Bound: "UnmarshalBinary on every length 0..200 and 2^k+-1 up to 65537, filled with a valid encoding and its repetitions, zeroes, ones or a counter, with exact and spare capacity",
		Make: func(tier string) (uint64, func(uint64) error) {
			var ls []int
			for k := 0; k <= 200; k++ {
				ls = append(ls, k)
			}
			for k := uint(8); k <= 16; k++ {
				ls = append(ls, 1<<k-1, 1<<k, 1<<k+1, 1<<k+32)
			}
			e := alpha.EncSmall()
			return eng.Prod(len(ls), 8, 2), func(i uint64) error {
				d := eng.Digits(i, len(ls), 8, 2)
				n := ls[d[0]]
				in := make([]byte, n, n+40*d[2])
				for k := range in {
					switch d[1] {
					case 0, 1, 2, 3:
						in[k] = e[d[1]+1][k%32]
					case 4:
						in[k] = 0
					case 5:
						in[k] = 255
					case 6:
						in[k] = byte(k)
					case 7:
						if k >= n-32 {
							in[k] = e[1][k-(n-32)]
						}
					}
				}
				if d[2] == 1 {
					copy(in[n:n+40], bytes.Repeat(e[1][:], 2))
				}
				if n == 0 && d[1] == 0 {
					in = nil
				}
				return bin(in)
			}
		}})
	eng.Register(eng.Space{Prop: "C10", Name: "binary-contents",
		Bound: "UnmarshalBinary on every string of the 10556-letter 32-byte alphabet and on every one-byte mutation (all 32 x 256) of 4 valid encodings",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := alpha.Raw32()
			e := alpha.EncSmall()
			return uint64(len(al)) + 4*32*256, func(i uint64) error {
				if i < uint64(len(al)) {
					return bin(append([]byte{}, al[i][:]...))
				}
				d := eng.Digits(i-uint64(len(al)), 4, 32, 256)
				b := e[d[0]]
				b[d[1]] = byte(d[2])
				return bin(b[:])
			}
		}})
	reg := func(name, bound string, size func(tier string) uint64, gen func(i uint64) []byte) {
		eng.Register(eng.Space{Prop: "C10", Name: name, Bound: bound, Make: func(tier string) (uint64, func(uint64) error) {
			return size(tier), func(i uint64) error {
				t := gen(i)
				if t == nil {
					t = []byte{}
				}
				sample("C10/"+name, "%q", t)
				return textCase(t)
			}
		}})
	}
	vt, vh := validTexts(), validHex()
	all := append(append([][]byte{}, vt...), vh...)
	fix := func(n uint64) func(string) uint64 { return func(string) uint64 { return n } }
	reg("text-short", "UnmarshalText on all strings of length 0, 1 and 2 over all 256 byte values", fix(1+256+65536), func(i uint64) []byte {
		switch {
		case i == 0:
			return nil
		case i < 257:
			return []byte{byte(i - 1)}
		}
		i -= 257
		return []byte{byte(i), byte(i >> 8)}
	})
	reg("text-substitute", "UnmarshalText on every one-byte substitution (each position, each of 256 values) of 27 valid base64 and hex texts",
		fix(uint64(len(all))*64*256), func(i uint64) []byte {
			d := eng.Digits(i, len(all), 64, 256)
			t := append([]byte{}, all[d[0]]...)
			t[d[1]%len(t)] = byte(d[2])
			return t
		})
	reg("text-insert", "UnmarshalText on every one-byte insertion (each position, each of 256 values) into 27 valid texts",
		fix(uint64(len(all))*65*256), func(i uint64) []byte {
			d := eng.Digits(i, len(all), 65, 256)
			t := all[d[0]]
			k := d[1] % (len(t) + 1)
			r := append([]byte{}, t[:k]...)
			return append(append(r, byte(d[2])), t[k:]...)
		})
	cut := []string{"", "=", "==", "\n", "\r\n", " ", "A", "AA", "AAA", "AAAA", "\x00", "0x", "_", "-"}
	reg("text-slices", "UnmarshalText on every substring t[i:j] of 27 valid texts and of their doublings, with each of 14 prefixes/suffixes on the full-length ones",
		fix(uint64(len(all))*129*129), func(i uint64) []byte {
			d := eng.Digits(i, len(all), 129, 129)
			t := append(append([]byte{}, all[d[0]]...), all[d[0]]...)
			a, b := d[1]%(len(t)+1), d[2]%(len(t)+1)
			if a > b {
				a, b = b, a
			}
			return t[a:b:b]
		})
	reg("text-affix", "UnmarshalText on 27 valid texts with every pair of 14 prefixes and suffixes", fix(uint64(len(all)*14*14)), func(i uint64) []byte {
		d := eng.Digits(i, len(all), 14, 14)
		return []byte(cut[d[1]] + string(all[d[0]]) + cut[d[2]])
	})
	chars := []byte("A_-+/=\n 0fgz\x00\xff")
	reg("text-two-substitutions", "UnmarshalText on every pair of substitutions from a 14-character menu in 3 valid base64 texts and 2 hex texts",
		fix(5*64*64*14*14), func(i uint64) []byte {
			d := eng.Digits(i, 5, 64, 64, 14, 14)
			src := [][]byte{vt[1], vt[2], vt[6], vh[3], vh[7]}[d[0]]
			t := append([]byte{}, src...)
			t[d[1]%len(t)] = chars[d[3]]
			t[d[2]%len(t)] = chars[d[4]]
			return t
		})
	reg("text-newlines", "UnmarshalText on valid texts padded with k newlines (0..64) at each position: base64 text of every total length that still carries 32 bytes",
		fix(uint64(len(all))*65*65), func(i uint64) []byte {
			d := eng.Digits(i, len(all), 65, 65)
			t := all[d[0]]
			k := d[1] % (len(t) + 1)
			return []byte(string(t[:k]) + strings.Repeat("\n", d[2]) + string(t[k:]))
		})
	reg("text-lengths", "UnmarshalText on every length 0..300 and 2^k+-1 up to 65537 of 20 repeated characters", fix(330*20), func(i uint64) []byte {
		d := eng.Digits(i, 330, 20)
		n := d[0]
		if n > 300 {
			n = 1<<uint(8+(n-301)/3) + (n-301)%3 - 1
		}
		c := "A_-+/=\n 0fgz\x00\xffFa9Zw\r"
		return bytes.Repeat([]byte{c[d[1]]}, n)
	})
	eng.Register(eng.Space{Prop: "C10", Name: "text-encodings",
		Bound: "UnmarshalText on base64 (URL and standard alphabet, padded and raw) and hex of every string of the 10556-letter 32-byte alphabet, and of 30..34, 48 byte strings",
		Make: func(tier string) (uint64, func(uint64) error) {
			al := alpha.Raw32()
			return uint64(len(al)) * 12, func(i uint64) error {
				b := al[i/12][:]
				x := append(append([]byte{}, b...), b...)
				var t string
				switch i % 12 {
				case 0:
					t = base64.RawURLEncoding.EncodeToString(b)
				case 1:
					t = base64.URLEncoding.EncodeToString(b)
				case 2:
					t = base64.RawStdEncoding.EncodeToString(b)
				case 3:
					t = base64.StdEncoding.EncodeToString(b)
				case 4:
					t = hex.EncodeToString(b)
				case 5:
					t = strings.ToUpper(hex.EncodeToString(b))
				case 6:
					t = base64.RawURLEncoding.EncodeToString(x[:31])
				case 7:
					t = base64.RawURLEncoding.EncodeToString(x[:33])
				case 8:
					t = base64.RawURLEncoding.EncodeToString(x[:48])
				case 9:
					t = base64.RawURLEncoding.EncodeToString(x[:64])
				case 10:
					t = hex.EncodeToString(x[:33])
				case 11:
					t = hex.EncodeToString(x[:31])
				}
				return textCase([]byte(t))
			}
		}})
	eng.Register(eng.Space{Prop: "C10", Name: "json",
		Bound: "json.Unmarshal of every JSON value kind, and of 27 valid texts as strings with every one-character escape, substitution from a menu, truncation, and unterminated form",
		Make: func(tier string) (uint64, func(uint64) error) {
			var docs [][]byte
			for _, s := range []string{`null`, `true`, `0`, `-1`, `1e9`, `""`, `[]`, `{}`, `[1]`, `{"a":1}`, `"`, ``, `"\ud800"`, `nul`} {
				docs = append(docs, []byte(s))
			}
			for _, t := range all {
				q := `"` + string(t) + `"`
				docs = append(docs, []byte(q), []byte(string(t)), []byte(q[:len(q)-1]), []byte(`[`+q+`]`), []byte(`{"x":`+q+`}`))
				for k := range t {
					docs = append(docs, []byte(fmt.Sprintf(`"%s\u%04x%s"`, t[:k], t[k], t[k+1:])))
					docs = append(docs, []byte(`"`+string(t[:k])+`"`))
					for _, c := range []string{`\n`, `\u0000`, `=`, `+`, `/`, `é`, ` `} {
						docs = append(docs, []byte(`"`+string(t[:k])+c+string(t[k+1:])+`"`))
						docs = append(docs, []byte(`"`+string(t[:k])+c+string(t[k:])+`"`))
					}
				}
			}
			return uint64(len(docs)), func(i uint64) error { sample("C10/json", "%s", docs[i]); return jsonCase(docs[i]) }
		}})
}
