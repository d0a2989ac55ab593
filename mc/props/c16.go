package props

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"verif/mc/alpha"
	"verif/mc/eng"
	"verif/mc/ref"
)

// ---- C16: randomness ------------------------------------------------------

// source delivers data in the given chunk sizes (0 is an empty read), then in
// full; after failAt bytes (if >= 0) every read fails.
type source struct {
	data   []byte
	pos    int
	chunks []int
	ck     int
	failAt int
	mode   int // 0: plain error; 1: the last bytes come together with the error; 2: io.EOF; 3: error once, then data again
	reads  int
	failed bool
}

var errSource = errors.New("injected failure of the random source")

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	fail := func() error {
		s.failed = true
		if s.mode == 2 {
			return io.EOF
		}
		return errSource
	}
	if s.failAt >= 0 && s.pos >= s.failAt && !(s.mode == 3 && s.failed) {
		return 0, fail()
	}
	n := len(p)
	if s.ck < len(s.chunks) {
		if s.chunks[s.ck] < n {
			n = s.chunks[s.ck]
		}
		s.ck++
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
		if n == 0 {
			return 0, fail()
		}
	}
	var err error
	if s.failAt >= 0 && s.pos+n >= s.failAt && !(s.mode == 3 && s.failed) {
		n = s.failAt - s.pos
		if s.mode == 1 || n == 0 {
			err = fail()
		}
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	return n, err
}

// stream is a long byte stream without repeated blocks.
func stream(tag string, n int) []byte {
	var r []byte
	for i := 0; len(r) < n; i++ {
		h := alpha.Hash("stream"+tag, i)
		r = append(r, h[:]...)
	}
	return r[:n]
}

// drawn is the value that must come out of the given bytes.
func drawn(scalar bool, b []byte) []byte {
	if scalar {
		x := ref.RedScalar(ref.LEToBig(b))
		return x[:]
	}
	var in B32
	copy(in[:], b)
	e := ref.MapBytes(in).Encode()
	return e[:]
}

func need(scalar bool) int {
	if scalar {
		return 64
	}
	return 32
}

// draw calls the generator with the given source installed.
func draw(scalar bool, src io.Reader) (out []byte, err error) {
	old := rand.Reader
	rand.Reader = src
	defer func() { rand.Reader = old }()
	eng.Op(1)
	if scalar {
		s := scRaw(alpha.Gen32("dirty", 1))
		if s.Rand() != &s {
			return nil, fmt.Errorf("Scalar.Rand does not return its receiver")
		}
		b := scBytes(&s)
		return b[:], nil
	}
	var p Pt
	p.Derive([]byte("dirty"))
	if p.Rand() != &p {
		return nil, fmt.Errorf("Point.Rand does not return its receiver")
	}
	q, err := refOf((*EP)(&p))
	if err != nil {
		return nil, err
	}
	e := q.Encode()
	return e[:], nil
}

func checkDraw(scalar bool, src *source, what string) error {
	n := need(scalar)
	at := src.pos
	got, err := draw(scalar, src)
	if err != nil {
		return note(err, "%s", what)
	}
	if src.pos-at < n {
		return fmt.Errorf("%s: an element was produced from only %d of %d bytes", what, src.pos-at, n)
	}
	want := drawn(scalar, src.data[at:at+n])
	eng.State(got)
	return wantBytes(what+": element drawn from the delivered bytes", got, want)
}

const childVar = "VERIF_C16_CHILD"

// The failing scenarios run in a process of their own, because a failing
// system source makes the runtime abort.
func init() {
	a := strings.Fields(os.Getenv(childVar))
	if len(a) != 4 {
		return
	}
	num := func(i int) int { k, _ := strconv.Atoi(a[i]); return k }
	scalar := num(0) == 1
	src := &source{data: stream("fault", 256), failAt: num(1), mode: num(2)}
	if k := num(3); k > 0 {
		for i := 0; i < 64; i++ {
			src.chunks = append(src.chunks, k)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			os.Exit(7)
		}
	}()
	out, err := draw(scalar, src)
	if err != nil {
		fmt.Println("RETURNED broken", err)
	} else {
		fmt.Println("RETURNED", hex.EncodeToString(out))
	}
	os.Exit(0)
}

func name16(scalar bool) string {
	if scalar {
		return "Scalar.Rand"
	}
	return "Point.Rand"
}

func init() {
	eng.Register(eng.Space{Prop: "C16", Name: "short-reads",
		Bound: "all partitions of the delivery into at most three chunks, all constant chunk sizes, and empty reads in between, for scalars and points",
		Make: func(tier string) (uint64, func(uint64) error) {
			type c struct {
				scalar bool
				chunks []int
			}
			var cs []c
			for _, sc := range []bool{true, false} {
				n := need(sc)
				cs = append(cs, c{sc, nil})
				for a := 1; a < n; a++ {
					cs = append(cs, c{sc, []int{a}}, c{sc, []int{0, a}}, c{sc, []int{a, 0}})
					for b := 1; a+b < n; b++ {
						cs = append(cs, c{sc, []int{a, b}}, c{sc, []int{a, 0, b}})
					}
				}
				for k := 1; k < n; k++ {
					var ch, ch0 []int
					for t := 0; t < n; t += k {
						ch = append(ch, k)
						ch0 = append(ch0, 0, k)
					}
					cs = append(cs, c{sc, ch}, c{sc, ch0})
				}
			}
			data := stream("short", 256)
			return uint64(len(cs)), func(i uint64) error {
				sample("C16/short-reads", "%s with chunks %v", name16(cs[i].scalar), cs[i].chunks)
				return checkDraw(cs[i].scalar, &source{data: data, chunks: cs[i].chunks, failAt: -1}, fmt.Sprintf("%s with reads of %v bytes", name16(cs[i].scalar), cs[i].chunks))
			}
		}})
	eng.Register(eng.Space{Prop: "C16", Name: "bytes",
		Bound: "scalars: every single bit and byte of the 64 delivered bytes, multiples of the order, extremes; points: every string of the field-input alphabet",
		Make: func(tier string) (uint64, func(uint64) error) {
			var sc [][]byte
			for i := 0; i < 512; i++ {
				b := make([]byte, 64)
				b[i/8] = 1 << uint(i%8)
				c := bytes.Repeat([]byte{255}, 64)
				c[i/8] ^= 1 << uint(i%8)
				sc = append(sc, b, c)
			}
			sc = append(sc, make([]byte, 64), bytes.Repeat([]byte{255}, 64))
			for _, s := range alpha.ScMed() {
				sc = append(sc, append(append([]byte{}, s[:]...), make([]byte, 32)...), append(make([]byte, 32), s[:]...), append(append([]byte{}, s[:]...), s[:]...))
			}
			fe := alpha.FeBig()
			return uint64(len(sc) + len(fe)), func(i uint64) error {
				scalar := int(i) < len(sc)
				var d []byte
				if scalar {
					d = sc[i]
				} else {
					d = fe[int(i)-len(sc)][:]
				}
				src := &source{data: append(append([]byte{}, d...), stream("tail", 64)...), failAt: -1}
				return checkDraw(scalar, src, fmt.Sprintf("%s from %x", name16(scalar), d))
			}
		}})
	eng.Register(eng.Space{Prop: "C16", Name: "histories",
		Bound: "all sequences of at most D draws of scalars and points from one stream, with every chunk size from 1 to 64 bytes: each draw uses the next fresh bytes",
		Make: func(tier string) (uint64, func(uint64) error) {
			depth := eng.Pick(tier, 5, 7)
			n := (1 << uint(depth+1)) - 2
			data := stream("hist", 64*16)
			return eng.Prod(n, 65), func(i uint64) error {
				d := eng.Digits(i, n, 65)
				k := d[0] + 2
				var seq []bool
				for ; k > 1; k >>= 1 {
					seq = append(seq, k&1 == 1)
				}
				src := &source{data: data, failAt: -1}
				if d[1] > 0 {
					for len(src.chunks) < 64*8 {
						src.chunks = append(src.chunks, d[1])
					}
				}
				for j, scalar := range seq {
					if err := checkDraw(scalar, src, fmt.Sprintf("draw %d of %v (true: scalar) in reads of %d", j, seq, d[1])); err != nil {
						return err
					}
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C16", Name: "failures",
		Bound: "the source fails after k bytes, for every k below the needed number: plainly, together with the last bytes, with EOF, or once only; delivered in full or in chunks of 1, 7 bytes; the process must not go on with an element",
		Make: func(tier string) (uint64, func(uint64) error) {
			chunks := eng.Pick(tier, []int{0, 7}, []int{0, 1, 7, 31})
			self, err := os.Executable()
			return eng.Prod(64, 2, 4, len(chunks)), func(i uint64) error {
				if err != nil {
					return nil
				}
				d := eng.Digits(i, 64, 2, 4, len(chunks))
				scalar := d[1] == 0
				if d[0] >= need(scalar) {
					return nil
				}
				mode := d[2]
				arg := fmt.Sprintf("%d %d %d %d", map[bool]int{true: 1}[scalar], d[0], mode, chunks[d[3]])
				cmd := exec.Command(self)
				cmd.Env = append(os.Environ(), childVar+"="+arg)
				out, e := cmd.Output()
				eng.Op(1)
				eng.State([]byte(arg), out)
				if bytes.HasPrefix(out, []byte("RETURNED")) {
					return fmt.Errorf("%s returned an element although the source failed after %d bytes (mode %d, chunk size %d): %s", name16(scalar), d[0], mode, chunks[d[3]], strings.TrimSpace(string(out)))
				}
				if e == nil {
					return fmt.Errorf("%s: the process ended normally without a result (%q)", name16(scalar), out)
				}
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C16", Name: "system-source",
		Bound: "draws from the unmodified system source are pairwise distinct",
		Make: func(tier string) (uint64, func(uint64) error) {
			return 1, func(uint64) error {
				seen := map[string]bool{}
				for i := 0; i < 200; i++ {
					for _, scalar := range []bool{true, false} {
						b, err := draw(scalar, rand.Reader)
						if err != nil {
							return err
						}
						if seen[string(b)] {
							return fmt.Errorf("%s returned the same element twice", name16(scalar))
						}
						seen[string(b)] = true
					}
				}
				return nil
			}
		}})
}
