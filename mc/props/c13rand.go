package props

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"reflect"

	"verif/mc/eng"
	"verif/mc/hook"
)

// ---- C13: concurrent generation of random elements ---------------------------

// seqSource hands consecutive bytes of a fixed stream to whoever reads, without synchronising the readers
// (which would hide conflicts elsewhere).
type seqSource struct {
	data []byte
	pos  int
	log  [][2]int
}

//go:norace
func (s *seqSource) take(n int) int {
	o := s.pos
	s.pos += n
	s.log = append(s.log, [2]int{o, n})
	return o
}

func (s *seqSource) Read(p []byte) (int, error) {
	o := s.take(len(p))
	copy(p, s.data[o:])
	return len(p), nil
}

// gen is a Rand call as a thread body.
type gen struct {
	scalar bool
	p      Pt
	s      Sc
}

func (g *gen) run() {
	if g.scalar {
		g.s.Rand()
	} else {
		g.p.Rand()
	}
}

func (g *gen) bytes() []byte {
	if g.scalar {
		return g.s.Bytes()
	}
	return g.p.Bytes()
}

func (g *gen) String() string {
	if g.scalar {
		return "Scalar.Rand"
	}
	return "Point.Rand"
}

// c13Drawn checks that the generators used separate bytes of the stream in full, in some order.
func c13Drawn(src *seqSource, gs ...*gen) error {
	total := 0
	for _, g := range gs {
		total += need(g.scalar)
	}
	// all splits of the consumed prefix into consecutive blocks, in either order
	orders := [][]int{{0}}
	if len(gs) == 2 {
		orders = [][]int{{0, 1}, {1, 0}}
	}
	for _, o := range orders {
		ok, off := true, 0
		for _, k := range o {
			n := need(gs[k].scalar)
			if !bytes.Equal(gs[k].bytes(), drawn(gs[k].scalar, src.data[off:off+n])) {
				ok = false
				break
			}
			off += n
		}
		if ok {
			return nil
		}
	}
	return fmt.Errorf("%v: the results do not come from separate bytes of the source (reads: %v)", gs, src.log)
}

func withSource(src io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = src
	defer func() { rand.Reader = old }()
	f()
}

func init() {
	data := stream("c13", 4096)
	newSrc := func() *seqSource { return &seqSource{data: data, log: make([][2]int, 0, 64)} }
	eng.Register(eng.Space{Prop: "C13", Name: "random-conflicts", Configs: []string{"race", "race-generic"},
		Bound: "generation of a random point or scalar concurrently with generation of another and with every exported operation, in both orders, from the initial package state: no conflicting accesses, results separate and as prescribed",
		Make: func(tier string) (uint64, func(uint64) error) {
			needInstrumented()
			ops := c13Ops()
			solo := c13Solo(ops)
			n := len(ops) + 2
			return eng.Prod(2, 2, n), func(i uint64) error {
				d := eng.Digits(i, 2, 2, n)
				src := newSrc()
				g := &gen{scalar: d[0] == 1}
				gs := []*gen{g}
				w := newWorld(shareAll)
				var body, check = func() {}, func() error { return nil }
				name := ""
				if d[2] < 2 {
					h := &gen{scalar: d[2] == 1}
					gs = append(gs, h)
					body, name = h.run, h.String()
				} else {
					in := ops[d[2]-2]
					al := w.args(in, 0)
					call, ret := in.prep(al)
					body, name = call, in.op.String()
					check = func() error { return c13Same(in, al, ret(), solo[d[2]-2][shareAll][0]) }
				}
				calls := [2]func(){g.run, body}
				if d[1] == 1 {
					calls[0], calls[1] = calls[1], calls[0]
				}
				hook.ResetGlobals()
				eng.Op(2)
				sample("C13/random-conflicts", "%v || %s", g, name)
				var err error
				withSource(src, func() { err = unordered(calls) })
				if err != nil {
					return fmt.Errorf("%v || %s: %w", g, name, err)
				}
				if err := c13Drawn(src, gs...); err != nil {
					return err
				}
				if err := check(); err != nil {
					return fmt.Errorf("concurrent with %v: %w", g, err)
				}
				eng.State([]byte(fmt.Sprint("rc", i)))
				return nil
			}
		}})
	eng.Register(eng.Space{Prop: "C13", Name: "random-schedules", Configs: []string{"sched", "sched-generic"},
		Bound: "two concurrent generations of random elements (points, scalars) under the controlled scheduler: every schedule with at most two preemptions at the scheduling points; and one generation with every exported operation, every schedule with one preemption of the generation",
		Make: func(tier string) (uint64, func(uint64) error) {
			needInstrumented()
			ops := c13Ops()
			solo := c13Solo(ops)
			n := len(ops) + 2
			return eng.Prod(2, n), func(i uint64) error {
				d := eng.Digits(i, 2, n)
				run := func(first int, plan []hook.Preempt) (hook.Result, error) {
					src := newSrc()
					g := &gen{scalar: d[0] == 1}
					gs := []*gen{g}
					w := newWorld(shareAll)
					check := func() error { return nil }
					var body func()
					var name string
					if d[1] < 2 {
						h := &gen{scalar: d[1] == 1}
						gs = append(gs, h)
						body, name = h.run, h.String()
					} else {
						in := ops[d[1]-2]
						var al []reflect.Value = w.args(in, 0)
						call, ret := in.prep(al)
						body, name = call, in.op.String()
						check = func() error { return c13Same(in, al, ret(), solo[d[1]-2][shareAll][0]) }
					}
					where := func(err error) error {
						return fmt.Errorf("threads 0: %v, 1: %s; start thread %d, preemptions %v: %w", g, name, first, plan, err)
					}
					hook.ResetGlobals()
					eng.Op(2)
					var res hook.Result
					withSource(src, func() { res = hook.Run(first, plan, g.run, body) })
					if res.Deadlock {
						return res, where(fmt.Errorf("deadlock"))
					}
					for k, p := range res.Panics {
						if p != nil {
							return res, where(fmt.Errorf("thread %d panics: %v", k, p))
						}
					}
					if err := c13Drawn(src, gs...); err != nil {
						return res, where(err)
					}
					if err := check(); err != nil {
						return res, where(err)
					}
					return res, nil
				}
				var pts [2]int
				for first := 0; first < 2; first++ {
					res, err := run(first, nil)
					if err != nil {
						return err
					}
					pts[first] = res.Points[first]
				}
				lim := eng.Pick(tier, 40, 400)
				for k := range pts {
					if pts[k] > lim {
						pts[k] = lim
					}
				}
				for first := 0; first < 2; first++ {
					if first == 1 && d[1] >= 2 {
						break
					}
					for k := 1; k <= pts[first]; k++ {
						if _, err := run(first, []hook.Preempt{{Thread: first, Point: k, To: 1 - first}}); err != nil {
							return err
						}
						if d[1] >= 2 {
							continue
						}
						for j := 1; j <= pts[1-first]; j++ {
							if _, err := run(first, []hook.Preempt{{Thread: first, Point: k, To: 1 - first}, {Thread: 1 - first, Point: j, To: first}}); err != nil {
								return err
							}
						}
					}
				}
				sample("C13/random-schedules", "case %d", i)
				eng.State([]byte(fmt.Sprint("rs", i)))
				return nil
			}
		}})
}
