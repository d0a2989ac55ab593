package props

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"

	"verif/mc/eng"
	"verif/mc/hook"
)

// ---- C13: concurrent calls sharing read-only operands -----------------------

// shareWorld holds the objects that concurrent calls share, by type and domain tag.
type shareWorld struct {
	m     map[worldKey]reflect.Value
	snaps []snap
	mode  int
}

type worldKey struct {
	k   domKey
	alt bool
}

// Sharing modes: everything shared; only the first read operand shared; nothing shared.
const (
	shareAll = iota
	shareFirst
	shareNone
	shareModes
)

func newWorld(mode int) *shareWorld { return &shareWorld{m: map[worldKey]reflect.Value{}, mode: mode} }

func (w *shareWorld) get(t reflect.Type, tag byte, alt bool) reflect.Value {
	k := worldKey{domKey{t, tag}, alt}
	if v, ok := w.m[k]; ok {
		return v
	}
	d := domCache(t, tag)
	i := len(d) / 2
	if len(d) == 2 {
		i = 1
	}
	if alt {
		i = 0
	}
	v := d[i]()
	w.m[k] = v
	w.snaps = append(w.snaps, take(v))
	return v
}

// args builds the arguments of the call of a thread: destinations are private, operands shared according to the mode.
func (w *shareWorld) args(in *minst, thread int) []reflect.Value {
	al := make([]reflect.Value, len(in.args))
	reads := 0
	for i := range al {
		switch in.op.roles[i] {
		case 'r':
			alt := thread == 1 && (w.mode == shareNone || w.mode == shareFirst && reads > 0)
			reads++
			al[i] = w.get(in.args[i], in.tag(i), alt)
		case 'm':
			al[i] = domCache(in.args[i], in.tag(i))[0]()
		default:
			al[i] = zeroOf(in.args[i])
		}
	}
	return al
}

// prep returns a closure that performs the call directly (reflection synchronises through a pool) and a function
// that fetches what it returned.
func (in *minst) prep(al []reflect.Value) (func(), func() []reflect.Value) {
	f := direct[in.op.String()+"/"+in.op.typ.String()]
	if f == nil {
		panic("no direct call of " + in.op.String())
	}
	a := make([]any, len(al))
	for i, v := range al {
		a[i] = v.Interface()
	}
	var ret []any
	return func() { ret = f(a) }, func() []reflect.Value {
		var r []reflect.Value
		for i, x := range ret {
			t := in.m.Type.Out(i)
			v := reflect.New(t).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			r = append(r, v)
		}
		return r
	}
}

// soloRes is what an operation gives on its own, per sharing mode and thread.
type soloRes struct {
	al  []reflect.Value
	out string
}

type soloTab [][shareModes][2]soloRes

func c13Solo(ops []*minst) soloTab {
	t := make(soloTab, len(ops))
	for i, in := range ops {
		for m := 0; m < shareModes; m++ {
			for th := 0; th < 2; th++ {
				hook.ResetGlobals()
				al := newWorld(m).args(in, th)
				call, got := in.prep(al)
				call()
				t[i][m][th] = soloRes{al, in.outcome(al, got())}
			}
		}
	}
	return t
}

// same compares the result of a concurrent call with the one obtained alone.
func c13Same(in *minst, al, ret []reflect.Value, want soloRes) error {
	soloAl, solo := want.al, want.out
	fast := true
	for i, r := range in.op.roles {
		if r == 'r' {
			continue
		}
		if in.args[i].Kind() != reflect.Ptr || al[i].Elem().Interface() != soloAl[i].Elem().Interface() {
			fast = false
		}
	}
	if fast {
		for _, r := range ret {
			if r.Kind() != reflect.Ptr || r.Type() != in.op.typ {
				fast = false
			}
		}
	}
	if fast {
		return nil
	}
	if got := in.outcome(al, ret); got != solo {
		return fmt.Errorf("%v gave %q, alone it gives %q", in.op, cutStr(got), cutStr(solo))
	}
	return nil
}

// c13Ops leaves out the String methods of the curve types, which are for debugging.
func c13Ops() []*minst {
	var r []*minst
	for _, in := range allInst() {
		r = append(r, in)
	}
	return r
}

func c13Heavy(in *minst) bool {
	return strings.Contains(in.op.name, "ScalarMult") || in.op.name == "Compute" || in.op.name == "Inverse" ||
		strings.Contains(in.op.name, "Lizard") || strings.Contains(in.op.name, "Elligator2Inverse")
}

//go:norace
func spinUntil(p *int, v int) {
	for k := 0; *p < v; k++ {
		runtime.Gosched()
	}
}

//go:norace
func setTo(p *int, v int) { *p = v }

// unorderedPanics runs the calls one after the other in real time, in two goroutines without a happens-before edge
// between them.
func unorderedPanics(call [2]func()) (pan [2]any) {
	var turn int
	var wg [2]chan struct{}
	for k := range call {
		wg[k] = make(chan struct{})
		go func(k int) {
			defer close(wg[k])
			defer func() {
				if pan[k] = recover(); pan[k] != nil {
					setTo(&turn, 2)
				}
			}()
			spinUntil(&turn, k)
			call[k]()
			setTo(&turn, k+1)
			spinUntil(&turn, 2)
		}(k)
	}
	for k := range call {
		<-wg[k]
	}
	return pan
}

func unordered(call [2]func()) error {
	for k, p := range unorderedPanics(call) {
		if p != nil {
			return fmt.Errorf("call %d panics: %v", k, p)
		}
	}
	return nil
}

func needInstrumented() {
	if hook.NumGlobals() == 0 {
		fmt.Fprintln(os.Stderr, "not an instrumented build")
		os.Exit(4)
	}
}

func init() {
	eng.Register(eng.Space{Prop: "C13", Name: "conflicts", Configs: []string{"race", "race-generic"},
		Bound: "every unordered pair of exported operations (132 x 132), both called concurrently on distinct destinations with all, one or none of the operands, tables and buffers shared, package variables reset to their initial state (first use), in both orders: the happens-before analysis of the race detector must find no conflicting accesses (then all interleavings of the pair are equivalent to the executed ones), and results equal those obtained alone",
		Make: func(tier string) (uint64, func(uint64) error) {
			needInstrumented()
			ops := c13Ops()
			n := len(ops)
			type pair struct{ a, b int }
			var ps []pair
			for a := 0; a < n; a++ {
				for b := a; b < n; b++ {
					ps = append(ps, pair{a, b})
				}
			}
			solo := c13Solo(ops)
			return uint64(2 * shareModes * len(ps)), func(i uint64) error {
				d := eng.Digits(i, 2, shareModes, len(ps))
				p, mode := ps[d[2]], d[1]
				ia, ib := p.a, p.b
				if d[0] == 1 {
					ia, ib = ib, ia
				}
				sample("C13/conflicts", "%v || %v", ops[ia].op, ops[ib].op)
				w := newWorld(mode)
				idx := []int{ia, ib}
				var al [2][]reflect.Value
				var call [2]func()
				var ret [2]func() []reflect.Value
				for k := range idx {
					al[k] = w.args(ops[idx[k]], k)
					call[k], ret[k] = ops[idx[k]].prep(al[k])
				}
				hook.ResetGlobals()
				eng.Op(2)
				pan := unorderedPanics(call)
				for k := range idx {
					if pan[k] != nil {
						return fmt.Errorf("%v concurrent with %v panics: %v", ops[idx[k]].op, ops[idx[1-k]].op, pan[k])
					}
					if err := c13Same(ops[idx[k]], al[k], ret[k](), solo[idx[k]][mode][k]); err != nil {
						return fmt.Errorf("concurrent with %v: %w", ops[idx[1-k]].op, err)
					}
				}
				for _, s := range w.snaps {
					if s.changed() {
						return fmt.Errorf("%v || %v: a shared operand of type %v was modified", ops[ia].op, ops[ib].op, s.v.Type())
					}
				}
				eng.State([]byte(fmt.Sprint(i)))
				return nil
			}
		}})

	sched := func(name, bound string, cases func(tier string, ops []*minst) [][2]int, explore func(tier string, run func(first int, plan []hook.Preempt) (hook.Result, error), a, b *minst) error) {
		eng.Register(eng.Space{Prop: "C13", Name: name, Configs: []string{"sched", "sched-generic"}, Bound: bound,
			Make: func(tier string) (uint64, func(uint64) error) {
				needInstrumented()
				ops := c13Ops()
				solo := c13Solo(ops)
				cs := cases(tier, ops)
				return uint64(shareModes * len(cs)), func(i uint64) error {
					mode := int(i % shareModes)
					ia, ib := cs[i/shareModes][0], cs[i/shareModes][1]
					a, b := ops[ia], ops[ib]
					w := newWorld(mode)
					one := func(in *minst, ix, th int) error {
						al := w.args(in, th)
						call, ret := in.prep(al)
						call()
						return c13Same(in, al, ret(), solo[ix][mode][th])
					}
					// warm prepares the state of the package: initial, or after the calls of the given threads
					warm := func(k int) error {
						hook.ResetGlobals()
						if k&1 != 0 {
							if err := one(a, ia, 0); err != nil {
								return err
							}
						}
						if k&2 != 0 {
							if err := one(b, ib, 1); err != nil {
								return err
							}
						}
						return nil
					}
					if err := warm(3); err != nil {
						return fmt.Errorf("%v then %v sequentially: %w", a.op, b.op, err)
					}
					warms := []int{0}
					if hook.GlobalsChanged() {
						warms = []int{0, 1, 2, 3}
					}
					for _, wm := range warms {
						run := func(first int, plan []hook.Preempt) (hook.Result, error) {
							where := func(err error) error {
								return fmt.Errorf("threads 0: %v, 1: %v; sharing mode %d, prior calls %d, start thread %d, preemptions %v: %w", a.op, b.op, mode, wm, first, plan, err)
							}
							if err := warm(wm); err != nil {
								return hook.Result{}, where(err)
							}
							ala, alb := w.args(a, 0), w.args(b, 1)
							ca, ra := a.prep(ala)
							cb, rb := b.prep(alb)
							eng.Op(2)
							res := hook.Run(first, plan, ca, cb)
							if res.Deadlock {
								return res, where(fmt.Errorf("deadlock"))
							}
							for k, p := range res.Panics {
								if p != nil {
									return res, where(fmt.Errorf("thread %d panics: %v", k, p))
								}
							}
							if err := c13Same(a, ala, ra(), solo[ia][mode][0]); err != nil {
								return res, where(err)
							}
							if err := c13Same(b, alb, rb(), solo[ib][mode][1]); err != nil {
								return res, where(err)
							}
							if hook.GlobalsChanged() { // later calls must not suffer
								if err := one(a, ia, 0); err != nil {
									return res, where(fmt.Errorf("afterwards %w", err))
								}
								if err := one(b, ib, 1); err != nil {
									return res, where(fmt.Errorf("afterwards %w", err))
								}
								if err := one(a, ia, 0); err != nil {
									return res, where(fmt.Errorf("afterwards %w", err))
								}
							}
							return res, nil
						}
						if err := explore(tier, run, a, b); err != nil {
							return err
						}
					}
					for _, s := range w.snaps {
						if s.changed() {
							return fmt.Errorf("%v || %v: a shared operand of type %v was modified", a.op, b.op, s.v.Type())
						}
					}
					sample("C13/"+name, "%v || %v", a.op, b.op)
					eng.State([]byte(fmt.Sprint(name, i)))
					return nil
				}
			}})
	}
	// positions selects the points at which thread k is preempted: all of them if there are few, else the first
	// occ occurrences and the last one of every site.
	positions := func(sites []int, all, occ int) []int {
		var r []int
		if len(sites) <= all {
			for i := range sites {
				r = append(r, i+1)
			}
			return r
		}
		last, cnt := map[int]int{}, map[int]int{}
		for i, s := range sites {
			last[s] = i
		}
		for i, s := range sites {
			cnt[s]++
			if cnt[s] <= occ || last[s] == i {
				r = append(r, i+1)
			}
		}
		return r
	}
	base := func(run func(int, []hook.Preempt) (hook.Result, error), all, occ int) (pos [2][]int, err error) {
		for first := 0; first < 2; first++ {
			hook.RecordSites = true
			res, err := run(first, nil)
			hook.RecordSites = false
			if err != nil {
				return pos, err
			}
			pos[first] = positions(res.Sites[first], all, occ)
		}
		return pos, nil
	}
	sched("one-preemption",
		"every unordered pair of operations sharing all, one or none of their read operands, under the controlled scheduler, from the initial package state (and, if the calls leave traces in package variables, from the states after either or both): every schedule with at most one preemption, where threads can be preempted at every function entry and at every statement of functions that touch package variables or synchronisation; a call that passes more than 60 (thorough: 4000) such points is preempted at the first two (thorough: eight) and the last occurrence of every program location instead of all",
		func(tier string, ops []*minst) [][2]int {
			var r [][2]int
			for a := range ops {
				for b := a; b < len(ops); b++ {
					// quick: two expensive calls only if they are the same operation
					if eng.Full(tier) || a == b || !(c13Heavy(ops[a]) && c13Heavy(ops[b])) {
						r = append(r, [2]int{a, b})
					}
				}
			}
			return r
		}, func(tier string, run func(int, []hook.Preempt) (hook.Result, error), a, b *minst) error {
			all, occ := eng.Pick(tier, 60, 4000), eng.Pick(tier, 2, 8)
			if eng.Full(tier) && (c13Heavy(a) || c13Heavy(b)) {
				all = 60
			}
			if !eng.Full(tier) && a != b && (c13Heavy(a) || c13Heavy(b)) {
				all, occ = 0, 1
			}
			pos, err := base(run, all, occ)
			if err != nil {
				return err
			}
			for first := 0; first < 2; first++ {
				for _, k := range pos[first] {
					if _, err := run(first, []hook.Preempt{{Thread: first, Point: k, To: 1 - first}}); err != nil {
						return err
					}
				}
			}
			return nil
		})
	sched("two-preemptions",
		"every operation concurrently with itself and with its neighbour of the same type, exactly two preemptions, at every pair of positions (all points when a call passes at most 30, thorough: 200; otherwise the first, thorough: the first three, and last occurrence of every location), limited to the first 60 x 60 positions (thorough: 400 x 400)",
		func(tier string, ops []*minst) [][2]int {
			var r [][2]int
			for a := range ops {
				r = append(r, [2]int{a, a})
				if a+1 < len(ops) && ops[a].op.typ == ops[a+1].op.typ {
					r = append(r, [2]int{a, a + 1})
				}
			}
			return r
		},
		func(tier string, run func(int, []hook.Preempt) (hook.Result, error), a, b *minst) error {
			pos, err := base(run, eng.Pick(tier, 30, 200), eng.Pick(tier, 1, 3))
			if err != nil {
				return err
			}
			lim := eng.Pick(tier, 60, 400)
			if c13Heavy(a) || c13Heavy(b) {
				lim = eng.Pick(tier, 20, 100)
			}
			for k := range pos {
				if len(pos[k]) > lim {
					pos[k] = pos[k][:lim]
				}
			}
			for first := 0; first < 2; first++ {
				for _, k := range pos[first] {
					for _, j := range pos[1-first] {
						if _, err := run(first, []hook.Preempt{{Thread: first, Point: k, To: 1 - first}, {Thread: 1 - first, Point: j, To: first}}); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
}
