package props

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"verif/mc/eng"
	"verif/mc/hook"
)

// ---- C15: traces do not depend on secrets ---------------------------------

// varTime are the operations documented as not constant-time.
func varTime(o mop) bool {
	if o.name == "UnmarshalText" {
		return true // which characters a text consists of is public; what it decodes to is covered by SetBytes
	}
	if strings.Contains(o.name, "Public") || strings.Contains(o.name, "VarTime") || strings.Contains(o.name, "BigInt") {
		return true
	}
	return o.name == "String" && o.typ != tPt && o.typ != tSc
}

func c15Ops() []*minst {
	var r []*minst
	for _, in := range allInst() {
		if !varTime(in.op) {
			r = append(r, in)
		}
	}
	return r
}

// publicOutcome renders the returned flags and errors and the lengths of byte strings.
func publicOutcome(al, ret []reflect.Value) string {
	var sb strings.Builder
	for _, v := range al {
		if b, ok := v.Interface().(*[]byte); ok {
			fmt.Fprintf(&sb, "len %d; ", len(*b))
		}
	}
	for _, v := range ret {
		switch v.Kind() {
		case reflect.Bool, reflect.Int, reflect.Int32, reflect.Uint8:
			fmt.Fprintf(&sb, "%v; ", v.Interface())
		case reflect.Interface:
			if v.IsNil() {
				sb.WriteString("ok; ")
			} else {
				fmt.Fprintf(&sb, "%v; ", v.Interface())
			}
		case reflect.Slice:
			fmt.Fprintf(&sb, "nil=%v len=%d; ", v.IsNil(), v.Len())
		}
	}
	return sb.String()
}

func describe(in *minst, t []int) string {
	var sb strings.Builder
	for i, v := range richAlloc(in, t) {
		if in.op.roles[i] == 'w' {
			continue
		}
		s := ""
		if in.args[i] == tTab || in.args[i] == tET {
			s = fmt.Sprintf("table %d", t[i])
		} else if b, ok := v.Interface().(*[]byte); ok {
			s = fmt.Sprintf("%x", *b)
		} else if !in.ptr[i] {
			s = fmt.Sprint(v.Elem().Interface())
		} else {
			s = obs(v)
		}
		fmt.Fprintf(&sb, "arg%d=%s ", i, cutStr(s))
	}
	return sb.String()
}

func init() {
	eng.Register(eng.Space{Prop: "C15", Name: "noninterference",
		Bound: "for every exported operation not documented as variable-time: all tuples of a product of secret alphabets (representatives of group elements, scalars, field elements in several limb forms, byte strings), executed in a build whose blocks, short-circuit operands, variable indices and aggregate comparisons are recorded; all executions with the same lengths and the same returned flags must have the same trace",
		Make: func(tier string) (uint64, func(uint64) error) {
			ops := c15Ops()
			limit := eng.Pick(tier, 1500, 20000)
			if hook.NumGlobals() == 0 {
				fmt.Fprintln(os.Stderr, "not an instrumented build")
				os.Exit(4)
			}
			return uint64(len(ops)), func(i uint64) error {
				in := ops[i]
				type first struct {
					h, n uint64
					t    []int
				}
				groups := map[string]first{}
				exec := func(t []int, rec *[]hook.Event) (string, uint64, uint64) {
					al := richAlloc(in, t)
					a := make([]reflect.Value, len(al))
					for i, v := range al {
						if in.ptr[i] {
							a[i] = v
						} else {
							a[i] = v.Elem()
						}
					}
					eng.Op(1)
					hook.TraceStart(rec)
					ret := in.m.Func.Call(a)
					h, n := hook.TraceStop()
					return publicOutcome(al, ret), h, n
				}
				// the first call may initialise something lazily, which depends on no secret
				all := tuples(in, limit)
				exec(all[0], nil)
				for _, t := range all {
					k, h, n := exec(t, nil)
					if n == 0 {
						fmt.Fprintln(os.Stderr, "empty trace of", in.op)
						os.Exit(4)
					}
					eng.State([]byte(in.op.String()), []byte(k), []byte(fmt.Sprint(h)))
					f, ok := groups[k]
					if !ok {
						groups[k] = first{h, n, t}
						sample("C15/"+in.op.String(), "%d tuples, trace of %d events, outcome %q", len(all), n, k)
						continue
					}
					if f.h != h || f.n != n {
						var r1, r2 []hook.Event
						exec(f.t, &r1)
						exec(t, &r2)
						d := 0
						for d < len(r1) && d < len(r2) && r1[d] == r2[d] {
							d++
						}
						if d == len(r1) && d == len(r2) {
							// the first of the two did one-time work; compare the later ones with this execution
							groups[k] = first{h, n, t}
							continue
						}
						at := func(r []hook.Event) string {
							if d >= len(r) {
								return "end"
							}
							return fmt.Sprintf("%s value %d", hook.Sites[r[d].Site], r[d].Val)
						}
						return fmt.Errorf("%v: two executions with the same public outcome %q take different paths: at step %d one is at [%s], the other at [%s]; inputs: %s / %s",
							in.op, k, d, at(r1), at(r2), describe(in, f.t), describe(in, t))
					}
				}
				return nil
			}
		}})
}
