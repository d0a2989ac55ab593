// Package eng is the explorer: every property is a set of finite, indexed
// spaces of executions; a run enumerates a space completely (no sampling) and
// evaluates the property on every element.  An element is identified by
// (configuration, space, index), which is also its replay.
package eng

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
)

// Space is a finite space of executions.
type Space struct {
	Prop string
	Name string
	// Bound says in words what is enumerated completely.
	Bound string
	// Make builds the space for a tier: its size and the execution of element i.
	Make func(tier string) (uint64, func(i uint64) error)
	// Configs restricts the space to the named configurations (nil: all).
	Configs []string
	// OnDemand names configurations that run the space only when asked for by name.
	OnDemand []string
}

var all []Space

// Child functions run instead of an exploration, in processes started by one.
var Child = map[string]func(args []string){}

// Late functions register spaces that are derived from others.
var Late []func()

func late() {
	l := Late
	Late = nil
	for _, f := range l {
		f()
	}
}

// All returns every registered space of a property.
func All(prop string) []Space {
	var r []Space
	for _, s := range all {
		if s.Prop == prop {
			r = append(r, s)
		}
	}
	return r
}

// Register adds a space.
func Register(s Space) { all = append(all, s) }

// Spaces returns the spaces of a property for a configuration, in order.
func Spaces(prop, config string) []Space {
	late()
	var r []Space
	for _, s := range all {
		if s.Prop != prop {
			continue
		}
		ok := len(s.Configs) == 0
		for _, c := range s.Configs {
			ok = ok || c == config
		}
		if ok {
			r = append(r, s)
		}
	}
	return r
}

// Props lists all properties that have spaces.
func Props() []string {
	late()
	m := map[string]bool{}
	var r []string
	for _, s := range all {
		if !m[s.Prop] {
			m[s.Prop] = true
			r = append(r, s.Prop)
		}
	}
	sort.Strings(r)
	return r
}

// Transitions counts calls into the implementation.
var Transitions uint64

// Op counts n operations of the implementation.
func Op(n int) { Transitions += uint64(n) }

const stateCap = 1 << 21

var states = map[uint64]struct{}{}

// StatesCapped tells whether the state set stopped growing.
var StatesCapped bool

// State records an observed state by hash of b.
func State(b ...[]byte) {
	if len(states) >= stateCap {
		StatesCapped = true
		return
	}
	h := fnv.New64a()
	for _, x := range b {
		h.Write(x)
	}
	states[h.Sum64()] = struct{}{}
}

// StateBytes returns the recorded state hashes.
func StateBytes() []byte {
	r := make([]byte, 0, 8*len(states))
	for k := range states {
		r = binary.LittleEndian.AppendUint64(r, k)
	}
	return r
}

// Finding is a violation with a stable key; the driver looks the key up in the
// committed list of known findings.  Anything not listed there is a violation.
type Finding struct{ Key, Msg string }

func (f *Finding) Error() string { return f.Key + ": " + f.Msg }

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// Digits decomposes i in mixed radix, least significant first.
func Digits(i uint64, radix ...int) []int {
	r := make([]int, len(radix))
	for k, n := range radix {
		r[k] = int(i % uint64(n))
		i /= uint64(n)
	}
	return r
}

// Prod multiplies sizes.
func Prod(ns ...int) uint64 {
	r := uint64(1)
	for _, n := range ns {
		r *= uint64(n)
	}
	return r
}

// Pick returns q for the quick tier and t for the thorough one.
func Pick[T any](tier string, q, t T) T {
	if Full(tier) {
		return t
	}
	return q
}

// Full tells whether the larger bounds apply.  The tier "deep" has the bounds of
// "thorough", with the ranges that N bounds eight times as long: it is what the
// thorough command runs for properties whose quick command already affords the
// bounds of "thorough".
func Full(tier string) bool { return tier == "thorough" || tier == "deep" }

// N is Pick for the length of a range.
func N[T int | int64](tier string, q, t T) T {
	if tier == "deep" {
		return 8 * t
	}
	return Pick(tier, q, t)
}

// Outcomes of cases that are compared between configurations by the driver:
// digest per case of the current space, and the text when a single case runs.
var (
	Digests  []uint64 // flat: index, digest
	KeepText bool
	LastText string
)

// Outcome records what case i of the current space gave in this configuration.
func Outcome(i uint64, text string, detail func() string) {
	h := fnv.New64a()
	h.Write([]byte(text))
	Digests = append(Digests, i, h.Sum64())
	if KeepText {
		LastText = detail()
	}
}

// Config and Tier describe the running configuration.
var Config, Tier string

// Samples are a few executed cases written out for the evidence.
var Samples []string
var sampleCount = map[string]int{}

// Sample keeps the first two cases of each space.
func Sample(space, format string, a ...any) {
	if sampleCount[space] < 2 {
		sampleCount[space]++
		Samples = append(Samples, space+": "+fmt.Sprintf(format, a...))
	}
}
