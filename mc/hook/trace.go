// Package hook is what instrumented copies of the library (generated at check
// time as build overlays) call: execution traces and scheduling points.
package hook

import "reflect"

// ---- traces of blocks and indices ----------------------------------------

// TraceOn switches recording on.
var TraceOn bool

// TraceHash and TraceLen describe the trace recorded so far.
var TraceHash, TraceLen uint64

// Rec, if not nil, also receives the events.
var Rec *[]Event

// Event is one entry of a trace: a site and the index value (blocks: 0).
type Event struct {
	Site int
	Val  int
}

// RecCap bounds recorded traces.
const RecCap = 1 << 22

// TraceStart begins a new trace.
func TraceStart(rec *[]Event) {
	TraceHash, TraceLen, Rec, TraceOn = 14695981039346656037, 0, rec, true
}

// TraceStop ends it.
func TraceStop() (uint64, uint64) { TraceOn = false; return TraceHash, TraceLen }

func ev(site, v int) {
	h := TraceHash
	h ^= uint64(site)
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h ^= uint64(v)
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	TraceHash = h
	TraceLen++
	if Rec != nil && len(*Rec) < RecCap {
		*Rec = append(*Rec, Event{site, v})
	}
}

// B is called at the start of every block.
func B(site int) {
	if TraceOn {
		ev(site, 0)
	}
}

// C is called when the right operand of && or || is evaluated.
func C(site int) bool {
	if TraceOn {
		ev(site, 1)
	}
	return true
}

// I is called with every index.
func I(site, i int) int {
	if TraceOn {
		ev(site, i)
	}
	return i
}

// AE compares arrays, structs or strings; the position of the first difference is part of the trace.
func AE(site int, a, b interface{}) bool {
	if TraceOn {
		ev(site, firstDiff(reflect.ValueOf(a), reflect.ValueOf(b)))
	}
	return a == b
}

func firstDiff(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.Array, reflect.String:
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if !reflect.DeepEqual(a.Index(i).Interface(), b.Index(i).Interface()) {
				return i
			}
		}
		return a.Len()
	case reflect.Struct:
		k := 0
		for i := 0; i < a.NumField(); i++ {
			d := firstDiff(a.Field(i), b.Field(i))
			k += d
			if n := size(a.Field(i)); d < n {
				return k
			}
		}
		return k
	}
	return 0
}

func size(a reflect.Value) int {
	switch a.Kind() {
	case reflect.Array, reflect.String:
		return a.Len()
	case reflect.Struct:
		k := 0
		for i := 0; i < a.NumField(); i++ {
			k += size(a.Field(i))
		}
		return k
	}
	return 0
}

// BE stands for bytes.Equal, BC for bytes.Compare.
func BE(site int, a, b []byte) bool { return BC(site, a, b) == 0 }

// BC stands for bytes.Compare.
func BC(site int, a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if TraceOn {
		ev(site, i)
	}
	switch {
	case i < len(a) && i < len(b):
		if a[i] < b[i] {
			return -1
		}
		return 1
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

// Sites names the instrumented places.
var Sites = map[int]string{}

// Site registers a name.
func Site(base int, names ...string) {
	for i, n := range names {
		Sites[base+i] = n
	}
}
