package hook

import (
	"bytes"
	"reflect"
	"unsafe"
)

type global struct {
	pkg  string
	v    reflect.Value // pointer to the variable
	init reflect.Value
}

var globals []global

// Globals registers the package-level variables of a package, after its initialisation.
func Globals(pkg string, ptrs ...interface{}) {
	for _, p := range ptrs {
		v := reflect.ValueOf(p)
		c := reflect.New(v.Elem().Type())
		c.Elem().Set(v.Elem())
		globals = append(globals, global{pkg, v, c})
	}
}

// NumGlobals is the number of registered variables.
func NumGlobals() int { return len(globals) }

// ResetGlobals restores every package-level variable to its content after
// initialisation, so that the next call is a first call.
func ResetGlobals() {
	for _, g := range globals {
		g.v.Elem().Set(g.init.Elem())
	}
}

func raw(v reflect.Value) []byte {
	n := int(v.Elem().Type().Size())
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), n)
}

// GlobalsChanged tells whether a package-level variable differs, bit by bit, from its content after initialisation.
func GlobalsChanged() bool {
	for _, g := range globals {
		if !bytes.Equal(raw(g.v), raw(g.init)) {
			return true
		}
	}
	return false
}
