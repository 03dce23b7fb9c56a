package simrt

import (
	"reflect"
	"unsafe"
)

// Package-level variables of the code under test: every simulated process has
// its own. The generated part of each rewritten package registers them.

type globalVar struct {
	name  string
	ptr   unsafe.Pointer
	size  uintptr
	typ   reflect.Type
	words []bool // which words are pointers
}

var (
	globalVars  []globalVar
	globalInits []func()
)

// RegGlobal registers a package-level variable.
func RegGlobal[T any](name string, p *T) { regGlobal(name, unsafe.Pointer(p), reflect.TypeFor[T]()) }

func regGlobal(name string, p unsafe.Pointer, t reflect.Type) {
	g := globalVar{name, p, t.Size(), t, make([]bool, t.Size()/8)}
	pointerWords(t, 0, g.words)
	globalVars = append(globalVars, g)
}

// pointerWords marks the words of a variable of type t that hold pointers.
func pointerWords(t reflect.Type, off uintptr, w []bool) {
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.String, reflect.Slice:
		w[off/8] = true
	case reflect.Interface:
		w[off/8], w[off/8+1] = true, true
	case reflect.Struct:
		for i := range t.NumField() {
			pointerWords(t.Field(i).Type, off+t.Field(i).Offset, w)
		}
	case reflect.Array:
		for i := range t.Len() {
			pointerWords(t.Elem(), off+uintptr(i)*t.Elem().Size(), w)
		}
	}
}

// copy copies a value of the variable's type; not by typed assignment because
// the race detector would see it.
func (g *globalVar) copy(dst, src unsafe.Pointer) {
	for i, p := range g.words {
		d, s := unsafe.Add(dst, i*8), unsafe.Add(src, i*8)
		if p {
			*(*unsafe.Pointer)(d) = *(*unsafe.Pointer)(s)
		} else {
			*(*uint64)(d) = *(*uint64)(s)
		}
	}
	for i := uintptr(len(g.words)) * 8; i < g.size; i++ {
		*(*byte)(unsafe.Add(dst, i)) = *(*byte)(unsafe.Add(src, i))
	}
}

// RegInit registers the function that gives the package-level variables of a
// package their initial values again (registered in dependency order).
func RegInit(f func()) { globalInits = append(globalInits, f) }

// saveGlobals saves the variables in a, which is allocated if it is nil.
func saveGlobals(a []unsafe.Pointer) []unsafe.Pointer {
	if a == nil {
		a = make([]unsafe.Pointer, len(globalVars))
		for i := range globalVars {
			a[i] = reflect.New(globalVars[i].typ).UnsafePointer()
		}
	}
	for i := range globalVars {
		globalVars[i].copy(a[i], globalVars[i].ptr)
	}
	return a
}

func loadGlobals(a []unsafe.Pointer) {
	for i := range globalVars {
		globalVars[i].copy(globalVars[i].ptr, a[i])
	}
}

// GlobalAt names the package-level variable at an address.
func GlobalAt(a uint64) string {
	for _, g := range globalVars {
		if p := uint64(uintptr(g.ptr)); a >= p && a < p+uint64(g.size) {
			return g.name
		}
	}
	return ""
}

func initGlobals() {
	for _, f := range globalInits {
		f()
	}
}
