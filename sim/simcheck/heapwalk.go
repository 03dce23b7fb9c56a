package main

import (
	"container/list"
	"reflect"
	"strings"

	"github.com/teonet-go/tru"
)

// reachable counts the channels which the data structures of t refer to. It
// follows pointers, maps, slices and interfaces between values of the module
// under test and of container types; goroutine stacks and closures are not
// seen, nor is anything behind the simulator's own types.
func reachable(t *tru.Tru) int {
	chType := reflect.TypeOf(tru.Channel{})
	type key struct {
		p uintptr
		t reflect.Type
	}
	seen := map[key]bool{}
	n := 0
	own := func(t reflect.Type) bool {
		if t == reflect.TypeOf(list.List{}) || t == reflect.TypeOf(list.Element{}) {
			return true
		}
		return t.PkgPath() == "" || strings.HasPrefix(t.PkgPath(), "github.com/teonet-go/tru")
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || !own(v.Type().Elem()) {
				return
			}
			k := key{v.Pointer(), v.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
			if v.Type().Elem() == chType {
				n++
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			if !own(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Slice, reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice:
			default:
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(t))
	return n
}
