package mcs

import (
	"reflect"
	"strings"
	"unsafe"
)

// Module is the path of the module under test.
var Module = ""

var vars []any

// Register makes package variables part of the state that Restore resets.
func Register(module string, ptrs ...any) {
	Module = module
	vars = append(vars, ptrs...)
}

type saved struct {
	dst reflect.Value // addressable
	val reflect.Value
	m   map[any]reflect.Value
}

var snaps []saved

// Checkpoint remembers the current value of every registered variable.
func Checkpoint() {
	snaps = nil
	seen := map[uintptr]bool{}
	for _, p := range vars {
		snap(reflect.ValueOf(p).Elem(), seen, 0)
	}
}

// Restore brings every registered variable back to the checkpoint.
func Restore() {
	for _, s := range snaps {
		if s.m == nil {
			s.dst.Set(s.val)
			continue
		}
		// s.dst is a map
		s.dst.Clear()
		for k, v := range s.m {
			s.dst.SetMapIndex(reflect.ValueOf(k), v)
		}
	}
}

func own(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" || strings.HasPrefix(p, Module)
}

func writable(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// snap records v, which is addressable, and what it leads to.
func snap(v reflect.Value, seen map[uintptr]bool, depth int) {
	v = writable(v)
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	snaps = append(snaps, saved{dst: v, val: c})
	follow(v, seen, depth)
}

func follow(v reflect.Value, seen map[uintptr]bool, depth int) {
	if depth > 8 || !own(v.Type()) {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			follow(writable(v.Field(i)), seen, depth+1)
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len() && i < 256; i++ {
			follow(writable(v.Index(i)), seen, depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() || !own(v.Type().Elem()) || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		snap(v.Elem(), seen, depth+1)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || seen[v.Pointer()] || v.Cap() > 1<<20 {
			return
		}
		seen[v.Pointer()] = true
		full := v.Slice3(0, v.Cap(), v.Cap())
		if flat(v.Type().Elem()) {
			c := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			reflect.Copy(c, full)
			snaps = append(snaps, saved{dst: arrayOf(full), val: arrayOf(c)})
			return
		}
		for i := 0; i < full.Len() && i < 256; i++ {
			snap(full.Index(i), seen, depth+1)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		m := map[any]reflect.Value{}
		it := v.MapRange()
		for it.Next() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(it.Value())
			m[it.Key().Interface()] = c
		}
		keep := reflect.New(v.Type()).Elem()
		keep.Set(v)
		snaps = append(snaps, saved{dst: keep, m: m})
	}
}

// arrayOf views a slice as an addressable array.
func arrayOf(s reflect.Value) reflect.Value {
	return reflect.NewAt(reflect.ArrayOf(s.Len(), s.Type().Elem()), s.UnsafePointer()).Elem()
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.String:
		return false
	case reflect.Array:
		return flat(t.Elem())
	}
	return true
}
