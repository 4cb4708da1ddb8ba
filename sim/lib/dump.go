package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

// Dump renders a value completely: exported and unexported fields, nil and
// empty told apart, maps in key order, pointers followed. Functions and
// channels are opaque.
func Dump(v interface{}) string {
	var d dumper
	d.val(reflect.ValueOf(v), 0)
	return d.b.String()
}

// DumpSpare also renders the spare capacity of slices.
func DumpSpare(v interface{}) string {
	d := dumper{spare: true}
	d.val(reflect.ValueOf(v), 0)
	return d.b.String()
}

type dumper struct {
	b     strings.Builder
	spare bool
	path  []uintptr
}

func (d *dumper) val(v reflect.Value, depth int) {
	if depth > 60 {
		d.b.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		d.b.WriteString("nil")
	case reflect.Bool:
		fmt.Fprint(&d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.b, v.Float())
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.b.WriteString("nil-" + v.Kind().String())
		} else {
			d.b.WriteString(v.Kind().String())
		}
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		e := v.Elem()
		if e.Kind() != reflect.Ptr {
			d.b.WriteString(e.Type().String() + ":")
		}
		d.val(e, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Pointer()
		for _, q := range d.path {
			if p == q {
				d.b.WriteString("<cycle>")
				return
			}
		}
		d.path = append(d.path, p)
		d.b.WriteByte('&')
		d.val(v.Elem(), depth+1)
		d.path = d.path[:len(d.path)-1]
	case reflect.Struct:
		t := v.Type()
		d.b.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				d.b.WriteString(" ")
			}
			d.b.WriteString(t.Field(i).Name + ":")
			d.val(v.Field(i), depth+1)
		}
		d.b.WriteByte('}')
	case reflect.Array:
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteByte(' ')
			}
			d.val(v.Index(i), depth+1)
		}
		d.b.WriteByte(']')
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil[]")
			return
		}
		n := v.Len()
		full := v
		if d.spare && v.Cap() > n {
			full = v.Slice(0, v.Cap())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			d.b.WriteString("b" + strconv.Quote(string(bytesOf(v))))
			if d.spare && v.Cap() > n {
				d.b.WriteString("+" + strconv.Quote(string(bytesOf(full)[n:])))
			}
			return
		}
		d.b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				d.b.WriteByte(' ')
			}
			d.val(v.Index(i), depth+1)
		}
		d.b.WriteByte(']')
		if d.spare && v.Cap() > n {
			d.b.WriteString("+[")
			for i := n; i < v.Cap(); i++ {
				d.b.WriteByte(' ')
				d.val(full.Index(i), depth+1)
			}
			d.b.WriteByte(']')
		}
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nil-map")
			return
		}
		type kv struct{ k, v string }
		var kvs []kv
		it := v.MapRange()
		for it.Next() {
			a := dumper{spare: d.spare, path: d.path}
			a.val(it.Key(), depth+1)
			b := dumper{spare: d.spare, path: d.path}
			b.val(it.Value(), depth+1)
			kvs = append(kvs, kv{a.b.String(), b.b.String()})
		}
		sort.Slice(kvs, func(i, j int) bool {
			if kvs[i].k != kvs[j].k {
				return kvs[i].k < kvs[j].k
			}
			return kvs[i].v < kvs[j].v
		})
		d.b.WriteString("map[")
		for i, e := range kvs {
			if i > 0 {
				d.b.WriteByte(' ')
			}
			d.b.WriteString(e.k + ":" + e.v)
		}
		d.b.WriteByte(']')
	}
}

func bytesOf(v reflect.Value) []byte {
	if v.Len() == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), v.Len())
}

// Canon replaces generated identifiers (maximal runs of exactly 32 of a-z and
// 0-9) by their order of appearance.
func Canon(s string) string {
	var b strings.Builder
	names := map[string]string{}
	i := 0
	for i < len(s) {
		if !idChar(s[i]) {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && idChar(s[j]) {
			j++
		}
		w := s[i:j]
		if len(w) == 32 {
			n, ok := names[w]
			if !ok {
				n = fmt.Sprintf("<id%d>", len(names))
				names[w] = n
			}
			w = n
		}
		b.WriteString(w)
		i = j
	}
	return b.String()
}

func idChar(c byte) bool { return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' }

// diffAt shows where two strings part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-120, i+200
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d of %d/%d:\n  A: ...%s...\n  B: ...%s...", i, len(a), len(b), cut(a), cut(b))
}

// addSpare gives every reachable slice spare capacity filled with canaries,
// so that an append that does not copy shows.
func addSpare(v reflect.Value, depth int) {
	if depth > 40 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			addSpare(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			addSpare(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				addSpare(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			addSpare(it.Value(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			addSpare(v.Index(i), depth+1)
		}
		if !v.CanSet() || v.IsNil() && v.Type().Elem().Kind() != reflect.String {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(s, v)
		for i := n; i < n+3; i++ {
			if s.Index(i).Kind() == reflect.String {
				s.Index(i).SetString("CANARY")
			}
			if s.Index(i).Kind() == reflect.Uint8 {
				s.Index(i).SetUint(0xA5)
			}
		}
		if v.IsNil() {
			return // nil stays nil: emptiness is part of the input
		}
		v.Set(s.Slice(0, n))
	}
}
