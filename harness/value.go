package main

// Generic operations on Go values: deep comparison, deep copies, random contents.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

type ptrPair struct {
	a, b uintptr
	t    reflect.Type
}

// diff describes the first difference between two values, or "".
func diff(a, b reflect.Value) string {
	return diffRec(a, b, "", map[ptrPair]bool{})
}

func sameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func diffRec(a, b reflect.Value, path string, seen map[ptrPair]bool) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: one is missing", path)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	bad := func(x, y interface{}) string { return fmt.Sprintf("%s: got %v, want %v", path, x, y) }
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return bad(a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return bad(a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return bad(a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if !sameF(a.Float(), b.Float()) {
			return bad(a.Float(), b.Float())
		}
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		if !sameF(real(x), real(y)) || !sameF(imag(x), imag(y)) {
			return bad(x, y)
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: got %q, want %q", path, a.String(), b.String())
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return bad(fmt.Sprint("length ", a.Len()), fmt.Sprint("length ", b.Len()))
		}
		for i := 0; i < a.Len(); i++ {
			if s := diffRec(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); s != "" {
				return s
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := diffRec(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, seen); s != "" {
				return s
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return bad(map[bool]string{true: "nil", false: "non-nil"}[a.IsNil()], map[bool]string{true: "nil", false: "non-nil"}[b.IsNil()])
		}
		if a.IsNil() {
			return ""
		}
		k := ptrPair{a.Pointer(), b.Pointer(), a.Type()}
		if seen[k] {
			return ""
		}
		seen[k] = true
		return diffRec(a.Elem(), b.Elem(), "(*"+path+")", seen)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return bad(a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return diffRec(a.Elem(), b.Elem(), path, seen)
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return bad(a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if s := diffRec(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), seen); s != "" {
				return s
			}
		}
	}
	return ""
}

type cloneKey struct {
	p uintptr
	t reflect.Type
}

// clone copies a pointer and everything it reaches.
func clone(p reflect.Value) reflect.Value {
	seen := map[cloneKey]reflect.Value{}
	out := reflect.New(p.Type()).Elem()
	cloneRec(out, p, seen)
	return out
}

func cloneRec(dst, src reflect.Value, seen map[cloneKey]reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		if x, ok := seen[cloneKey{src.Pointer(), src.Type()}]; ok {
			dst.Set(x)
			return
		}
		n := reflect.New(src.Type().Elem())
		seen[cloneKey{src.Pointer(), src.Type()}] = n
		dst.Set(n)
		cloneRec(n.Elem(), src.Elem(), seen)
	case reflect.Interface:
		if src.IsNil() {
			dst.Set(src)
			return
		}
		n := reflect.New(src.Elem().Type()).Elem()
		cloneRec(n, src.Elem(), seen)
		dst.Set(n)
	case reflect.Slice:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		if plainKind(src.Type().Elem().Kind()) {
			reflect.Copy(n, src)
		} else {
			for i := 0; i < src.Len(); i++ {
				cloneRec(n.Index(i), src.Index(i), seen)
			}
		}
		dst.Set(n)
	case reflect.Map:
		if src.IsNil() {
			dst.Set(reflect.Zero(src.Type()))
			return
		}
		n := reflect.MakeMap(src.Type())
		for _, k := range src.MapKeys() {
			n.SetMapIndex(k, src.MapIndex(k))
		}
		dst.Set(n)
	case reflect.Array:
		if plainKind(src.Type().Elem().Kind()) {
			dst.Set(src)
			return
		}
		for i := 0; i < src.Len(); i++ {
			cloneRec(dst.Index(i), src.Index(i), seen)
		}
	case reflect.Struct:
		if src.CanAddr() && dst.CanAddr() {
			seen[cloneKey{src.Addr().Pointer(), reflect.PtrTo(src.Type())}] = dst.Addr()
		}
		dst.Set(src)
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				cloneRec(dst.Field(i), src.Field(i), seen)
			}
		}
	default:
		dst.Set(src)
	}
}

func plainKind(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Complex128 || k == reflect.String
}

// scramble fills a value with arbitrary contents (for targets that must be
// overwritten, and for parts that must not matter).
func scramble(c *C, v reflect.Value, depth int) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(c.Chance(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(c.U64(8)) * 0x0101010101010101)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(c.U64(8) * 0x0101010101010101)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(c.Int(1000)) / 8)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(c.Int(100)), 1))
	case reflect.String:
		v.SetString(strings.Repeat("z", c.Int(6)))
	case reflect.Slice:
		n := c.Int(4)
		if depth > 5 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), n, n+c.Int(3))
		for i := 0; i < n; i++ {
			scramble(c, s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Map:
		if v.Type() == reflect.TypeOf(CMap{}) && c.Chance(2, 3) {
			v.Set(reflect.ValueOf(CMap{uint8(c.U64(8)): 9}))
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 8; i++ {
			scramble(c, v.Index(i), depth+1)
		}
	case reflect.Ptr:
		if depth > 4 || c.Chance(1, 3) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		scramble(c, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(c, v.Field(i), depth+1)
		}
	}
}

// show prints a value for humans, bounded.
func show(v reflect.Value) string {
	var b strings.Builder
	showRec(&b, v, 0)
	return clip(b.String(), 1500)
}

func showRec(b *strings.Builder, v reflect.Value, depth int) {
	if b.Len() > 2000 || depth > 12 {
		b.WriteString("…")
		return
	}
	if !v.IsValid() {
		b.WriteString("<none>")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface || depth > 6 {
			b.WriteString("…")
			return
		}
		b.WriteString("&")
		showRec(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			n := v.Type().Field(i).Name
			b.WriteString(n + ":")
			if n == "Parent" || n == "Root" {
				b.WriteString("^")
				continue
			}
			showRec(b, v.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%d:", v.Len())
			for i := 0; i < v.Len() && i < 40; i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len() && i < 20; i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			showRec(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", clip(v.String(), 60))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.Map:
		fmt.Fprintf(b, "map of %d", v.Len())
	default:
		b.WriteString(v.Kind().String())
	}
}
