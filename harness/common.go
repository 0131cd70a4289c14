package main

// Building blocks shared by the layout properties.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"reflect"
	"unsafe"
)

func hexs(b []byte) string {
	if len(b) > 400 {
		return hex.EncodeToString(b[:400]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func (c *C) noteLayout(l *Layout) {
	if c.verbose {
		c.Note("type   %s", l.Top)
		c.Note("order  %s", l.Order)
	}
}

// classes for the evidence
var featName = []string{"cast", "narrow", "named", "bits", "bitsexpr", "skip", "order", "padding", "ignored", "string", "slice", "array", "pointer", "struct", "custom",
	"interface", "count", "sizeexpr", "if", "switch", "while", "inout", "parent", "bool", "float", "intkind", "embed", "flags", "static"}

func (c *C) classLayout(l *Layout, g *gen) {
	for i, n := range featName {
		if g.used&(1<<uint(i)) != 0 {
			c.Class("feature " + n)
		}
	}
	c.ClassIf(l.Top.K == KStruct && l.Top.St.Static != nil, "hand-written type")
	c.ClassIf(l.Top.K != KStruct, "top level is not a struct")
	for _, p := range exprPlaces(l.Top, map[*St]bool{}, nil) {
		c.Class("expression over " + p)
	}
	n := countFields(l.Top, map[*St]bool{})
	c.ClassIf(n >= 20, "20 or more fields")
	if g.scale > 0 {
		c.Class([]string{"", "many fields", "long sequences", "many levels", "many cases", "wrapped"}[g.scale])
	}
}

// exprPlaces tells where the operands of a type's expressions are.
func exprPlaces(t *Ty, seen map[*St]bool, r []string) []string {
	if t == nil || t.K != KStruct {
		if t != nil {
			return exprPlaces(t.Elem, seen, r)
		}
		return r
	}
	if seen[t.St] {
		return r
	}
	seen[t.St] = true
	var walk func(e *Ex)
	add := func(s string) {
		for _, x := range r {
			if x == s {
				return
			}
		}
		r = append(r, s)
	}
	walk = func(e *Ex) {
		switch e.Op {
		case "id":
			if fieldIndex(t.St, e.S) < 0 && e.S != "bits" && e.S != "_eof" && t.St.Static == nil {
				add("promoted fields or a switch's struct")
			}
		case "idx":
			add("elements")
		case "dot":
			if e.A[0].S == "Parent" || e.A[0].S == "Root" {
				add("enclosing structs")
			} else if e.A[0].S != "bits" {
				add("nested structs")
			}
		}
		for _, a := range e.A {
			walk(a)
		}
	}
	for _, f := range t.St.Fields {
		for _, x := range f.exprs() {
			walk(x.e)
		}
		r = exprPlaces(f.T, seen, r)
	}
	return r
}

func countFields(t *Ty, seen map[*St]bool) (n int) {
	if t == nil {
		return
	}
	if t.K == KStruct {
		if seen[t.St] {
			return
		}
		seen[t.St] = true
		for _, f := range t.St.Fields {
			n += 1 + countFields(f.T, seen)
		}
		return
	}
	return countFields(t.Elem, seen)
}

// checkPack packs a copy of v (a pointer) and compares with the model.
func (c *C) checkPack(l *Layout, v reflect.Value) (data []byte, after reflect.Value, bits int, ok bool) {
	want := clone(v)
	wdata, bits, werr := l.encode(want)
	got := clone(v)
	data, err := c.Pack(l.order(), got.Interface())
	if werr != nil {
		if err == nil {
			c.Note("value  %s", show(v))
			c.Fail("Pack succeeded with %s, but the value does not fit its layout: %v", hexs(data), werr)
		}
		return nil, got, 0, false
	}
	if err != nil {
		c.Note("value  %s", show(v))
		c.Fail("Pack failed: %v; expected %s", err, hexs(wdata))
	}
	if !bytes.Equal(data, wdata) {
		c.Note("value  %s", show(v))
		c.Fail("Pack gave %s, the layout says %s", hexs(data), hexs(wdata))
	}
	if s := diff(got.Elem(), want.Elem()); s != "" {
		c.Note("value  %s", show(v))
		c.Fail("value after Pack: %s", s)
	}
	return data, got, bits, true
}

// checkUnshared overwrites bytes that Pack returned for v (a pointer), which must not
// change v. What lies behind them is overwritten too, as appending to them would.
func (c *C) checkUnshared(data []byte, v reflect.Value) {
	keep := clone(v)
	for j := range data[:cap(data)] {
		data[:cap(data)][j] ^= 0xff
	}
	if s := diff(v.Elem(), keep.Elem()); s != "" {
		c.Note("value  %s", show(keep))
		c.Fail("the packed bytes share memory with the value: %s", s)
	}
}

// checkSizes compares both sizes with the model's number of bits.
func (c *C) checkSizes(l *Layout, v reflect.Value, bits int) {
	n, err := c.BitSize(clone(v).Interface())
	if err != nil || n != bits {
		c.Note("value  %s", show(v))
		c.Fail("BitSize gave %d, %v; the layout occupies %d bits", n, err, bits)
	}
	n, err = c.SizeOf(clone(v).Interface())
	if err != nil || n != (bits+7)/8 {
		c.Note("value  %s", show(v))
		c.Fail("SizeOf gave %d, %v; the layout occupies %d bits", n, err, bits)
	}
}

// checkUnpack unpacks data into a copy of target and compares with the model.
func (c *C) checkUnpack(l *Layout, data []byte, target reflect.Value) (got reflect.Value, ok bool) {
	want := clone(target)
	_, _, werr := l.decode(data, want)
	got = clone(target)
	err := c.Unpack(data, l.order(), got.Interface())
	if werr != nil {
		if err == nil {
			c.Note("input  %s", hexs(data))
			c.Fail("Unpack succeeded with %s; expected an error: %v", show(got.Elem()), werr)
		}
		return got, false
	}
	if err != nil {
		c.Note("input  %s", hexs(data))
		c.Fail("Unpack failed: %v; expected %s", err, show(want.Elem()))
	}
	if s := diff(got.Elem(), want.Elem()); s != "" {
		c.Note("input  %s", hexs(data))
		c.Fail("Unpack: %s", s)
	}
	return got, true
}

func (l *Layout) fresh() reflect.Value { return reflect.New(l.Top.RT()) }

// access makes any field settable.
func access(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// Kinds of variation.
const (
	vNil     = 1 << iota // nil pointers
	vShort               // shorter contents of fixed-length sequences
	vJunk                // junk in what does not take part
	vCounter             // junk in counters
	vLen                 // other lengths of counted sequences
	vWide                // values wider than their bit-fields
	vMisfit              // contents that exceed their space (the model decides)
	vAll     = vNil | vShort | vJunk | vCounter | vLen | vWide
)

type varier struct {
	c     *C
	what  int
	stack []reflect.Value
	n     int // changes made
}

func (w *varier) res(name string) (MV, bool) { return resolveIn(w.stack, name) }

// vary changes a generated value in ways that keep it packable.
func (c *C) vary(l *Layout, v reflect.Value, what int) int {
	w := &varier{c: c, what: what}
	w.ty(l.Top, l.Top, v.Elem(), false)
	return w.n
}

func (w *varier) do(what, num, den int) bool {
	if w.what&what == 0 || !w.c.Chance(num, den) {
		return false
	}
	w.n++
	return true
}

func (w *varier) st(st *St, v reflect.Value) {
	w.stack = append(w.stack, v)
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()
	for i, f := range st.Fields {
		w.field(st, f, v.Field(i), v)
	}
}

func (w *varier) scramble(v reflect.Value) {
	v = access(v)
	if v.CanSet() {
		scramble(w.c, v, 2)
	}
}

func (w *varier) field(st *St, f *Fd, fv, sv reflect.Value) {
	if !f.takesPart() || f.Blank {
		if w.do(vJunk, 1, 2) {
			w.scramble(fv)
		}
		return
	}
	if f.Parent || f.Root {
		return
	}
	if f.If != nil {
		if b, err := evalM(f.If, w.res); err == nil && !b.B {
			ci := counterOf(st, f)
			if !f.refd && (ci < 0 || !st.Fields[ci].refd) && w.do(vJunk, 1, 2) {
				w.scramble(fv)
			}
			return
		}
	}
	if f.Switch != nil {
		on, err := evalM(f.Switch, w.res)
		if err != nil {
			return
		}
		sel := -1
		if catch(func() { sel = selectCase(f.T.St, on, w.res) }) != nil {
			return
		}
		for i, cf := range f.T.St.Fields {
			if i != sel && cf.takesPart() && w.do(vJunk, 1, 2) {
				w.scramble(fv.Field(i))
			}
		}
		if sel >= 0 {
			w.field(f.T.St, f.T.St.Fields[sel], fv.Field(sel), fv)
		}
		return
	}
	if ti := targetOf(st, f); ti >= 0 && !f.refd {
		if w.do(vCounter, 1, 2) {
			w.scramble(fv)
		}
		return
	}
	if f.refd {
		return
	}
	if w.misfit(st, f, fv) {
		return
	}
	if f.T.K == KSlice && f.bin().K != KArray && f.Size == nil {
		ci := counterOf(st, f)
		if (ci < 0 || !st.Fields[ci].refd) && fv.Len() > 0 && w.do(vLen, 1, 4) {
			if n := w.c.Int(fv.Len()); n == 0 {
				fv.Set(reflect.Zero(fv.Type()))
			} else {
				fv.Set(fv.Slice(0, n))
			}
		}
	}
	if (f.Bits != 0 || f.BitsX != nil) && f.T.K.intk() && f.Out == nil && w.do(vWide, 1, 2) {
		if f.T.K.signed() {
			fv.SetInt(fv.Int() ^ int64(w.c.Draw(0)))
		} else {
			fv.SetUint(fv.Uint() ^ w.c.Draw(0))
		}
		// the model wants to see the bits only; wide bits stay in the value
		return
	}
	w.ty(f.T, f.bin(), fv, f.Out != nil)
}

// resize sets the length of a slice or string; new elements are zero.
func resize(c *C, v reflect.Value, n int) {
	if v.Kind() == reflect.String {
		s := []byte(v.String())
		for len(s) < n {
			s = append(s, byte(c.U64(8)))
		}
		v.SetString(string(s[:n]))
		return
	}
	x := reflect.MakeSlice(v.Type(), n, n)
	reflect.Copy(x, v)
	v.Set(x)
}

// misfit makes the contents of a field too long or of the wrong length.
func (w *varier) misfit(st *St, f *Fd, fv reflect.Value) bool {
	if f.T.K != KStr && f.T.K != KSlice || f.Out != nil {
		return false
	}
	if f.bin().K == KArray {
		return false // see ty
	}
	if f.Size != nil {
		if w.do(vMisfit, 1, 3) {
			n := w.c.Int(fv.Len() + 3)
			resize(w.c, fv, n)
			return true
		}
		return false
	}
	ci := counterOf(st, f)
	if ci < 0 {
		return false
	}
	cf := st.Fields[ci]
	width := kWidth[cf.bin().K]
	if cf.Bits != 0 {
		width = cf.Bits
	}
	if nw := cf.T.K.nativeWidth(); nw < width {
		width = nw
	}
	if cf.bin().K.signed() {
		width--
	}
	if cf.refd || width > 16 || width > 9 && !w.c.Chance(1, 600) || width > 9 && f.T.K != KStr && !f.T.Elem.K.scalar() || !w.do(vMisfit, 1, 2) {
		return false
	}
	resize(w.c, fv, 1<<uint(width)-1+w.c.Int(3))
	return true
}

func (w *varier) ty(t, b *Ty, v reflect.Value, fixed bool) {
	switch t.K {
	case KCustom:
		if t.Cu == cuErr && w.do(vMisfit, 1, 2) {
			v.SetUint(0xdead)
		}
	case KPtr:
		if w.do(vNil, 1, 5) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if !v.IsNil() {
			w.ty(t.Elem, b.Elem, v.Elem(), false)
		}
	case KStruct:
		w.st(t.St, v)
	case KStr:
		if b.K == KArray && !fixed && w.do(vMisfit, 1, 3) {
			resize(w.c, v, b.Len+w.c.Int(3))
			return
		}
		if b.K == KArray && !fixed && v.Len() > 0 && w.do(vShort, 1, 4) {
			v.SetString(v.String()[:w.c.Int(v.Len())])
		}
	case KSlice:
		if b.K == KArray && w.do(vMisfit, 1, 3) {
			resize(w.c, v, b.Len+w.c.Int(3))
		} else if b.K == KArray && v.Len() > 0 && w.do(vShort, 1, 3) {
			if n := w.c.Int(v.Len()); n == 0 {
				v.Set(reflect.Zero(v.Type()))
			} else {
				v.Set(v.Slice(0, n))
			}
		}
		fallthrough
	case KArray:
		be := elemTy(b)
		if t.Elem.K == KStruct || t.Elem.K == KPtr || t.Elem.K == KArray || t.Elem.K == KCustom {
			for i := 0; i < v.Len(); i++ {
				w.ty(t.Elem, be, v.Index(i), false)
			}
		}
	}
}
