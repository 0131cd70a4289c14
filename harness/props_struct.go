package main

// C10 (custom codecs), C15 (parent and root references), C23 (ways of passing a
// value), C28 (pointers).

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
)

// walker visits everything that takes part in a value.
type walker struct {
	stack []reflect.Value
	ptr   func(v reflect.Value)                               // a pointer of the layout
	ref   func(f *Fd, v reflect.Value, stack []reflect.Value) // a parent or root field
	loops bool                                                // enter slices read by loops
}

func (w *walker) walk(l *Layout, v reflect.Value) {
	if err := catch(func() { w.ty(l.Top, l.Top, v.Elem()) }); err != nil {
		panic("harness: walk: " + err.Error())
	}
}

func (w *walker) res(name string) (MV, bool) { return resolveIn(w.stack, name) }

func (w *walker) field(f *Fd, fv reflect.Value) {
	if !f.takesPart() || f.Blank {
		return
	}
	if f.Parent || f.Root {
		if w.ref != nil {
			w.ref(f, fv, w.stack)
		}
		return
	}
	if f.If != nil && !evalBool(f.If, w.res) {
		return
	}
	if f.While != nil && !w.loops {
		return
	}
	if f.Switch != nil {
		if i := selectCase(f.T.St, evalOr(f.Switch, w.res), w.res); i >= 0 {
			w.field(f.T.St.Fields[i], fv.Field(i))
		}
		return
	}
	w.ty(f.T, f.bin(), fv)
}

func (w *walker) ty(t, b *Ty, v reflect.Value) {
	switch t.K {
	case KPtr:
		if !v.IsNil() {
			if w.ptr != nil {
				w.ptr(v)
			}
			w.ty(t.Elem, b.Elem, v.Elem())
		}
	case KStruct:
		w.stack = append(w.stack, v)
		for i, f := range t.St.Fields {
			w.field(f, v.Field(i))
		}
		w.stack = w.stack[:len(w.stack)-1]
	case KSlice, KArray:
		if t.Elem.K == KStruct || t.Elem.K == KPtr || t.Elem.K == KArray {
			for i := 0; i < v.Len(); i++ {
				w.ty(t.Elem, elemTy(b), v.Index(i))
			}
		}
	}
}

// CRest takes all that is left of the input.
type CRest struct{ B []byte }

func (s *CRest) SizeOf() int { return len(s.B) }
func (s *CRest) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < len(s.B) {
		return nil, io.ErrShortBuffer
	}
	copy(buf, s.B)
	return buf[len(s.B):], nil
}
func (s *CRest) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	s.B = append([]byte{}, buf...)
	return nil, nil
}

// CPanic panics for some values.
type CPanic uint8

func (s CPanic) SizeOf() int {
	if s == 3 {
		panic("size")
	}
	return 1
}
func (s CPanic) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if s == 1 {
		panic("pack")
	}
	if s == 2 {
		panic(fmt.Errorf("pack: %w", errCodec))
	}
	buf[0] = byte(s)
	return buf[1:], nil
}
func (s *CPanic) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if buf[0] < 4 {
		panic(int(buf[0]))
	}
	*s = CPanic(buf[0])
	return buf[1:], nil
}

// CMax reports how much buffer it got to pack into.
type CMax uint8

func (s *CMax) SizeOf() int { return 1 }
func (s *CMax) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) != int(*s) {
		return nil, fmt.Errorf("%d bytes left in the buffer, not %d", len(buf), *s)
	}
	buf[0] = byte(*s)
	return buf[1:], nil
}
func (s *CMax) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) != int(buf[0]) {
		return nil, fmt.Errorf("%d bytes left in the buffer, not %d", len(buf), buf[0])
	}
	*s = CMax(buf[0])
	return buf[1:], nil
}

var cuRest = &Cust{Name: "CRest", RT: reflect.TypeOf(CRest{}),
	Gen: func(c *C) reflect.Value { return newOf(CRest{c.Bytes(c.Len(30))}) },
	Enc: func(v reflect.Value, _ binary.ByteOrder) ([]byte, error) {
		return append([]byte{}, v.Field(0).Bytes()...), nil
	},
	Dec: func(b []byte, _ binary.ByteOrder) (reflect.Value, int, error) {
		return newOf(CRest{append([]byte{}, b...)}), len(b), nil
	}}

func init() {
	registerFocus(focusProp{id: "C10", title: "custom codecs", core: FCustom, vary: vJunk | vLen | vNil | vMisfit, may: FAll | FLeafTop | FNarrow,
		rule:  "eleven codecs with value and pointer receivers over every underlying kind, at every place of the type, and at the top level; codecs that refuse a value, panic, take all the rest, or check their buffer; non-trivial: the type has a codec and the input is not empty",
		extra: extraCodec})
	register(&Prop{ID: "C15", Quick: 25000, Thor: 400000, Run: runC15,
		Rule: "types with parent and root references (generated, and hand-written recursive ones with typed references and several candidate ancestors), wrong references before each call, then pack, size, bit size and unpack; all references are compared by identity with the enclosing structs; non-trivial: at least one reference was checked below the top level",
		Tech: "property-based testing: generated recursive types and values, invariant over all references plus differential against a reference codec",
		Assumptions: []string{
			"references inside slices read by a loop are only checked after packing and sizing"}})
	register(&Prop{ID: "C23", Quick: 30000, Thor: 300000, Run: runC23,
		Rule: "a generated value of any top-level kind is passed directly, by pointer and by pointer to pointer; targets that cannot be set are tried as well; non-trivial: the value occupies at least one byte",
		Tech: "property-based testing: metamorphic relation between ways of passing a value"})
	registerFocus(focusProp{id: "C28", title: "pointers", core: FPtr, vary: vNil | vJunk | vLen, may: FAll | FLeafTop | FNarrow,
		rule: "pointer chains, sequences of pointers, recursive types; unpacking twice into one target; non-trivial: the type has a pointer and the input is not empty", extra: extraPtr})
}

func extraCodec(c *C, l *Layout, g *gen, r allResult) {
	all := append([]*Cust{cuVal}, customs...)
	cu := all[c.Int(len(all))]
	switch c.Pick(3, 3, 3, 2, 2) {
	case 0: // at the top level
		t := tyCu(cu)
		for n := c.Int(3); n > 0; n-- {
			t = tyPtr(t)
		}
		if cu == cuVal && t.K == KPtr {
			t = tyCu(cu) // pointers to it would be allocated without contents
		}
		l2 := &Layout{Top: t, Order: l.Order, Pass: l.Pass}
		data, v, _ := l2.genInput(c)
		c.checkPack(l2, v)
		if _, bits, err := l2.encode(clone(v)); err == nil {
			c.checkSizes(l2, v, bits)
		}
		tail := append(append([]byte{}, data...), c.Bytes(c.Int(4))...)
		if cu == cuVal {
			x := uint16(1)
			tv := CVal{&x}
			if err := c.Unpack(tail, l2.order(), tv); err != nil || diff(reflect.ValueOf(tv), v.Elem()) != "" {
				c.Fail("Unpack by value into %s: %v, %s", cu.Name, err, diff(reflect.ValueOf(tv), v.Elem()))
			}
			x = 2
			if err := c.Unpack(tail, l2.order(), &tv); err != nil || diff(reflect.ValueOf(tv), v.Elem()) != "" {
				c.Fail("Unpack into pointer to %s: %v, %s", cu.Name, err, diff(reflect.ValueOf(tv), v.Elem()))
			}
			break
		}
		c.checkUnpack(l2, tail, c.randomTarget(l2))
	case 1: // takes exactly the rest of the input
		if r.dm.usedEOF {
			break
		}
		t := tyCu(cuRest)
		switch c.Int(4) {
		case 1:
			t = tyPtr(t)
		case 2:
			t = tyArr(1, t)
		case 3:
			t = tySt(mkSt(fd("N", ty(KU8)), fd("R", t)))
		}
		l2 := &Layout{Order: l.Order, Pass: l.Pass, Top: tySt(mkSt(fd("Pre", ty(KU16)), fd("L", l.Top), fd("Rest", t)))}
		if l.Top.K == KSlice || l.Top.K == KStr || refersTo(l.Top) {
			l2.Top.St.Fields = []*Fd{fd("Pre", ty(KU16)), fd("Rest", t)}
		}
		data, v, _ := l2.genInput(c)
		c.checkPack(l2, v)
		c.checkUnpack(l2, data, c.randomTarget(l2))
		if len(data) > 0 {
			c.checkUnpack(l2, data[:len(data)-1], l2.fresh())
		}
		c.checkUnpack(l2, append(data[:len(data):len(data)], 1, 2, 3), l2.fresh())
		c.Class("codec that takes the rest")
	case 2: // errors of codecs are the errors of the call
		pre := c.Int(3)
		s := mkSt(fd("P", tyArr(pre, ty(KU8))), fd("E", tyCu(cuErr)), fd("Q", ty(KU8)))
		switch c.Int(4) {
		case 1:
			s.Fields[1].T = tyArr(1, tyCu(cuErr))
		case 2:
			s.Fields[1].T = tyPtr(tyCu(cuErr))
		case 3:
			s.Fields[1].T = tySt(mkSt(fd("X", tyCu(cuErr))))
		}
		l2 := &Layout{Order: l.Order, Pass: l.Pass, Top: tySt(s)}
		data, v, _ := l2.genInput(c)
		u := clone(v)
		w := &walker{}
		_ = w
		setLeaf(u.Elem().Field(1), 0xdead)
		_, err := c.Pack(l2.order(), u.Interface())
		isCodecErr(c, "Pack", err)
		data[pre], data[pre+1] = 0xde, 0xad
		if l2.Order == binary.LittleEndian {
			data[pre], data[pre+1] = 0xad, 0xde
		}
		isCodecErr(c, "Unpack", c.Unpack(data, l2.order(), l2.fresh().Interface()))
		c.Class("codec that refuses")
	case 3: // a codec that panics gives an error
		type T struct {
			A uint8
			P CPanic
			B uint8
		}
		x := T{1, CPanic(c.Int(6)), 2}
		d, err := c.Pack(l.order(), &x)
		if (err == nil) != (x.P == 0 || x.P > 3) || err == nil && !bytes.Equal(d, []byte{1, byte(x.P), 2}) {
			c.Fail("Pack with a codec that panics (%d): %x, %v", x.P, d, err)
		}
		_, err = c.SizeOf(x)
		_, err2 := c.BitSize(&x)
		if (err == nil) != (x.P != 3) || (err2 == nil) != (x.P != 3) {
			c.Fail("size with a codec that panics (%d): %v, %v", x.P, err, err2)
		}
		b := byte(c.Int(6))
		var y T
		if err := c.Unpack([]byte{1, b, 2}, l.order(), &y); (err == nil) != (b > 3) {
			c.Fail("Unpack with a codec that panics (%d): %v", b, err)
		}
	default: // the buffer starts at the value and ends with the layout
		n, k := c.Int(5), 1+c.Int(5)
		skip := c.Int(3)
		s := mkSt(fd("A", tyArr(n, ty(KU16))), fd("E", tyCu(&Cust{RT: reflect.TypeOf(CMax(0))})), fd("Z", tyArr(k-1, ty(KU8))))
		s.Fields[1].Skip = skip
		if c.Chance(1, 2) {
			s.Fields[1].T = tySt(mkSt(fd("Y", s.Fields[1].T)))
		}
		v := reflect.New(s.RT())
		setLeaf(v.Elem().Field(1), uint64(k))
		d, err := c.Pack(l.order(), v.Interface())
		if err != nil || len(d) != 2*n+skip+k {
			c.Fail("Pack with a codec that checks its buffer in %s: %x, %v", s, d, err)
		}
		u := reflect.New(s.RT())
		if err := c.Unpack(d, l.order(), u.Interface()); err != nil || diff(u, v) != "" {
			c.Fail("Unpack with a codec that checks its buffer in %s: %v", s, err)
		}
	}
}

func setLeaf(v reflect.Value, x uint64) {
	for {
		switch v.Kind() {
		case reflect.Ptr:
			v = v.Elem()
		case reflect.Array:
			v = v.Index(0)
		case reflect.Struct:
			v = v.Field(0)
		default:
			v.SetUint(x)
			return
		}
	}
}

func isCodecErr(c *C, what string, err error) {
	if !errors.Is(err, errCodec) {
		c.Fail("%s with a codec that refuses: error %v", what, err)
	}
}

// refTarget is what a reference should point at, or nothing.
func refTarget(f *Fd, fv reflect.Value, stack []reflect.Value) reflect.Value {
	i := len(stack) - 2
	if f.Root {
		i = 0
	}
	for ; i >= 0; i-- {
		if p := stack[i].Addr(); p.Type().AssignableTo(fv.Type()) {
			return p
		}
	}
	return reflect.Value{}
}

// checkRefs compares every reference with the enclosing structs.
func (c *C) checkRefs(what string, l *Layout, v reflect.Value, loops bool) (n int) {
	w := &walker{loops: loops}
	w.ref = func(f *Fd, fv reflect.Value, stack []reflect.Value) {
		want := refTarget(f, fv, stack)
		if !want.IsValid() {
			return
		}
		n++
		got := fv
		if got.Kind() == reflect.Interface {
			got = got.Elem()
		}
		if !got.IsValid() || got.Type() != want.Type() || got.Pointer() != want.Pointer() {
			c.Note("value  %s", show(v))
			c.Fail("%s: field %s of %s at depth %d does not point to the enclosing %s", what, f.Name, stack[len(stack)-1].Type(), len(stack), want.Type())
		}
	}
	w.walk(l, v)
	return
}

// wreckRefs makes every reference wrong.
func (c *C) wreckRefs(l *Layout, v reflect.Value) {
	var refs []reflect.Value
	w := &walker{loops: true}
	w.ref = func(f *Fd, fv reflect.Value, stack []reflect.Value) {
		if want := refTarget(f, fv, stack); want.IsValid() {
			refs = append(refs, fv)
		}
	}
	w.walk(l, v)
	for _, fv := range refs {
		switch {
		case c.Chance(1, 2):
			fv.Set(reflect.Zero(fv.Type()))
		case fv.Kind() == reflect.Ptr:
			fv.Set(reflect.New(fv.Type().Elem()))
		default:
			fv.Set(reflect.ValueOf(&struct{ X int }{1}))
		}
	}
}

func runC15(c *C) {
	var l *Layout
	var g *gen
	if c.Chance(1, 3) {
		l, g = newLayout(c, FAll|FNarrow, FParent)
		l.Top = tySt(parentTops[c.Int(len(parentTops))])
		if c.Chance(1, 4) {
			l.Top = tyArr(1+c.Int(2), l.Top)
		} else if c.Chance(1, 4) {
			l.Top = tySt(mkSt(fd("H", ty(KU8)), fd("In", l.Top)))
			if l.Top.St.Fields[1].T.St == stOuter {
				// its root references need it at the top
				l.Top = tySt(stOuter)
			} else if l.Top.St.Fields[1].T.St == stTree {
				l.Top = tySt(stTree)
			}
		}
	} else {
		l, g = c.focusLayout(FAll, FParent|FStruct)
	}
	c.noteLayout(l)
	data, v, dm := l.genInput(c)
	c.Note("input  %s", hexs(data))
	c.vary(l, v, []int{0, vJunk | vCounter | vLen | vNil}[c.Int(2)])
	n := 0
	want := clone(v)
	_, bits, werr := l.encode(want)
	if werr != nil {
		c.Discard("value does not fit")
	}
	c.Note("value  %s", show(v))
	w := clone(v)
	c.wreckRefs(l, w)
	d, after, _, ok := c.checkPack(l, w)
	if ok {
		n += c.checkRefs("Pack", l, after, true)
	}
	w = clone(v)
	c.wreckRefs(l, w)
	if x, err := c.BitSize(w.Interface()); err != nil || x != bits {
		c.Fail("BitSize gave %d, %v; the layout occupies %d bits", x, err, bits)
	}
	n += c.checkRefs("BitSize", l, w, true)
	w = clone(v)
	c.wreckRefs(l, w)
	if x, err := c.SizeOf(w.Interface()); err != nil || x != (bits+7)/8 {
		c.Fail("SizeOf gave %d, %v; the layout occupies %d bits", x, err, bits)
	}
	n += c.checkRefs("SizeOf", l, w, true)
	if ok && !dm.usedEOF {
		got, okU := c.checkUnpack(l, d, c.randomTarget(l))
		if okU {
			n += c.checkRefs("Unpack", l, got, false)
		}
	}
	got, okU := c.checkUnpack(l, data, c.randomTarget(l))
	if okU {
		n += c.checkRefs("Unpack", l, got, false)
		// the value goes on to be packed as it is
		if d2, err := c.Pack(l.order(), got.Interface()); err == nil {
			c.checkRefs("Pack after Unpack", l, got, true)
			_ = d2
		}
	}
	c.classLayout(l, g)
	if n > 0 {
		c.NonTrivial()
	}
}

func runC23(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FNarrow, 0)
	seq := false
	switch c.Pick(8, 2, 2) {
	case 1: // slices and strings
		seq = true
		o := off{0, 0}
		if c.Chance(1, 3) {
			l.Top = ty(KStr)
			l.Top.Named = c.Chance(1, 3)
		} else {
			l.Top = tySlice(g.elem(0, &o, nil))
		}
	case 2:
		all := append([]*Cust{cuVal}, customs...)
		l.Top = tyCu(all[c.Int(len(all))])
	}
	if l.Top.K == KIface {
		c.Discard("nothing at the top level")
	}
	c.noteLayout(l)
	var v reflect.Value
	var data []byte
	if seq {
		// sequences have no length of their own when reading
		l2 := &Layout{Order: l.Order, Top: tySt(mkSt(&Fd{Name: "N", T: ty(KU8), SizeOf: "S"}, fd("S", l.Top)))}
		d, v2, _ := l2.genInput(c)
		v = v2.Elem().Field(1).Addr()
		data = d[1:]
	} else {
		data, v, _ = l.genInput(c)
	}
	c.vary(l, v, []int{0, vNil | vShort | vLen}[c.Int(2)])
	c.Note("value  %s", show(v))
	want, bits, werr := l.encode(clone(v))
	if werr != nil {
		c.Discard("value does not fit")
	}
	var of reflect.Value // what the last form was made of
	forms := []struct {
		name string
		mk   func() interface{}
	}{
		{"value", func() interface{} { of = clone(v); return of.Elem().Interface() }},
		{"pointer", func() interface{} { of = clone(v); return of.Interface() }},
		{"pointer to pointer", func() interface{} {
			p := reflect.New(v.Type())
			of = clone(v)
			p.Elem().Set(of)
			return p.Interface()
		}},
	}
	for _, f := range forms {
		if f.name == "value" && l.Top.K == KPtr && v.Elem().IsNil() {
			continue
		}
		d, err := c.Pack(l.order(), f.mk())
		if err != nil || !bytes.Equal(d, want) {
			c.Fail("Pack of %s gave %s, %v; expected %s", f.name, hexs(d), err, hexs(want))
		}
		c.checkUnshared(d, of)
		n, err := c.BitSize(f.mk())
		if err != nil || n != bits {
			c.Fail("BitSize of %s gave %d, %v; the layout occupies %d bits", f.name, n, err, bits)
		}
		n, err = c.SizeOf(f.mk())
		if err != nil || n != (bits+7)/8 {
			c.Fail("SizeOf of %s gave %d, %v; the layout occupies %d bits", f.name, n, err, bits)
		}
	}
	c.classLayout(l, g)
	c.ClassIf(seq, "slice or string at the top level")
	c.ClassIf(l.Top.K == KCustom, "codec at the top level")
	if bits >= 8 {
		c.NonTrivial()
	}
	// reading
	if !seq && l.Top.Cu != cuVal {
		exp, ok := c.checkUnpack(l, data, c.randomTarget(l))
		p := reflect.New(v.Type())
		if c.Chance(1, 2) {
			p.Elem().Set(c.randomTarget(l))
			if l.Top.K == KStruct {
				// what is not read stays as it was
				p.Elem().Set(l.fresh())
			}
		}
		// a pointer to a pointer gets a new target: compare with a fresh one
		exp, ok = c.checkUnpack(l, data, l.fresh())
		err := c.Unpack(data, l.order(), p.Interface())
		if (err == nil) != ok {
			c.Fail("Unpack into a pointer to a pointer: %v", err)
		}
		if err == nil {
			if s := diff(p.Elem(), exp); s != "" {
				c.Fail("Unpack into a pointer to a pointer: %s", s)
			}
		}
	}
	// what cannot be set
	if l.Top.K != KPtr {
		if l.Top.Cu == cuVal {
			x := uint16(3)
			t := CVal{&x}
			if err := c.Unpack(data, l.order(), t); err != nil || x != *v.Elem().Interface().(CVal).P && len(data) == 2 {
				c.Fail("Unpack by value into a type that allows it: %v", err)
			}
		} else {
			t := c.randomTarget(l)
			keep := clone(t)
			if err := c.Unpack(data, l.order(), t.Elem().Interface()); err == nil {
				c.Fail("Unpack into a value that cannot be set succeeded")
			}
			_ = keep
		}
	}
	if err := c.Unpack(data, l.order(), nil); err == nil {
		c.Fail("Unpack into nil succeeded")
	}
	if err := c.Unpack(data, l.order(), reflect.Zero(v.Type()).Interface()); err == nil {
		c.Fail("Unpack into a nil pointer succeeded")
	}
	if err := c.Unpack(nil, l.order(), reflect.Zero(v.Type()).Interface()); err == nil {
		c.Fail("Unpack of nothing into a nil pointer succeeded")
	}
}

// extraPtr: fresh targets, and values unpacked earlier stay as they are.
func extraPtr(c *C, l *Layout, g *gen, r allResult) {
	if !r.okU {
		return
	}
	collect := func(v reflect.Value) (ps []reflect.Value) {
		w := &walker{loops: true, ptr: func(p reflect.Value) {
			if p.Type().Elem().Size() > 0 {
				ps = append(ps, p)
			}
		}}
		if catch(func() { w.walk(l, v) }) != nil {
			return nil
		}
		return
	}
	t := c.randomTarget(l)
	before := map[uintptr]bool{}
	allPtrs(t.Elem(), before, 0)
	if _, _, err := l.decode(r.data, clone(t)); err != nil {
		return
	}
	if err := c.Unpack(r.data, l.order(), t.Interface()); err != nil {
		c.Fail("Unpack failed: %v", err)
	}
	distinct := func(v reflect.Value, old map[uintptr]bool) map[uintptr]bool {
		seen := map[uintptr]bool{}
		for _, p := range collect(v) {
			// a pointer to a struct and one to its first field may be equal, but
			// two allocations never are
			if seen[p.Pointer()] {
				c.Fail("two pointers of one value have the same target (%s)", p.Type())
			}
			seen[p.Pointer()] = true
			if old[p.Pointer()] {
				c.Fail("a pointer (%s) still has its old target", p.Type())
			}
		}
		return seen
	}
	first := distinct(t, before)
	n := len(first)
	shallow := reflect.New(t.Type().Elem())
	shallow.Elem().Set(t.Elem())
	snap := clone(shallow)
	d2, _, _ := l.genInput(c)
	if _, _, err := l.decode(d2, clone(t)); err != nil {
		return
	}
	if err := c.Unpack(d2, l.order(), t.Interface()); err != nil {
		c.Fail("Unpack of %s over a value failed: %v", hexs(d2), err)
	}
	second := distinct(t, nil)
	for p := range second {
		if first[p] && l.Top.K != KStruct {
			c.Fail("a pointer still has its old target")
		}
	}
	if !refersTo(l.Top) {
		if s := diff(shallow.Elem(), snap.Elem()); s != "" {
			c.Fail("unpacking %s changed a value unpacked earlier: %s", hexs(d2), s)
		}
	}
	c.ClassIf(n > 1, "several pointers")
}

// allPtrs collects the addresses a value refers to.
func allPtrs(v reflect.Value, m map[uintptr]bool, depth int) {
	if depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !m[v.Pointer()] {
			m[v.Pointer()] = true
			allPtrs(v.Elem(), m, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			allPtrs(v.Field(i), m, depth+1)
		}
	case reflect.Slice, reflect.Array:
		if plainKind(v.Type().Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			allPtrs(v.Index(i), m, depth+1)
		}
	}
}
