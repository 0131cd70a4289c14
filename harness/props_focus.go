package main

// Properties about one feature of layouts each: generation favours that feature, and
// packing, unpacking and sizes are all compared with the reference model, besides what
// is specific to the property.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strconv"
)

const focusRule = "a type is generated from the tag language with this feature favoured, then an input and the value it stands for; the input (with trailing bytes, into fresh or pre-filled targets) is unpacked, varied values are packed and sized, and the unpacked bytes must give back the packed value; "

// focusLayout generates a layout that uses the wanted features.
func (c *C) focusLayout(may, core Feat) (*Layout, *gen) {
	for i := 0; i < 5; i++ {
		l, g := newLayout(c, may, core)
		if g.used&core != 0 || hasStaticFeature(l, core) {
			return l, g
		}
	}
	c.Discard("the feature did not come up")
	return nil, nil
}

func hasStaticFeature(l *Layout, core Feat) bool {
	return l.Top.K == KStruct && l.Top.St.Static != nil && core&(FIf|FParent|FCount|FStruct|FPtr|FSlice|FSizeX) != 0
}

// result of the general comparison of one layout with the model.
type allResult struct {
	data   []byte
	v      reflect.Value // generated value
	packed []byte
	dm     *dm
	okU    bool
	okP    bool
}

// checkAll compares all operations on one layout with the model.
func (c *C) checkAll(l *Layout, what int) (r allResult) {
	data, v, dm := l.genInput(c)
	r.data, r.v, r.dm = data, v, dm
	c.Note("input  %s", hexs(data))
	in := data
	if !dm.usedEOF && c.Chance(1, 3) {
		in = append(in[:len(in):len(in)], c.Bytes(1+c.Int(4))...)
	}
	keep := append([]byte{}, in...)
	_, r.okU = c.checkUnpack(l, in, c.randomTarget(l))
	if !bytes.Equal(keep, in) {
		c.Fail("the input was modified")
	}
	if what != 0 && c.Chance(1, 2) {
		v = clone(v)
		if c.vary(l, v, what) > 0 {
			c.Class("varied value")
		}
	}
	c.Note("value  %s", show(v))
	p, after, bits, ok := c.checkPack(l, v)
	r.packed, r.okP = p, ok
	if !ok {
		c.Class("value does not fit")
		return
	}
	c.checkSizes(l, v, bits)
	if !dm.usedEOF {
		c.checkUnpack(l, p, l.fresh())
	}
	_ = after
	return
}

type focusProp struct {
	id, title string
	core      Feat
	may       Feat
	vary      int
	rule      string
	extra     func(c *C, l *Layout, g *gen, r allResult)
	sweep     func(c *C, thor bool) int
}

func registerFocus(f focusProp) {
	if f.may == 0 {
		f.may = FAll | FNarrow
	}
	register(&Prop{ID: f.id, Rule: focusRule + f.rule, Quick: 30000, Thor: 500000, Sweep: f.sweep,
		Tech: "property-based testing: generated types and values with " + f.title + ", differential against a reference codec",
		Run: func(c *C) {
			l, g := c.focusLayout(f.may, f.core)
			c.noteLayout(l)
			r := c.checkAll(l, f.vary)
			c.classLayout(l, g)
			if r.okU && len(r.data) > 0 {
				c.NonTrivial()
			}
			if f.extra != nil {
				f.extra(c, l, g, r)
			}
		}})
}

func init() {
	registerFocus(focusProp{id: "C05", title: "byte order tags", core: FOrder, vary: vNil | vShort | vLen,
		rule: "non-trivial: the type has a byte order tag and the input is not empty", extra: extraOrder})
	registerFocus(focusProp{id: "C07", title: "counted sequences", core: FCount, vary: vAll,
		rule: "counters hold junk before packing; elements may occupy nothing; non-trivial: the type has a counter and the input is not empty",
		extra: func(c *C, l *Layout, g *gen, r allResult) {
			if c.Chance(1, 10) {
				emptyElems(c)
			}
		}})
	registerFocus(focusProp{id: "C11", title: "conditions and computed widths and lengths", core: FIf | FBitsX | FSizeX, vary: vAll,
		rule: "fields that are switched off hold junk; computed widths and lengths are also negative and too large; non-trivial: the type has such a tag and the input is not empty", extra: extraComputed})
	registerFocus(focusProp{id: "C12", title: "switches", core: FSwitch, vary: vAll,
		rule: "cases that do not apply hold junk; switch and case values are also arbitrary expressions; non-trivial: the type has a switch and the input is not empty", extra: extraSwitch})
	registerFocus(focusProp{id: "C13", title: "loops", core: FWhile, vary: vJunk | vCounter | vNil, may: FAll | FNarrow,
		rule: "non-trivial: the type has a loop and the input is not empty", extra: extraWhile})
	registerFocus(focusProp{id: "C14", title: "value transforms", core: FInOut, vary: vJunk | vCounter | vLen | vNil,
		rule: "transforms are inverse pairs, or any two expressions over all fields, with results of other kinds; non-trivial: the type has transforms and the input is not empty", extra: extraTransform})
	registerFocus(focusProp{id: "C26", title: "skips, padding and ignored fields", core: FSkip | FPad | FIgnored, vary: vAll,
		rule: "padding and ignored fields hold junk; non-trivial: the type has such a field and the input is not empty", extra: extraRemove})
	registerFocus(focusProp{id: "C27", title: "fixed-length strings, slices and arrays", core: FStr | FArr, vary: vShort | vJunk | vNil | vLen,
		rule: "contents are often shorter than their space; non-trivial: the type has such a field and the input is not empty"})
	registerFocus(focusProp{id: "C30", title: "booleans", core: FBool | FFlags, may: FAll | FNarrow, vary: vJunk,
		rule: "inputs hold non-canonical booleans; the sweep runs every integer type, width and flag; non-trivial: the input is not empty", sweep: sweepC30})
}

// extraOrder puts the layout under a tag: the tag must act exactly like the caller's
// order, and end with the field.
func extraOrder(c *C, l *Layout, g *gen, r allResult) {
	if !r.okP || r.dm.usedEOF {
		return
	}
	other := binary.ByteOrder(binary.BigEndian)
	if l.Order == other {
		other = binary.LittleEndian
	}
	in := fd("F", l.Top)
	in.Order = l.Order
	w := &Layout{Order: other, Top: tySt(mkSt(fd("Pre", ty(KU16)), in, fd("Post", ty(KU32))))}
	if l.Top.K == KSlice || l.Top.K == KStr {
		return
	}
	if c.Chance(1, 3) {
		// no order is needed where tags give one
		w.NoOrder = true
		w.Top.St.Fields[0].T = ty(KU8)
		w.Top.St.Fields[2].T = ty([]K{KU8, KU32}[c.Int(2)])
		if w.Top.St.Fields[2].T.K == KU32 {
			w.Top.St.Fields[2].Order = other
		}
		c.Class("no order passed")
	}
	wv := w.fresh()
	wv.Elem().Field(0).SetUint(0x1234 & (1<<uint(kWidth[w.Top.St.Fields[0].T.K]) - 1))
	p := clone(r.v)
	if _, _, err := l.encode(p); err != nil {
		return
	}
	wv.Elem().Field(1).Set(p.Elem())
	wv.Elem().Field(2).SetUint(0x01020304 & (1<<uint(kWidth[w.Top.St.Fields[2].T.K]) - 1))
	d, _, _, ok := c.checkPack(w, wv)
	if ok {
		c.checkUnpack(w, d, w.fresh())
	}
}

// extraRemove drops fields that take no part from the type: the bytes stay the same.
func extraRemove(c *C, l *Layout, g *gen, r allResult) {
	if !r.okP || l.Top.K != KStruct || l.Top.St.Static != nil {
		return
	}
	s := &St{}
	var idx []int
	for i, f := range l.Top.St.Fields {
		if f.takesPart() {
			s.Fields = append(s.Fields, f)
			idx = append(idx, i)
		}
	}
	if len(idx) == len(l.Top.St.Fields) {
		return
	}
	if refersTo(l.Top) {
		return // parent and root references depend on the outer type
	}
	c.Class("ignored fields removed")
	l2 := &Layout{Order: l.Order, Top: tySt(s)}
	v2 := l2.fresh()
	src := clone(r.v)
	if _, _, err := l.encode(src); err != nil {
		return
	}
	for j, i := range idx {
		access(v2.Elem().Field(j)).Set(access(src.Elem().Field(i)))
	}
	a, err1 := c.Pack(l.order(), clone(r.v).Interface())
	b, err2 := c.Pack(l2.Order, v2.Interface())
	if (err1 == nil) != (err2 == nil) || !bytes.Equal(a, b) {
		c.Fail("with ignored fields Pack gives %s, %v; without them %s, %v", hexs(a), err1, hexs(b), err2)
	}
}

// refersTo is true if a type holds parent or root references.
func refersTo(t *Ty) bool {
	if t == nil {
		return false
	}
	if t.K == KStruct {
		if t.St.Static != nil {
			return true
		}
		for _, f := range t.St.Fields {
			if f.Parent || f.Root || f.takesPart() && refersTo(f.T) {
				return true
			}
		}
		return false
	}
	return refersTo(t.Elem)
}

// emptyElems counts elements that occupy nothing: there may be more of them than bits.
func emptyElems(c *C) {
	var el *Ty
	switch c.Int(6) {
	case 0:
		el = tySt(mkSt())
	case 1:
		el = tyArr(0, ty(KU32))
	case 2:
		x := fd("X", ty(KU16))
		x.If = lit("false", MV{K: MUBool})
		el = tySt(mkSt(fd("A", tyArr(0, ty(KU64))), x))
	case 3:
		el = tySt(mkSt(&Fd{Name: "I", Ignore: true, T: ty(KU32)}, fd("T", tyCu(cuTick))))
	case 4:
		el = tyArr(2, tyCu(cuTick))
	default:
		el = tyCu(cuTick)
	}
	el.Void = true
	nk := []K{KU8, KU16, KI16, KU32, KI64}[c.Int(5)]
	n := fd("N", ty(nk))
	f := fd("S", tySlice(el))
	s := mkSt(n, f)
	sized := c.Chance(1, 3)
	if sized {
		f.Size = id("N", mkOf(nk))
	} else if c.Chance(1, 2) {
		n.SizeOf = "S"
	} else {
		f.SizeFrom = "N"
	}
	if nk == KU32 && c.Chance(1, 2) {
		n.Bits = 12 + c.Int(19)
	}
	if c.Chance(1, 2) {
		s.Fields = append(s.Fields, fd("Z", ty(KU8)))
	}
	for _, x := range s.Fields {
		x.renderTag(c)
	}
	l := &Layout{Order: binary.BigEndian, Top: tySt(s)}
	if c.Chance(1, 2) {
		l.Order = binary.LittleEndian
	}
	l.Pass = passOrder(c, l.Order)
	c.Class("elements that occupy nothing")
	c.noteLayout(l)
	v := l.fresh()
	m := c.Len(255)
	v.Elem().Field(1).Set(reflect.MakeSlice(f.T.RT(), m, m))
	if sized {
		v.Elem().Field(0).Set(reflect.ValueOf(m).Convert(n.T.RT()))
	}
	d, _, bits, ok := c.checkPack(l, v)
	if !ok {
		panic("empty elements do not fit")
	}
	c.checkSizes(l, v, bits)
	c.checkUnpack(l, d, c.randomTarget(l))
	c.checkUnpack(l, d[:c.Int(len(d))], l.fresh())
}

// extraComputed computes widths and lengths that the field may not be able to have.
func extraComputed(c *C, l *Layout, g *gen, r allResult) {
	if c.Chance(1, 16) {
		notBoolean(c, l, false)
	}
	if !c.Chance(1, 4) {
		return
	}
	ak := []K{KU8, KI8, KU16, KI16, KI32, KI64, KU64}[c.Int(7)]
	a := fd("A", ty(ak))
	var e *Ex
	k := ilit(c.Int(6))
	switch c.Int(5) {
	case 0:
		e = id("A", mkOf(ak))
	case 1:
		e = bin("-", id("A", mkOf(ak)), k)
	case 2:
		e = bin("*", id("A", mkOf(ak)), k)
	case 3:
		e = cond(bin("<", id("A", mkOf(ak)), k), bin("-", ilit(3), id("A", mkOf(ak))), id("A", mkOf(ak)))
	default:
		e = bin("+", id("A", mkOf(ak)), ilit(c.Pick(3, 3, 1)*30))
	}
	f := fd("F", nil)
	width := 0
	if c.Chance(2, 3) {
		b := []K{KU8, KU16, KI16, KU32, KI32, KU64, KI64, KInt, KUint}[c.Int(9)]
		width = kWidth[b]
		f.T, f.BitsX = ty(b), e
		if c.Chance(1, 6) {
			f.T, f.B = ty(KBool), ty(b)
		}
	} else {
		f.Size = e
		f.T = []*Ty{ty(KStr), tySlice(ty(KU8)), tySlice(ty(KI16)), tySlice(ty(KBool))}[c.Int(4)]
	}
	s := mkSt(fd("P", ty(KU8)), a, f, fd("Z", ty(KU16)))
	if c.Chance(1, 2) {
		s.Fields[0].Bits = 1 + c.Int(7)
	}
	for _, x := range s.Fields {
		x.renderTag(c)
	}
	l2 := &Layout{Order: l.Order, Top: tySt(s)}
	aw := kWidth[ak]
	x := uint64(c.Int(12))
	switch c.Int(8) {
	case 0:
		x = -x
	case 1:
		x = uint64(kWidth[ak]) + x
	case 2:
		x = uint64(width) + x - 4
	case 3:
		x = c.U64(aw)
	}
	av := reflect.New(a.T.RT()).Elem()
	if ak.signed() {
		av.SetInt(int64(x<<uint(64-aw)) >> uint(64-aw))
	} else {
		av.SetUint(x << uint(64-aw) >> uint(64-aw))
	}
	v := l2.fresh()
	v.Elem().Field(1).Set(av)
	res := func(name string) (MV, bool) { return resolveIn([]reflect.Value{v.Elem()}, name) }
	if _, err := evalM(e, res); err != nil {
		panic(discard{"expression without value"})
	}
	n := evalInt(e, res)
	if f.BitsX != nil && n == 0 {
		panic(discard{"computed width of 0"})
	}
	if f.Size != nil && n > 0 && n < 300 {
		m := n
		if c.Chance(1, 5) {
			m += c.Int(3) - 1
		}
		if f.T.K == KStr {
			v.Elem().Field(2).SetString(string(make([]byte, m)))
		} else {
			v.Elem().Field(2).Set(reflect.MakeSlice(f.T.RT(), m, m))
		}
	}
	c.noteLayout(l2)
	_, _, bits, ok := c.checkPack(l2, v)
	c.ClassIf(f.BitsX != nil && ok, "computed width that fits")
	c.ClassIf(f.BitsX != nil && !ok, "computed width that does not fit")
	c.ClassIf(f.Size != nil && ok, "computed length that fits")
	c.ClassIf(f.Size != nil && !ok, "computed length that does not fit")
	switch {
	case ok:
		c.checkSizes(l2, v, bits)
	case f.BitsX != nil:
		if n, err := c.SizeOf(clone(v).Interface()); err == nil {
			c.Fail("SizeOf gave %d, but the computed value %s does not fit", n, show(v))
		}
		if n, err := c.BitSize(clone(v).Interface()); err == nil {
			c.Fail("BitSize gave %d, but the computed value %s does not fit", n, show(v))
		}
	}
	// the same value of A in input
	l3 := &Layout{Order: l2.Order, Top: tySt(mkSt(s.Fields[0], s.Fields[1]))}
	h := l3.fresh()
	h.Elem().Field(0).SetUint(c.U64(6) & 1)
	h.Elem().Field(1).Set(av)
	head, _, err := l3.encode(h)
	if err != nil {
		panic(err)
	}
	c.checkUnpack(l2, append(head, c.Bytes(c.Int(24))...), c.randomTarget(l2))
}

// notBoolean has a condition that is neither true nor false, which is always an error.
func notBoolean(c *C, l *Layout, loop bool) {
	ts := []reflect.Type{
		reflect.TypeOf(uint8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf([]uint16(nil)), reflect.TypeOf([2]int8{}),
		reflect.TypeOf(struct{ X, Y uint16 }{}), reflect.TypeOf((*uint8)(nil)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
	}
	x := []string{"A", "A + 1", "-A", "1", "0", "2.5", "'x'", "S", "A ? 1 : 0", "A > 1 ? A : A", "(A)", "T", "F[0]", "nil", "$'s'"}[c.Int(15)]
	if c.Chance(1, 3) {
		x = "A == 0 ? " + x + " : " + x
	}
	key, t := "if", ts[c.Int(len(ts))]
	if loop {
		key, t = "while", reflect.SliceOf(ts[c.Int(2)])
	}
	tag := "struct:" + strconv.Quote(key+"="+x)
	if c.Chance(1, 2) {
		tag = "struct-" + key + ":" + strconv.Quote(x)
	}
	fs := []reflect.StructField{
		{Name: "A", Type: ts[c.Int(2)]},
		{Name: "S", Type: reflect.TypeOf(""), Tag: `struct:"[2]byte"`},
		{Name: "T", Type: reflect.TypeOf(float32(0))},
		{Name: "F", Type: reflect.TypeOf([2]uint8{})},
		{Name: "X", Type: t, Tag: reflect.StructTag(tag)},
	}
	if c.Chance(1, 2) {
		fs = append(fs, reflect.StructField{Name: "Z", Type: reflect.TypeOf(uint8(0))})
	}
	v := reflect.New(reflect.StructOf(fs))
	if c.Chance(1, 4) { // inside another struct
		v = reflect.New(reflect.StructOf([]reflect.StructField{{Name: "In", Type: v.Type().Elem()}, {Name: "Q", Type: reflect.TypeOf(uint8(0))}}))
	}
	data := c.Bytes(c.Range(12, 40))
	if c.Chance(1, 2) {
		data[0], data[1], data[2], data[3] = 0, 0, 0, 0
	}
	c.Note("type   %s", v.Type())
	c.Note("input  %s", hexs(data))
	c.Class("condition that is not boolean")
	if err := c.Unpack(data, l.order(), v.Interface()); err == nil {
		c.Fail("Unpack accepted the condition %q, which is not boolean", x)
	}
	if loop { // only evaluated when elements are read
		return
	}
	v = reflect.New(v.Type().Elem())
	if b, err := c.Pack(l.order(), v.Interface()); err == nil {
		c.Fail("Pack gave %s with the condition %q, which is not boolean", hexs(b), x)
	}
	if n, err := c.SizeOf(v.Interface()); err == nil {
		c.Fail("SizeOf gave %d with the condition %q, which is not boolean", n, x)
	}
	if n, err := c.BitSize(v.Interface()); err == nil {
		c.Fail("BitSize gave %d with the condition %q, which is not boolean", n, x)
	}
}

// extraWhile cuts the input inside and between elements.
func extraWhile(c *C, l *Layout, g *gen, r allResult) {
	if c.Chance(1, 6) {
		loopArray(c)
	}
	if c.Chance(1, 16) {
		notBoolean(c, l, true)
	}
	if !r.dm.usedEOF || len(r.data) == 0 || !r.okU {
		return
	}
	c.Class("loop to the end of input")
	for i := 0; i < 4; i++ {
		c.checkUnpack(l, r.data[:c.Int(len(r.data))], c.randomTarget(l))
	}
	// more input means more elements
	c.checkUnpack(l, append(append([]byte{}, r.data...), c.Bytes(1+c.Int(12))...), l.fresh())
	unendingLoop(c, l, r.data)
}

// unendingLoop replaces the condition of a loop by one that does not end at the end of
// the input: reading on must fail.
func unendingLoop(c *C, l *Layout, data []byte) {
	if l.Top.K != KStruct || l.Top.St.Static != nil {
		return
	}
	var ctls []ctl
	for i, f := range l.Top.St.Fields {
		if f.While == nil {
			if f.takesPart() && !f.Blank && f.Name != "" && f.T.K.intk() && f.Switch == nil && f.Case == nil {
				ctls = append(ctls, ctl{path: f.Name, k: f.T.K})
			}
			continue
		}
		f2 := *f
		f2.While = lit("true", MV{K: MUBool, B: true})
		switch {
		case len(ctls) > 0 && c.Chance(1, 2):
			x := ctls[c.Int(len(ctls))]
			f2.While = bin("==", id(x.path, 0), id(x.path, 0))
		case c.Chance(1, 3):
			e := id("_eof", MBool)
			f2.While = bin("||", e, un("!", e))
		}
		f2.renderTag(c)
		s := &St{Fields: append([]*Fd{}, l.Top.St.Fields...)}
		s.Fields[i] = &f2
		l2 := &Layout{Order: l.Order, Pass: l.Pass, Top: tySt(s)}
		c.Class("loop that does not end with the input")
		c.checkUnpack(l2, data, l2.fresh())
		return
	}
}

// loopArray reads the elements of an array with a loop: elements beyond its end are an
// error, never written elsewhere.
func loopArray(c *C) {
	el := ty([]K{KU8, KU16, KI32, KU64, KI8}[c.Int(5)])
	w := int(el.RT().Size())
	n := c.Int(6)
	cond := []string{"!_eof", "_eof == false", "N == 1", "N != 1"}[c.Int(4)]
	tag := "struct:\"[]" + el.RT().String() + ",while=" + cond + "\""
	if c.Chance(1, 2) {
		tag = "struct:\"[]" + el.RT().String() + "\" struct-while:\"" + cond + "\""
	}
	typ := reflect.StructOf([]reflect.StructField{
		{Name: "N", Type: reflect.TypeOf(uint8(0))},
		{Name: "A", Type: reflect.ArrayOf(n, el.RT()), Tag: reflect.StructTag(tag)},
	})
	c.Class("loop that fills an array")
	c.Note("array  %s", typ)
	data := append([]byte{1}, c.Bytes(c.Int((n+2)*w))...)
	m := (len(data) - 1) / w // elements that are there
	want := -1               // elements that are read, if it is no error
	switch {
	case cond == "N != 1":
		want = 0
	case cond == "N == 1":
	case m <= n && (len(data)-1)%w == 0:
		want = m
	}
	l := &Layout{Order: binary.BigEndian, Top: tySt(mkSt(fd("N", ty(KU8)), fd("A", tyArr(n, el))))}
	got := reflect.New(typ)
	err := c.Unpack(data, l.order(), got.Interface())
	if want < 0 {
		if err == nil {
			c.Note("input  %s", hexs(data))
			c.Fail("Unpack of %s into %s succeeded with %s", hexs(data), typ, show(got.Elem()))
		}
		return
	}
	exp := l.fresh()
	if _, _, werr := l.decode(append(append([]byte{}, data[:1+want*w]...), make([]byte, (n-want)*w)...), exp); werr != nil {
		panic(werr)
	}
	if s := diff(got.Elem().Field(1), exp.Elem().Field(1)); err != nil || s != "" {
		c.Note("input  %s", hexs(data))
		c.Fail("Unpack of %s into %s: error %v; %s", hexs(data), typ, err, s)
	}
	exp.Elem().Field(0).SetUint(1)
	wd, _, werr := l.encode(clone(exp))
	if werr != nil {
		panic(werr)
	}
	if d, err := c.Pack(l.order(), got.Interface()); err != nil || !bytes.Equal(d, wd) {
		c.Fail("Pack of %s gave %s, %v instead of %s", show(got), hexs(d), err, hexs(wd))
	}
}

// extraTransform computes values from other fields, of kinds that have to be converted.
func extraTransform(c *C, l0 *Layout, g0 *gen, r allResult) {
	if !c.Chance(1, 2) {
		return
	}
	a := fd("A", ty(intKinds[c.Int(10)]))
	g := fd("G", ty([]K{KF32, KF64}[c.Int(2)]))
	z := fd("Z", ty(intKinds[c.Int(10)]))
	f := fd("F", nil)
	switch c.Pick(4, 2, 1, 1, 1) {
	case 0:
		b := intKinds[c.Int(10)]
		f.T = ty(b)
		if c.Chance(1, 3) { // a wider type in memory
			f.B, f.T = ty(b), ty([]K{KU64, KI64}[btoi(b.signed())])
		}
		if b != KI8 && kWidth[b] > 1 && c.Chance(1, 4) {
			if f.B == nil {
				f.B = ty(b)
			}
			f.Bits = c.Range(1, kWidth[b]-1)
		}
	case 1:
		f.T = ty([]K{KF32, KF64}[c.Int(2)])
	case 2:
		f.T = ty(KBool)
		f.Variant, f.Invert = c.Chance(1, 3), c.Chance(1, 3)
		if c.Chance(1, 2) {
			f.B = ty(intKinds[c.Int(10)])
		}
	case 3:
		f.T, f.B = ty(KStr), tyArr(c.Range(3, 8), ty(KU8))
		f.SVals = []string{"", "a", "abc", "b\x00"}
	default:
		f.T = ty([]K{KC64, KC128}[c.Int(2)])
	}
	h := fd("H", &Ty{K: f.T.K})
	if f.T.K == KStr {
		h.T, h.B, h.SVals = ty(KStr), tyArr(3, ty(KU8)), []string{"", "xy", "xyz"}
	}
	all := []*Fd{a, g, h, f, z}
	if c.Chance(1, 2) { // what the transform reads may stand behind
		all = []*Fd{a, f, g, z, h}
	}
	for _, x := range all {
		if c.Chance(1, 8) && (x.T.K.intk() || x.T.K <= KC128) {
			x.Skip = c.Int(3)
		}
		if c.Chance(1, 6) {
			x.Order = []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[c.Int(2)]
		}
	}
	// small: results that every integer type can be converted from
	var boolean func(d int) *Ex
	var num func(d int, float bool) *Ex
	num = func(d int, float bool) *Ex {
		ints := []*Fd{a, z}
		floats := []*Fd{g}
		if f.T.K.intk() {
			ints = append(ints, f, h, f)
		} else if f.T.K == KF32 || f.T.K == KF64 {
			floats = append(floats, f, h, f)
		}
		pick := func(s []*Fd) *Ex { x := s[c.Int(len(s))]; return id(x.Name, mkOf(x.T.K)) }
		if float {
			switch c.Int(4) {
			case 0:
				return lit("2.5", MV{K: MUFloat, F: 2.5})
			case 1:
				return bin(c.OneOf("+", "*"), pick(floats), lit("1.5", MV{K: MUFloat, F: 1.5}))
			}
			return pick(floats)
		}
		switch c.Int(7) {
		case 0:
			return ilit(c.Int(100))
		case 1:
			return bin(c.OneOf("+", "-", "*", "&", "|", "^"), pick(ints), ilit(1+c.Int(20)))
		case 2:
			x := pick(ints)
			return bin(c.OneOf("+", "*", "^", "<<", ">>", "&^"), x, ilit(c.Int(5)))
		case 3:
			x := ints[c.Int(len(ints))]
			if k := x.T.K; k.uns() && k != KUint {
				return call(dot(id("bits", MNone), c.OneOf("Len", "OnesCount", "Reverse")+fmt.Sprint(kWidth[k])), id(x.Name, mkOf(k)))
			}
			return un(c.OneOf("-", "^"), id(x.Name, mkOf(x.T.K)))
		case 4:
			if d > 0 {
				return cond(boolean(d-1), num(d-1, false), num(d-1, false))
			}
		}
		return pick(ints)
	}
	boolean = func(d int) *Ex {
		if f.T.K == KBool && c.Chance(1, 2) {
			x := id(c.OneOf("F", "H"), MBool)
			if c.Chance(1, 2) {
				return un("!", x)
			}
			return x
		}
		if d > 0 && c.Chance(1, 4) {
			return bin(c.OneOf("&&", "||"), boolean(d-1), boolean(d-1))
		}
		return bin(c.OneOf("==", "!=", "<", ">="), id(c.OneOf("A", "Z"), MNone), ilit(c.Int(4)))
	}
	expr := func() *Ex {
		switch k := f.T.K; {
		case k == KBool:
			return boolean(2)
		case k == KStr:
			x := []*Ex{id("F", MString), id("H", MString), slit("pq"), bin("+", id("F", MString), slit("+")), bin("+", slit("r"), id("H", MString))}
			return cond(boolean(1), x[c.Int(5)], x[c.Int(5)])
		case !k.scalar() || k == KC64 || k == KC128:
			return cond(boolean(1), id("F", MNone), id("H", MNone))
		case k == KF32 || k == KF64:
			return num(2, c.Chance(1, 2))
		}
		return num(2, c.Chance(1, 4))
	}
	if c.Chance(3, 4) {
		f.In = expr()
	}
	if f.In == nil || c.Chance(3, 4) {
		f.Out = expr()
	}
	for _, x := range all {
		x.renderTag(c)
	}
	l := &Layout{Order: binary.BigEndian, Top: tySt(mkSt(all...))}
	if c.Chance(1, 2) {
		l.Order = binary.LittleEndian
	}
	// the bytes: a value without transforms
	lp := copyLayout(l, map[*St]*St{})
	for _, x := range lp.Top.St.Fields {
		x.In, x.Out, x.tag = nil, nil, ""
	}
	_, v0, _ := lp.genInput(c)
	v0.Elem().FieldByName("G").SetFloat([]float64{0, 1, 2.5, 7.75, 100, 31.5}[c.Int(6)])
	if c.Chance(1, 2) {
		v0.Elem().FieldByName("A").Set(reflect.ValueOf(c.Int(4)).Convert(a.T.RT()))
	}
	data, _, err := lp.encode(clone(v0))
	if err != nil {
		panic(discard{"transform base value"})
	}
	v := convert(l, v0)
	if k := f.T.K; k == KF32 || k == KF64 {
		// only what the float holds is converted, so that it need not fit
		if x := v.Elem().FieldByName("F"); x.Float() != x.Float() {
			x.SetFloat(0)
		}
	}
	c.noteLayout(l)
	c.Class("transform over other fields")
	if _, ok := c.checkUnpack(l, data, l.fresh()); ok {
		t := c.randomTarget(l)
		t.Elem().FieldByName("G").SetFloat(2.5)
		c.checkUnpack(l, data, t)
	}
	_, _, bits, ok := c.checkPack(l, v)
	if ok {
		c.checkSizes(l, v, bits)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// extraSwitch selects by all kinds of expressions, compared with all kinds of cases.
func extraSwitch(c *C, l0 *Layout, g0 *gen, r allResult) {
	if !c.Chance(1, 3) {
		return
	}
	k := intKinds[c.Int(10)]
	a, b := fd("A", ty(k)), fd("B", ty(k))
	a.Max, b.Max = 3, 3
	if c.Chance(1, 4) {
		a.Max, b.Max = 0, 0
	}
	w := fd("W", ty(intKinds[c.Int(10)]))
	w.Max = 3
	t := fd("T", ty(KBool))
	s := fd("S", ty(KStr))
	s.B = tyArr(2, ty(KU8))
	s.SVals = []string{"", "a", "ab", "b"}
	fl := fd("L", ty([]K{KF32, KF64}[c.Int(2)]))
	p := fd("P", tyPtr(ty(KU8)))
	p.T.Elem.Named = false
	nm := func(f *Fd) *Ex { return id(f.Name, mkOf(f.T.K)) }
	var num func(d int) *Ex
	num = func(d int) *Ex {
		switch c.Int(7) {
		case 0:
			return bin(c.OneOf("+", "-", "&", "^", "|", "*"), nm(a), ilit(c.Int(4)))
		case 1:
			return bin(c.OneOf("+", "-", "&", "^"), nm(a), nm(b))
		case 2:
			if d > 0 {
				return cond(bin(c.OneOf("<", "==", ">="), nm(w), ilit(c.Int(3))), num(d-1), num(d-1))
			}
		case 3:
			return nm(b)
		case 4:
			return bin(c.OneOf(">>", "<<", "%", "&^"), nm(a), ilit(1+c.Int(2)))
		}
		return nm(a)
	}
	kind := c.Pick(6, 2, 2, 1, 1, 1)
	value := func(on bool) *Ex {
		switch kind {
		case 0: // numbers
			if c.Chance(1, 8) {
				return ilit(c.Int(4)) // untyped
			}
			return num(2)
		case 1: // conditions
			return []*Ex{id("T", MBool), un("!", id("T", MBool)), bin("<", nm(a), ilit(2)), bin("==", nm(a), nm(b)), bin("&&", id("T", MBool), bin("!=", nm(w), ilit(1)))}[c.Int(5)]
		case 2: // strings
			return []*Ex{id("S", MString), bin("+", id("S", MString), slit("a")), slit("a"), cond(id("T", MBool), slit("ab"), id("S", MString))}[c.Int(4)]
		case 3: // floats
			return []*Ex{nm(fl), bin("+", nm(fl), lit("1.5", MV{K: MUFloat, F: 1.5})), bin("*", nm(fl), ilit(2))}[c.Int(3)]
		case 4: // through a pointer
			return bin("+", un("*", id("P", MNone)), ilit(c.Int(2)))
		}
		x := nm(a)
		if a.T.K.uns() && a.T.K != KUint {
			x = call(dot(id("bits", MNone), "Len"+fmt.Sprint(kWidth[a.T.K])), x)
		}
		return x
	}
	against := func() *Ex {
		switch kind {
		case 1:
			if c.Chance(1, 2) {
				e := lit(c.OneOf("true", "false"), MV{K: MUBool})
				e.V.B = e.S == "true"
				return e
			}
		case 2:
			if c.Chance(2, 3) {
				return slit(s.SVals[c.Int(4)])
			}
		case 3:
			if c.Chance(2, 3) {
				return []*Ex{ilit(0), ilit(2), lit("1.5", MV{K: MUFloat, F: 1.5}), lit("0.0", MV{K: MUFloat})}[c.Int(4)]
			}
		default:
			switch c.Int(6) {
			case 0:
				return value(false)
			case 1:
				if c.Chance(1, 4) {
					return nm(w) // comparable only if it has the same type
				}
			}
			return ilit(c.Int(5))
		}
		return value(false)
	}
	sw := fd("X", tySt(&St{}))
	sw.Switch = value(true)
	n := 1 + c.Int(5)
	def := c.Int(2*n + 1)
	for i := 0; i < n; i++ {
		cf := fd(fmt.Sprintf("C%d", i), []*Ty{ty(KU8), ty(KU16), ty(KI32), ty(KU64), tyArr(3, ty(KU8)), tySt(mkSt(fd("Q", ty(KU8)), fd("R", ty(KI32)))), tyPtr(ty(KU16)), tyArr(0, ty(KU8))}[c.Int(8)])
		if i == def {
			cf.Default = true
		} else {
			cf.Case = against()
		}
		if c.Chance(1, 5) {
			cf.Skip = 1 + c.Int(2)
		}
		if c.Chance(1, 5) {
			cf.Order = []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[c.Int(2)]
		}
		if c.Chance(1, 8) {
			cf.If = bin(c.OneOf("<", "!="), nm(w), ilit(c.Int(3)))
		}
		sw.T.St.Fields = append(sw.T.St.Fields, cf)
	}
	z := fd("Z", ty(KU16))
	all := []*Fd{a, b, w, t, s, fl, p, sw, z}
	for _, x := range all {
		x.renderTag(c)
	}
	for _, x := range sw.T.St.Fields {
		x.renderTag(c)
	}
	l := &Layout{Order: binary.BigEndian, Top: tySt(mkSt(all...))}
	if c.Chance(1, 2) {
		l.Order = binary.LittleEndian
	}
	c.Class("switch on any expression")
	// the head of the input is a value without the switch; what follows is random
	h := &Layout{Order: l.Order, Top: tySt(mkSt(all[:7]...))}
	_, hv, _ := h.genInput(c)
	hv.Elem().FieldByName("L").SetFloat([]float64{0, 1, 1.5, -1.5, 2}[c.Int(5)])
	data, _, err := h.encode(clone(hv))
	if err != nil {
		panic(discard{"switch head"})
	}
	data = append(data, c.Bytes(40)...)
	c.noteLayout(l)
	got, ok := c.checkUnpack(l, data, c.randomTarget(l))
	if !ok {
		// every call has to refuse
		v := l.fresh()
		for i := 0; i < 7; i++ {
			v.Elem().Field(i).Set(hv.Elem().Field(i))
		}
		c.checkPack(l, v)
		return
	}
	_, _, bits, okP := c.checkPack(l, got)
	if !okP {
		return
	}
	c.checkSizes(l, got, bits)
	// other cases hold values as well
	v := c.randomTarget(l)
	for i := 0; i < 7; i++ {
		v.Elem().Field(i).Set(got.Elem().Field(i))
	}
	if _, _, bits, ok := c.checkPack(l, v); ok {
		c.checkSizes(l, v, bits)
	}
}
