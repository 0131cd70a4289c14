package main

// C01 to C04: the whole layout language at once.

import (
	"bytes"
	"reflect"
)

// nonTrivialLayout: more than one field or a nested type, and some payload.
func (c *C) nonTrivialLayout(l *Layout, data []byte) {
	if len(data) > 0 && (l.Top.K != KStruct || countFields(l.Top, map[*St]bool{}) > 1) {
		c.NonTrivial()
	}
}

const layoutRule = "a type is generated from the whole tag language (kinds, nesting, casts, bit-fields, counters, padding, skips, orders, conditions, switches, loops, transforms, custom codecs, references; features switched on and off per case), then an input and the value it stands for; "

func init() {
	register(&Prop{ID: "C01", Rule: layoutRule + "non-trivial: packing gave at least one byte and the type has more than one field or is no struct",
		Quick: 40000, Thor: 400000, Run: runC01, Tech: "property-based testing: generated types and values, round trip"})
	register(&Prop{ID: "C02", Rule: layoutRule + "the value is then varied (nil pointers, short contents, junk in what does not take part, wrong counters, wide bit-fields); non-trivial: as C01",
		Quick: 40000, Thor: 400000, Run: runC02, Tech: "property-based testing: differential against a reference encoder"})
	register(&Prop{ID: "C03", Rule: layoutRule + "inputs are non-canonical, or plain random bytes, with trailing data, into fresh or pre-filled targets; non-trivial: as C01 and the model accepts the input",
		Quick: 40000, Thor: 400000, Run: runC03, Tech: "property-based testing: differential against a reference decoder"})
	register(&Prop{ID: "C04", Rule: layoutRule + "values are varied as in C02; non-trivial: as C01",
		Quick: 40000, Thor: 400000, Run: runC04, Tech: "property-based testing: sizes against a reference model, the packed length and the shortest accepted input"})
}

func runC01(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FZeroEl|FNarrow, 0)
	_, v, _ := l.genInput(c)
	c.noteLayout(l)
	c.vary(l, v, vLen|vCounter)
	c.Note("value  %s", show(v))
	p1 := clone(v)
	b1, err := c.Pack(l.order(), p1.Interface())
	if err != nil {
		c.Fail("Pack failed: %v", err)
	}
	c.Note("bytes  %s", hexs(b1))
	u := l.fresh()
	if err := c.Unpack(b1, l.order(), u.Interface()); err != nil {
		c.Fail("Unpack of packed bytes failed: %v", err)
	}
	if s := diff(u.Elem(), p1.Elem()); s != "" {
		c.Fail("round trip: %s\nunpacked %s", s, show(u))
	}
	b2, err := c.Pack(l.order(), u.Interface())
	if err != nil || !bytes.Equal(b1, b2) {
		c.Fail("second Pack gave %s, %v", hexs(b2), err)
	}
	c.classLayout(l, g)
	c.nonTrivialLayout(l, b1)
}

func runC02(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FZeroEl|FNarrow, 0)
	_, v, _ := l.genInput(c)
	c.noteLayout(l)
	n := 0
	if c.Chance(2, 3) {
		n = c.vary(l, v, vAll)
	}
	data, _, _, ok := c.checkPack(l, v)
	c.Note("value  %s", show(v))
	c.Note("bytes  %s", hexs(data))
	c.classLayout(l, g)
	c.ClassIf(n > 0, "varied value")
	c.ClassIf(!ok, "value does not fit")
	if ok {
		c.nonTrivialLayout(l, data)
	}
}

// randomTarget is a fresh target or one full of other things.
func (c *C) randomTarget(l *Layout) reflect.Value {
	t := l.fresh()
	if c.Chance(1, 3) {
		scramble(c, t.Elem(), 0)
	}
	return t
}

func runC03(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FNarrow, 0)
	c.noteLayout(l)
	var data []byte
	random := c.Chance(1, 3)
	if random {
		data = c.Bytes(c.Len(600))
	} else {
		d, _, dm := l.genInput(c)
		data = d
		if !dm.usedEOF && c.Chance(1, 2) {
			data = append(data[:len(data):len(data)], c.Bytes(1+c.Int(5))...)
			c.Class("trailing data")
		}
	}
	keep := append([]byte{}, data...)
	got, ok := c.checkUnpack(l, data, c.randomTarget(l))
	if !bytes.Equal(keep, data) {
		c.Fail("the input was modified")
	}
	c.Note("input  %s", hexs(data))
	c.ClassIf(!ok, "input too short or rejected")
	c.ClassIf(random, "random bytes")
	if !ok {
		return
	}
	c.Note("value  %s", show(got))
	out, _, _, _ := c.checkPack(l, got)
	c.Note("packed %s", hexs(out))
	c.classLayout(l, g)
	c.nonTrivialLayout(l, data)
}

func runC04(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FZeroEl|FNarrow, 0)
	_, v, dm := l.genInput(c)
	c.noteLayout(l)
	varied := 0
	if c.Chance(1, 2) {
		varied = c.vary(l, v, vNil|vShort|vJunk|vLen|vWide)
	}
	c.Note("value  %s", show(v))
	want := clone(v)
	_, bits, werr := l.encode(want)
	if werr != nil {
		c.Discard("value does not fit")
	}
	c.checkSizes(l, v, bits)
	p := clone(v)
	data, err := c.Pack(l.order(), p.Interface())
	if err != nil {
		c.Fail("Pack failed: %v", err)
	}
	if len(data) != (bits+7)/8 {
		c.Fail("Pack gave %d bytes; the layout occupies %d bits", len(data), bits)
	}
	c.classLayout(l, g)
	c.ClassIf(varied > 0, "varied value")
	c.nonTrivialLayout(l, data)
	if varied > 0 || dm.usedEOF {
		return
	}
	if err := c.Unpack(data, l.order(), l.fresh().Interface()); err != nil {
		c.Fail("Unpack of exactly the packed bytes failed: %v", err)
	}
	if len(data) > 0 {
		if err := c.Unpack(data[:len(data)-1], l.order(), l.fresh().Interface()); err == nil {
			c.Fail("Unpack of one byte less succeeded")
		}
	}
}
