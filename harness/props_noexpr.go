package main

// C29: expressions stay off until they are enabled.

import (
	"bytes"
	"reflect"

	"github.com/go-restruct/restruct"
)

func init() {
	register(&Prop{ID: "C29", NoExpr: true, Shards: 2400, Quick: 1, Thor: 1, Run: runC29,
		Rule: "a fresh process per case: a sequence of layouts, with and without expressions, is packed, unpacked and measured while expressions are off (the reference model says which calls come to an expression), then expressions are enabled (once or more) and the same layouts and new ones are used again; non-trivial: calls that had to fail and calls that had to work were both seen",
		Tech: "property-based testing: histories in fresh processes against a reference model"})
}

type offCase struct {
	l    *Layout
	data []byte
	v    reflect.Value
}

func runC29(c *C) {
	var cs []offCase
	n := 1
	switch c.Pick(1, 2, 6) {
	case 1:
		n += c.Int(6)
	case 2:
		n += 10 + c.Int(30)
	}
	refused, worked := 0, 0
	for i := 0; i < n; i++ {
		oc, ok := c.offLayout()
		if !ok {
			continue
		}
		cs = append(cs, oc)
		c.whileOff(oc, &refused, &worked)
		// the same type again: now it is cached
		if c.Chance(1, 3) {
			c.whileOff(oc, &refused, &worked)
		}
	}
	if len(cs) == 0 {
		c.Discard("no layout has a meaning")
	}
	for i := 1 + c.Pick(3, 1, 1); i > 0; i-- {
		restruct.EnableExprBeta()
	}
	old := len(cs)
	for i := c.Int(4); i > 0; i-- {
		if oc, ok := c.offLayout(); ok {
			cs = append(cs, oc)
		}
	}
	for i, oc := range cs {
		c.notes = nil
		c.noteLayout(oc.l)
		if i < old {
			c.Note("(used before expressions were enabled)")
		}
		if _, _, err := oc.l.encode(clone(oc.v)); err == nil {
			_, _, bits, ok := c.checkPack(oc.l, oc.v)
			if ok {
				c.checkSizes(oc.l, oc.v, bits)
			}
		}
		c.checkUnpack(oc.l, oc.data, oc.l.fresh())
		if c.Chance(1, 8) {
			restruct.EnableExprBeta()
		}
	}
	c.ClassIf(refused > 0, "calls that need an expression")
	c.ClassIf(worked > 0, "calls that need no expression")
	c.ClassIf(len(cs) > old, "types first seen after enabling")
	if refused > 0 && worked > 0 {
		c.NonTrivial()
	}
}

// offLayout makes a layout, an input and its value.
func (c *C) offLayout() (oc offCase, ok bool) {
	may := FAll | FLeafTop | FNarrow
	switch c.Pick(4, 2, 2) {
	case 1: // hardly any expressions
		may &^= FBitsX | FSizeX | FIf | FSwitch | FWhile | FInOut
	case 2: // conditional parts and counted ones
		may &^= FSizeX | FInOut | FBitsX
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(discard); !is {
				panic(r)
			}
			ok = false
		}
	}()
	l, _ := newLayout(c, may, 0)
	data, v, _ := l.genInput(c)
	if c.Chance(1, 3) {
		c.vary(l, v, vNil|vShort|vJunk|vLen|vCounter)
	}
	return offCase{l, data, v}, true
}

// needs tells how many expressions the model evaluates in f.
func needs(f func()) (all, size int64) {
	a, s := exprEvals, exprSizeEvals
	f()
	return exprEvals - a, exprSizeEvals - s
}

// whileOff uses a layout while expressions are off.
func (c *C) whileOff(oc offCase, refused, worked *int) {
	c.notes = nil
	l := oc.l
	c.noteLayout(l)
	c.Note("value  %s", show(oc.v))
	c.Note("bytes  %s", hexs(oc.data))

	want := l.fresh()
	var werr error
	all, _ := needs(func() { _, _, werr = l.decode(oc.data, want) })
	got := l.fresh()
	err := c.Unpack(oc.data, l.order(), got.Interface())
	switch {
	case all > 0:
		*refused++
		if err == nil {
			c.Fail("expressions are off: Unpack comes to an expression and succeeds with %s", show(got))
		}
	case werr != nil:
		if err == nil {
			c.Fail("expressions are off: Unpack succeeded with %s; expected an error: %v", show(got), werr)
		}
	case err != nil:
		c.Fail("expressions are off: Unpack comes to no expression, but failed: %v", err)
	default:
		*worked++
		if s := diff(got.Elem(), want.Elem()); s != "" {
			c.Fail("expressions are off: Unpack: %s", s)
		}
	}

	want = clone(oc.v)
	var wdata []byte
	var bits int
	all, size := needs(func() { wdata, bits, werr = l.encode(want) })
	if werr != nil && all == 0 {
		return
	}
	got = clone(oc.v)
	data, err := c.Pack(l.order(), got.Interface()) // fails if there is data with an error
	switch {
	case all > 0:
		*refused++
		if err == nil {
			c.Fail("expressions are off: Pack comes to an expression and gives %s", hexs(data))
		}
	case err != nil:
		c.Fail("expressions are off: Pack comes to no expression, but failed: %v", err)
	default:
		*worked++
		if !bytes.Equal(data, wdata) {
			c.Fail("expressions are off: Pack gave %s, the layout says %s", hexs(data), hexs(wdata))
		}
		if s := diff(got.Elem(), want.Elem()); s != "" {
			c.Fail("expressions are off: value after Pack: %s", s)
		}
	}
	if werr != nil {
		return
	}
	for i, f := range []func(interface{}) (int, error){c.BitSize, c.SizeOf} {
		name, exp := []string{"BitSize", "SizeOf"}[i], []int{bits, (bits + 7) / 8}[i]
		n, err := f(clone(oc.v).Interface())
		switch {
		case size > 0:
			*refused++
			if err == nil {
				c.Fail("expressions are off: the size depends on an expression, but %s gave %d", name, n)
			}
		case err == nil:
			*worked++
			if n != exp {
				c.Fail("expressions are off: %s gave %d; the layout occupies %d bits", name, n, bits)
			}
		case all == 0:
			c.Fail("expressions are off: %s comes to no expression, but failed: %v", name, err)
		}
		if err != nil && n != 0 {
			c.Fail("%s returned both an error (%v) and %d", name, err, n)
		}
	}
}
