package main

// C08: hostile or truncated input; C09: values that do not fit; C21: histories.

import (
	"bytes"
	"reflect"
	"runtime"
)

func init() {
	register(&Prop{ID: "C08", Quick: 25000, Thor: 250000, Run: runC08,
		Rule: "a generated type is given truncations of a valid input (at and around every field start), inputs whose counters are replaced by extreme values, and random bytes, placed inside a larger buffer; non-trivial: at least one input was rejected and the type has more than one field",
		Tech: "property-based testing and fuzzing: truncated, corrupted and random inputs, differential against a reference decoder that knows which inputs are complete",
		Assumptions: []string{
			"counts are only extreme for elements that occupy at least one bit"}})
	register(&Prop{ID: "C09", Quick: 9000, Thor: 150000, Run: runC09,
		Rule: "a generated value is made not to fit (long contents of fixed arrays, lengths at and beyond the range of their counter, lengths unlike their size expression, values a codec refuses); afterwards the original value is packed; non-trivial: the model rejects the value",
		Tech: "property-based testing: generated misfits, differential against a reference encoder that says whether the value fits"})
	register(&Prop{ID: "C21", Quick: 8000, Thor: 150000, Run: runC21,
		Rule: "a history of 3 to 14 operations (pack, unpack, size; valid, truncated and misfit) over 1 to 4 generated types and a few shared targets, each result compared with the model of that call alone, plus sharing checks; non-trivial: at least 4 operations, one of which failed and one succeeded",
		Tech: "stateful property-based testing: generated call histories against a stateless reference model"})
}

// fenced puts data into a larger buffer.
type fenced struct {
	big, keep []byte
	in        []byte
}

func (c *C) fence(data []byte) *fenced {
	pre, post := c.Int(4), c.Int(40)
	big := make([]byte, pre+len(data)+post)
	fill := byte(c.U64(8))
	for i := range big {
		big[i] = fill + byte(i)*byte(c.thorN())
	}
	copy(big[pre:], data)
	return &fenced{big: big, keep: append([]byte{}, big...), in: big[pre : pre+len(data)]}
}

func (c *C) thorN() int { return 1 }

func (c *C) checkFenced(l *Layout, data []byte, target reflect.Value) bool {
	f := c.fence(data)
	_, ok := c.checkUnpack(l, f.in, target)
	if !bytes.Equal(f.big, f.keep) {
		c.Note("input  %s", hexs(data))
		c.Fail("Unpack modified its input or the bytes around it")
	}
	return ok
}

func setBits(b []byte, pos, width int, x uint64) {
	for i := 0; i < width; i++ {
		p := pos + i
		bit := byte(x >> uint(width-1-i) & 1)
		if p/8 < len(b) {
			b[p/8] = b[p/8]&^(1<<uint(7-p%8)) | bit<<uint(7-p%8)
		}
	}
}

func runC08(c *C) {
	must := Feat(0)
	if c.Chance(1, 2) {
		must = FCount | FSlice | FStr | FSizeX
	}
	l, g := newLayout(c, FAll|FLeafTop|FNarrow, must)
	c.noteLayout(l)
	rejected := 0
	try := func(b []byte) {
		if !c.checkFenced(l, b, c.randomTarget(l)) {
			rejected++
		}
	}
	data, _, dm := l.genInput(c)
	switch c.Pick(4, 3, 2) {
	case 0:
		c.Class("truncated input")
		c.checkFenced(l, data, c.randomTarget(l))
		n := 6
		if c.thor {
			n = 16
		}
		for i := 0; i < n && len(data) > 0; i++ {
			cut := c.Int(len(data))
			if len(dm.marks) > 0 && c.Chance(2, 3) {
				cut = dm.marks[c.Int(len(dm.marks))]/8 - 1 + c.Int(3)
			}
			if cut >= 0 && cut < len(data) {
				try(data[:cut])
			}
		}
		if len(data) > 0 {
			try(data[:len(data)-1])
		}
		try(nil)
	case 1:
		if dm.usedEOF && l.Top.K == KStruct && len(data) > 0 {
			unendingLoop(c, l, data)
		}
		if len(dm.counts) == 0 {
			c.Discard("no counter to corrupt")
		}
		c.Class("extreme counter")
		for i := 0; i < 4; i++ {
			m := dm.counts[c.Int(len(dm.counts))]
			b := append([]byte{}, data...)
			var x uint64
			switch c.Int(6) {
			case 0:
				x = mask(^uint64(0), m.width)
			case 1:
				x = mask(^uint64(0), m.width) >> 1
			case 2:
				x = 1 << uint(m.width-1)
			case 3:
				x = uint64(len(data) + c.Int(3) - 1)
			case 4:
				x = uint64(1) << uint(c.Int(m.width))
			default:
				x = c.U64(m.width)
			}
			pos := m.at
			for _, p := range pieces(m.width, m.ord) {
				setBits(b, pos, p[1], x>>uint(p[0]))
				pos += p[1]
			}
			var m1, m2 runtime.MemStats
			measure := i == 0
			if measure {
				runtime.ReadMemStats(&m1)
			}
			try(b)
			if measure {
				runtime.ReadMemStats(&m2)
				if d := m2.TotalAlloc - m1.TotalAlloc; d > 1<<30 {
					c.Note("input  %s", hexs(b))
					c.Fail("Unpack of %d bytes allocated %d MB", len(b), d>>20)
				}
			}
		}
	default:
		if c.Chance(1, 8) {
			loopArray(c)
		}
		c.Class("random bytes")
		for i := 0; i < 4; i++ {
			try(c.Bytes(c.Len(300)))
		}
	}
	c.classLayout(l, g)
	c.ClassIf(rejected > 0, "some input rejected")
	if rejected > 0 && countFields(l.Top, map[*St]bool{}) > 1 {
		c.NonTrivial()
	}
}

func runC09(c *C) {
	l, g := newLayout(c, FAll|FLeafTop|FNarrow, FCount|FStr|FCustom|FSizeX)
	if l.Top.K == KStruct && l.Top.St.Static == nil {
		c.addBounded(l.Top.St)
	}
	c.noteLayout(l)
	_, v, _ := l.genInput(c)
	for i := 0; i < 4; i++ {
		w := clone(v)
		n := 0
		for j := 0; j < 4 && n == 0; j++ {
			n = c.vary(l, w, vMisfit|vNil)
		}
		if n == 0 {
			c.Discard("nothing that could not fit")
		}
		_, bits, werr := l.encode(clone(w))
		if werr != nil {
			c.NonTrivial()
			c.Class("value does not fit")
		}
		c.Note("value  %s", show(w))
		c.checkPack(l, w)
		if werr == nil {
			c.checkSizes(l, w, bits)
		} else {
			c.BitSize(clone(w).Interface())
			c.SizeOf(clone(w).Interface())
		}
		if i%2 == 0 {
			c.checkPack(l, v)
		}
	}
	c.classLayout(l, g)
}

// addBounded inserts a field whose contents can fail to fit (whole bytes, so that
// nothing after it moves to another bit offset).
func (c *C) addBounded(s *St) {
	at := c.Int(len(s.Fields) + 1)
	var fs []*Fd
	n := c.Int(5)
	if c.Chance(1, 3) {
		n = 0
	}
	switch c.Int(6) {
	case 0:
		fs = []*Fd{{Name: "Mx", T: ty(KStr), B: tyArr(n, ty(KU8))}}
	case 1:
		k := []K{KU8, KU16, KI32, KF32, KU64}[c.Int(5)]
		fs = []*Fd{{Name: "Mx", T: tySlice(ty(k)), B: tyArr(n, ty(k))}}
	case 2:
		fs = []*Fd{{Name: "Mx", T: ty(KU8), Bits: 0, SizeOf: "My"}, {Name: "My", T: tySlice(ty(KU8))}}
		switch c.Int(4) {
		case 0:
			fs[0].T = ty(KI8)
		case 1:
			fs[1].T = ty(KStr)
		case 2: // the counter is a bit-field, the rest of its byte another
			fs[0].Bits = c.Range(1, 7)
			fs = []*Fd{fs[0], {Name: "Mz", T: ty(KU8), Bits: 8 - fs[0].Bits}, fs[1]}
		case 3: // the counter is narrower than what is stored
			fs[0].T, fs[0].B = ty([]K{KU8, KU16}[c.Int(2)]), ty(KU16)
		}
	case 3:
		fs = []*Fd{{Name: "My", T: ty(KU8), Max: 3, refd: true}, {Name: "Mx", T: tySlice(ty(KU16)), Size: id("My", 0)}}
		if c.Chance(1, 2) {
			fs[1].T = ty(KStr)
		}
	case 4:
		fs = []*Fd{{Name: "My", T: ty(KU8), SizeOf: "Mx"}, {Name: "Mx", T: tySlice(tyCu(cuErr))}}
	default:
		fs = []*Fd{{Name: "Mx", T: tyArr(2, tySt(mkSt(&Fd{Name: "A", T: ty(KStr), B: tyArr(n, ty(KU8)), Order: ordOf(c.Chance(1, 2))}, &Fd{Name: "B", T: ty(KU16)})))}}
	}
	s.Fields = append(s.Fields[:at:at], append(fs, s.Fields[at:]...)...)
	if at < len(s.Fields)-len(fs) && c.Chance(1, 2) {
		return
	}
	// while loops to the end of input stay last
	if last := s.Fields[len(s.Fields)-1]; last.Name == fs[len(fs)-1].Name && at > 0 && s.Fields[at-1].While != nil {
		w := s.Fields[at-1]
		copy(s.Fields[at-1:], s.Fields[at:])
		s.Fields[len(s.Fields)-1] = w
	}
}

func runC21(c *C) {
	n := 1 + c.Int(4)
	type state struct {
		l      *Layout
		data   []byte
		v      reflect.Value
		target reflect.Value
		eof    bool
	}
	var sts []*state
	for i := 0; i < n; i++ {
		l, _ := newLayout(c, FAll|FLeafTop|FNarrow, 0)
		if c.Chance(1, 12) { // bytes at the top level: they could be handed out as they are
			l.Top = []*Ty{tyArr(1+c.Int(20), ty(KU8)), tyArr(1+c.Int(20), ty(KI8))}[c.Int(2)]
			l.Top.Named = c.Chance(1, 3)
		}
		data, v, dm := l.genInput(c)
		c.noteLayout(l)
		sts = append(sts, &state{l: l, data: data, v: v, target: c.randomTarget(l), eof: dm.usedEOF})
	}
	var results [][2][]byte // returned bytes and what they were
	okN, failN := 0, 0
	ops := 3 + c.Int(12)
	for i := 0; i < ops; i++ {
		s := sts[c.Int(n)]
		l := s.l
		switch c.Pick(12, 12, 8, 4, 4, 1, 1) {
		case 5:
			c.checkNamesakes()
		case 6:
			c.checkRawBytes()
		case 0: // unpack into the shared target, which holds whatever is there
			in := append([]byte{}, s.data...)
			switch c.Int(3) {
			case 1:
				if len(in) > 0 {
					in = in[:c.Int(len(in))]
				}
			case 2:
				if !s.eof {
					in = append(in, 0xee)
				}
			}
			before := clone(s.target)
			shallow := reflect.New(s.target.Type().Elem())
			shallow.Elem().Set(s.target.Elem())
			want := clone(s.target)
			_, _, werr := l.decode(in, want)
			err := c.Unpack(in, l.order(), s.target.Interface())
			c.Note("unpack type %d, %d bytes: %v", index(sts, s), len(in), err)
			if (err == nil) != (werr == nil) {
				c.Fail("operation %d: Unpack of %s gave error %v; alone it gives %v", i, hexs(in), err, werr)
			}
			if err != nil {
				failN++
				s.target = c.randomTarget(l)
				break
			}
			okN++
			if d := diff(s.target.Elem(), want.Elem()); d != "" {
				c.Fail("operation %d: Unpack of %s over %s: %s", i, hexs(in), show(before), d)
			}
			// what was reachable before is not written to
			if l.Top.K == KStruct && !refersTo(l.Top) {
				if d := diff(shallow.Elem(), before.Elem()); d != "" {
					c.Fail("operation %d: Unpack of %s wrote to values of before: %s", i, hexs(in), d)
				}
			}
			// the value does not share memory with the input
			for j := range in {
				in[j] ^= 0x55
			}
			if d := diff(s.target.Elem(), want.Elem()); d != "" {
				c.Fail("operation %d: changing the input later changes the value: %s", i, d)
			}
		case 1: // pack
			v := clone(s.v)
			c.vary(l, v, []int{0, vNil | vShort | vJunk | vCounter | vLen, vMisfit}[c.Int(3)])
			before := clone(v)
			data, after, bits, ok := c.checkPack(l, v)
			c.Note("pack type %d: ok=%v", index(sts, s), ok)
			if d := diff(v.Elem(), before.Elem()); d != "" {
				panic("harness: checkPack changed its argument")
			}
			if !ok {
				failN++
				break
			}
			okN++
			keep := append([]byte{}, data...)
			c.checkUnshared(data, after)
			d2, err := c.Pack(l.order(), after.Interface())
			if err != nil || !bytes.Equal(d2, keep) {
				c.Fail("operation %d: packing again gave %s, %v instead of %s", i, hexs(d2), err, hexs(keep))
			}
			_ = bits
			results = append(results, [2][]byte{d2, keep})
			if len(results) > 1 && c.Chance(1, 2) {
				r := results[c.Int(len(results))][0]
				for j := range r[len(r):cap(r)] {
					r[len(r):cap(r)][j] ^= 0xff
				}
			}
		case 2: // sizes
			v := clone(s.v)
			c.vary(l, v, []int{0, vNil | vShort | vLen, vMisfit}[c.Int(3)])
			if _, bits, err := l.encode(clone(v)); err == nil {
				c.checkSizes(l, v, bits)
				okN++
			} else {
				c.BitSize(clone(v).Interface())
				failN++
			}
		case 3: // a failing call
			c.Unpack(nil, l.order(), s.l.fresh().Interface())
			c.Pack(l.order(), struct {
				A string `struct:"[1]uint8"`
			}{"too long"})
			failN++
		default: // value semantics: packing by value leaves the variable alone
			if l.Top.K == KIface {
				break
			}
			v := clone(s.v)
			c.vary(l, v, vCounter|vJunk)
			before := clone(v)
			_, _, werr := l.encode(clone(v))
			d, err := c.Pack(l.order(), v.Elem().Interface())
			if werr == nil && err != nil || werr != nil && err == nil {
				c.Fail("operation %d: packing by value gave error %v; alone it gives %v", i, err, werr)
			}
			c.SizeOf(v.Elem().Interface())
			c.checkUnshared(d, v)
			if l.Top.K == KStruct && l.Top.St.Static == nil && plainTree(l.Top) {
				if d := diff(v.Elem(), before.Elem()); d != "" {
					c.Fail("operation %d: packing by value changed the variable: %s", i, d)
				}
			}
		}
		for _, r := range results {
			if !bytes.Equal(r[0], r[1]) {
				c.Fail("operation %d changed bytes that an earlier Pack returned", i)
			}
		}
	}
	if okN > 0 && failN > 0 && okN+failN >= 4 {
		c.NonTrivial()
	}
}

func index(a interface{}, x interface{}) int {
	v := reflect.ValueOf(a)
	for i := 0; i < v.Len(); i++ {
		if v.Index(i).Interface() == x {
			return i
		}
	}
	return -1
}

// plainTree is true for types without pointers and slices of structs, so that a copy
// of the value shares nothing that packing may set.
func plainTree(t *Ty) bool {
	switch t.K {
	case KPtr:
		return false
	case KSlice:
		return t.Elem.K.scalar()
	case KArray:
		return plainTree(t.Elem)
	case KStruct:
		for _, f := range t.St.Fields {
			if f.takesPart() && !plainTree(f.T) {
				return false
			}
		}
	}
	return true
}
