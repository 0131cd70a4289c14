package main

// C06: bit-fields; C30: booleans at every width.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
)

func init() {
	register(&Prop{ID: "C06", Quick: 40000, Thor: 600000, Run: runC06, Sweep: sweepC06,
		Rule: "structs of mostly bit-fields (every base type and width, declared or computed, any offset, per-field orders, other fields in between at odd offsets) with values wider than the fields; the sweep runs every base type x width x bit offset x order over boundary values; non-trivial: at least two bit-fields",
		Tech: "property-based testing and exhaustive sweep of widths and offsets, differential against a reference bit packer"})
}

// bitStruct generates a struct that is mostly bit-fields.
func bitStruct(c *C, signed8 bool) *Layout {
	l := &Layout{Order: binary.LittleEndian}
	if c.Chance(1, 2) {
		l.Order = binary.BigEndian
	}
	s := &St{}
	n := c.Range(2, 10)
	if c.Chance(1, 10) {
		n = c.Range(10, 40)
	}
	nctl := 0
	var ctls []ctl
	for i := 0; i < n; i++ {
		f := &Fd{Name: fname(i)}
		switch c.Pick(10, 2, 2, 2, 1, 1) {
		case 0: // bit-field
			b := intKinds[c.Int(10)]
			if b == KI8 && !signed8 {
				b = KU8
			}
			f.T = ty(b)
			w := kWidth[b]
			switch c.Int(3) {
			case 0:
				f.Bits = c.Range(1, w-1)
			case 1:
				f.Bits = 1 + c.Int(7)
			default:
				f.Bits = w - 1 - c.Int(3)
			}
			switch c.Int(6) {
			case 0:
				f.B, f.T = ty(b), ty(KBool)
			case 1:
				f.B = ty(b)
				ks := unsKinds
				if b.signed() {
					ks = sgnKinds
				}
				for {
					f.T = ty(ks[c.Int(len(ks))])
					if f.T.K.nativeWidth() >= w {
						break
					}
				}
			}
			f.T.Named = c.Chance(1, 8)
			if c.Chance(1, 5) && f.T.K.uns() && f.B == nil && f.Bits >= 3 {
				f.Max = 1 + c.Int(1<<uint(min(f.Bits, 4))-1)
				ctls = append(ctls, ctl{path: f.Name, k: b, f: f, max: f.Max})
			}
		case 1: // computed width
			if len(ctls) == 0 {
				f.T = ty(KU8)
				f.Max = 1 + c.Int(7)
				ctls = append(ctls, ctl{path: f.Name, k: KU8, f: f, max: f.Max})
				break
			}
			x := ctls[c.Int(len(ctls))]
			var ok []K
			for _, k := range intKinds {
				if kWidth[k] > x.max && k != KI8 {
					ok = append(ok, k)
				}
			}
			b := ok[c.Int(len(ok))]
			f.T = ty(b)
			if c.Chance(1, 6) {
				f.B, f.T = ty(b), ty(KBool)
			}
			f.BitsX = bin("+", x.ref(), ilit(1+c.Int(kWidth[b]-x.max)))
			if c.Chance(1, 6) {
				// full width or none at all, by the value
				f.BitsX = cond(bin("==", x.ref(), ilit(c.Int(x.max+1))), ilit(kWidth[b]), ilit(1+c.Int(kWidth[b]-1)))
			}
			nctl++
		case 2: // a whole field at any offset
			f.T = ty([]K{KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64, KF32, KF64, KC64, KBool, KInt, KUint}[c.Int(14)])
		case 3:
			switch c.Int(5) {
			case 0:
				f.T, f.B = ty(KStr), tyArr(c.Int(5), ty(KU8))
			case 1:
				f.T = tyArr(c.Int(4), ty([]K{KU8, KU16, KI32, KBool, KU64}[c.Int(5)]))
			case 2:
				f.T, f.B = tySlice(ty(KU16)), tyArr(c.Int(4), ty(KU16))
			case 3:
				f.T = tyPtr(ty(KU32))
			default:
				f.T = tyArr(1+c.Int(3), tySt(mkSt(&Fd{Name: "A", T: ty(KU8), Bits: 1 + c.Int(7)}, &Fd{Name: "B", T: ty(KI16), Bits: 1 + c.Int(15)})))
			}
		case 4: // padding bits
			k := []K{KU8, KU16, KU32, KU64}[c.Int(4)]
			f.Blank, f.Name, f.T, f.Bits = true, "_", ty(k), c.Range(1, kWidth[k]-1)
		default: // counter bits and what they count
			b := []K{KU8, KU16, KU32, KI16}[c.Int(4)]
			f.T, f.Bits, f.SizeOf = ty(b), c.Range(2, 6), f.Name+"s"
			s.Fields = append(s.Fields, f)
			f = &Fd{Name: f.SizeOf, T: tySlice(ty([]K{KU8, KU16, KI64}[c.Int(3)]))}
			if c.Chance(1, 3) {
				f.T = ty(KStr)
			}
		}
		if c.Chance(1, 5) {
			f.Order = binary.BigEndian
			if c.Chance(1, 2) {
				f.Order = binary.LittleEndian
			}
		}
		if c.Chance(1, 12) {
			f.Skip = 1 + c.Int(3)
		}
		s.Fields = append(s.Fields, f)
	}
	l.Top = tySt(s)
	return l
}

func runC06(c *C) {
	l := bitStruct(c, false)
	c.noteLayout(l)
	nb := 0
	for _, f := range l.Top.St.Fields {
		if f.Bits != 0 || f.BitsX != nil {
			nb++
		}
	}
	l.Pass = passOrder(c, l.Order)
	r := c.checkAll(l, vWide|vCounter|vShort|vNil)
	// arbitrary bits
	c.checkUnpack(l, c.Bytes(len(r.data)), l.fresh())
	c.ClassIf(nb >= 5, "5 or more bit-fields")
	if nb >= 2 {
		c.NonTrivial()
	}
}

// sweepC06 runs every base type, width, offset and order.
func sweepC06(c *C, thor bool) int {
	n := 0
	vals := func(w int) []uint64 {
		v := []uint64{0, 1, 1 << uint(w-1), mask(^uint64(0), w), mask(0xaaaaaaaaaaaaaaaa, w), mask(0x5555555555555555, w), mask(0x0123456789abcdef, w), mask(0x80ff7f01fe100ef0, w)}
		if w <= 4 || thor && w <= 9 {
			v = nil
			for i := 0; i < 1<<uint(w); i++ {
				v = append(v, uint64(i))
			}
		}
		return v
	}
	for _, k := range intKinds {
		W := kWidth[k]
		for w := 1; w <= W; w++ {
			for at := 0; at < 8; at++ {
				for _, ord := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
					for _, other := range []bool{false, true} {
						if other && !thor && w > 12 && w < W-2 && at != 3 {
							continue
						}
						f := &Fd{Name: "X", T: ty(k), Bits: w}
						if w == W {
							f.Bits = 0
						}
						st := mkSt()
						if at > 0 {
							st.Fields = append(st.Fields, &Fd{Name: "P", T: ty(KU8), Bits: at})
						}
						st.Fields = append(st.Fields, f)
						l := &Layout{Order: ord}
						if other { // by tag instead of by the caller
							f.Order = ord
							l.Order = binary.BigEndian
							if ord == l.Order {
								l.Order = binary.LittleEndian
							}
						}
						if q := (at + w) % 8; q != 0 {
							st.Fields = append(st.Fields, &Fd{Name: "Q", T: ty(KU8), Bits: 8 - q})
						}
						st.Fields = append(st.Fields, &Fd{Name: "R", T: ty(KU8)})
						l.Top = tySt(st)
						for _, x := range vals(w) {
							c.sweepBits(l, k, w, at, x)
							n++
						}
					}
				}
			}
		}
	}
	return n
}

// sweepBits checks one value x of a w bit field after at other bits.
func (c *C) sweepBits(l *Layout, k K, w, at int, x uint64) {
	for _, around := range []uint64{0, ^uint64(0)} {
		v := l.fresh()
		st := l.Top.St
		var want interface{}
		for i, f := range st.Fields {
			fv := v.Elem().Field(i)
			switch {
			case f.Name != "X":
				b := f.Bits
				if b == 0 {
					b = 8
				}
				fv.SetUint(mask(around, b))
			case k.signed():
				fv.SetInt(sext(x, w))
				want = fv.Int()
			default:
				fv.SetUint(x)
			}
		}
		desc := fmt.Sprintf("%s value %#x", l.Top, x)
		exp, bits, err := l.encode(clone(v))
		if err != nil {
			panic(err)
		}
		for _, dirty := range []bool{false, true} {
			p := clone(v)
			if dirty && w < kWidth[k] { // bits above the width do not count
				fv := p.Elem().FieldByName("X")
				if k.signed() {
					fv.SetInt(int64(uint64(fv.Int()) ^ (^uint64(0) << uint(w))))
				} else {
					fv.SetUint(mask(fv.Uint()^(^uint64(0)<<uint(w)), kWidth[k]))
				}
			}
			got, err := c.Pack(l.order(), p.Interface())
			if err != nil || !bytes.Equal(got, exp) {
				c.Fail("%s: Pack gave %x, %v; the layout says %x", desc, got, err, exp)
			}
		}
		if n, err := c.BitSize(v.Interface()); err != nil || n != bits {
			c.Fail("%s: BitSize gave %d, %v; the layout has %d bits", desc, n, err, bits)
		}
		u := l.fresh()
		if err := c.Unpack(exp, l.order(), u.Interface()); err != nil {
			c.Fail("%s: Unpack of %x: %v", desc, exp, err)
		}
		for i, f := range st.Fields {
			if s := diff(u.Elem().Field(i), v.Elem().Field(i)); s != "" {
				if f.Name == "X" && k == KI8 && w < 8 && u.Elem().Field(i).Int() == bug15(x, w) {
					c.Known("sext8", fmt.Sprintf("%s: Unpack of %x gave %d, want %v", desc, exp, u.Elem().Field(i).Int(), want))
					continue
				}
				c.Fail("%s: Unpack of %x: %s%s", desc, exp, f.Name, s)
			}
		}
	}
}

// sweepC30 runs every boolean encoding.
func sweepC30(c *C, thor bool) int {
	n := 0
	for _, k := range append([]K{KBool}, intKinds...) {
		W := kWidth[k]
		for w := 1; w <= W; w++ {
			if k == KBool && w < W {
				continue
			}
			if !thor && w > 17 && w < W-1 && w%8 > 1 {
				continue
			}
			for flags := 0; flags < 4; flags++ {
				for at := 0; at < 8; at++ {
					if !thor && at > 1 && at < 7 && w > 9 {
						continue
					}
					for _, ord := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
						f := &Fd{Name: "X", T: ty(KBool), Variant: flags&1 != 0, Invert: flags&2 != 0}
						if k != KBool {
							f.B = ty(k)
							if w < W {
								f.Bits = w
							}
						}
						f.T.Named = at == 7
						st := mkSt()
						if at > 0 {
							st.Fields = append(st.Fields, &Fd{Name: "P", T: ty(KU8), Bits: at})
						}
						st.Fields = append(st.Fields, f)
						if q := (at + w) % 8; q != 0 {
							st.Fields = append(st.Fields, &Fd{Name: "Q", T: ty(KU8), Bits: 8 - q})
						}
						l := &Layout{Order: ord, Top: tySt(st)}
						for _, b := range []bool{false, true} {
							v := l.fresh()
							v.Elem().FieldByName("X").SetBool(b)
							if at > 0 {
								v.Elem().Field(0).SetUint(mask(^uint64(0), at))
							}
							c.checkPackQuiet(l, v)
							n++
						}
						raws := []uint64{0, 1, mask(^uint64(0), w), 1 << uint(w-1), mask(2, w), mask(0x10100, w)}
						for i := 0; thor && i < w; i++ {
							raws = append(raws, 1<<uint(i))
						}
						for _, x := range raws {
							var buf bitbuf
							buf.put(mask(^uint64(0), at), at)
							buf.putOrd(x, w, ord)
							if q := (at + w) % 8; q != 0 {
								buf.put(0, 8-q)
							}
							u := l.fresh()
							if err := c.Unpack(buf.b, ord, u.Interface()); err != nil {
								c.Fail("%s: Unpack of %x: %v", l.Top, buf.b, err)
							}
							want := (x != 0) != f.Invert
							if got := u.Elem().FieldByName("X").Bool(); got != want {
								c.Fail("%s: Unpack of %x (raw %#x) gave %v", l.Top, buf.b, x, got)
							}
							n++
						}
					}
				}
			}
		}
	}
	return n
}

func (c *C) checkPackQuiet(l *Layout, v reflect.Value) []byte {
	exp, bits, err := l.encode(clone(v))
	if err != nil {
		panic(err)
	}
	got, err := c.Pack(l.order(), v.Interface())
	if err != nil || !bytes.Equal(got, exp) {
		c.Fail("%s: value %s: Pack gave %x, %v; the layout says %x", l.Top, show(v), got, err, exp)
	}
	if n, err := c.BitSize(v.Interface()); err != nil || n != bits {
		c.Fail("%s: value %s: BitSize gave %d, %v; the layout has %d bits", l.Top, show(v), n, err, bits)
	}
	return got
}
