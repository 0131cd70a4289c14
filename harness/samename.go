package main

import (
	"bytes"
	"encoding/binary"
	"reflect"
)

// Types that are declared inside functions share their names, but nothing else.

type namesake struct {
	mk   func(x byte) interface{} // pointer to a value
	want func(x byte) []byte      // what it packs to in big endian order
}

var namesakes = []namesake{
	func() namesake {
		type T struct{ A uint8 }
		return namesake{func(x byte) interface{} { return &T{x} }, func(x byte) []byte { return []byte{x} }}
	}(),
	func() namesake {
		type T struct {
			A uint8 `struct:"uint16"`
		}
		return namesake{func(x byte) interface{} { return &T{x} }, func(x byte) []byte { return []byte{0, x} }}
	}(),
	func() namesake {
		type T struct {
			A uint8 `struct:"uint16,little"`
			B uint8
		}
		return namesake{func(x byte) interface{} { return &T{x, x} }, func(x byte) []byte { return []byte{x, 0, x} }}
	}(),
	func() namesake {
		type T struct {
			N uint8 `struct:"sizeof=B"`
			B []byte
		}
		return namesake{func(x byte) interface{} { return &T{2, []byte{x, 1}} }, func(x byte) []byte { return []byte{2, x, 1} }}
	}(),
	func() namesake {
		type T struct {
			B [2]struct {
				A uint8 `struct:"uint8:4"`
				B uint8 `struct:"uint8:4"`
			}
		}
		return namesake{func(x byte) interface{} {
			t := &T{}
			t.B[1].A, t.B[1].B = x>>4, x&15
			return t
		}, func(x byte) []byte { return []byte{0, x} }}
	}(),
	func() namesake {
		type T uint32
		return namesake{func(x byte) interface{} { t := T(x); return &t }, func(x byte) []byte { return []byte{0, 0, 0, x} }}
	}(),
	func() namesake {
		type U struct {
			A uint8
			_ uint16
		}
		type T struct{ U U }
		return namesake{func(x byte) interface{} { return &T{U{A: x}} }, func(x byte) []byte { return []byte{x, 0, 0} }}
	}(),
	func() namesake {
		type U struct{ A uint16 }
		type T struct {
			A uint8
			U *U
		}
		return namesake{func(x byte) interface{} { return &T{x, &U{7}} }, func(x byte) []byte { return []byte{x, 0, 7} }}
	}(),
}

// checkNamesakes uses all types of the same name, in a random order.
func (c *C) checkNamesakes() {
	c.Class("different types of the same name")
	order := make([]int, len(namesakes))
	for i := range order {
		order[i] = i
	}
	for i := range order {
		j := i + c.Int(len(order)-i)
		order[i], order[j] = order[j], order[i]
	}
	x := byte(c.U64(8))
	for _, i := range order {
		n := namesakes[i]
		want := n.want(x)
		switch c.Int(3) {
		case 0:
			v := n.mk(0)
			if err := c.Unpack(want, binary.BigEndian, v); err != nil || !reflect.DeepEqual(v, n.mk(x)) {
				c.Fail("type T number %d: Unpack of %s gave %+v, %v", i, hexs(want), v, err)
			}
		case 1:
			if k, err := c.SizeOf(n.mk(x)); err != nil || k != len(want) {
				c.Fail("type T number %d: SizeOf gave %d, %v instead of %d", i, k, err, len(want))
			}
		}
		if d, err := c.Pack(binary.BigEndian, n.mk(x)); err != nil || !bytes.Equal(d, want) {
			c.Fail("type T number %d: Pack gave %s, %v instead of %s", i, hexs(d), err, hexs(want))
		}
	}
}

// checkRawBytes packs a slice of bytes, which must not be handed out itself.
func (c *C) checkRawBytes() {
	b := c.Bytes(c.Len(40))
	keep := append([]byte{}, b...)
	var v interface{} = b
	type named []byte
	switch c.Int(3) {
	case 1:
		v = &b
	case 2:
		v = named(b)
	}
	d, err := c.Pack(binary.BigEndian, v)
	if err != nil || !bytes.Equal(d, keep) {
		c.Fail("Pack of the bytes %s gave %s, %v", hexs(keep), hexs(d), err)
	}
	for j := range d[:cap(d)] {
		d[:cap(d)][j] ^= 0xff
	}
	if !bytes.Equal(b, keep) {
		c.Fail("the packed bytes share memory with the slice that was packed")
	}
}
