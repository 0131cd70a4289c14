package main

// Custom codecs handed to the code under test, and what the model knows of them.

import (
	"encoding/binary"
	"errors"
	"io"
	"reflect"
)

// Cust describes a custom codec.
type Cust struct {
	Name string
	RT   reflect.Type
	Gen  func(c *C) reflect.Value
	Enc  func(v reflect.Value, ord binary.ByteOrder) ([]byte, error)
	Dec  func(buf []byte, ord binary.ByteOrder) (reflect.Value, int, error)
}

var errCodec = errors.New("codec refuses this value")

// put copies what a codec writes and returns the rest of the buffer.
func put(buf, b []byte) ([]byte, error) {
	if len(buf) < len(b) {
		return nil, errors.New("buffer too short for codec")
	}
	copy(buf, b)
	return buf[len(b):], nil
}

// CStr: string kind, value-dependent size, mixed receivers.
type CStr string

func (s CStr) enc() []byte { return append([]byte{byte(len(s)) ^ 0x5a}, s...) }
func (s CStr) SizeOf() int { return len(s) + 1 }
func (s CStr) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, s.enc())
}
func decCStr(buf []byte) (CStr, int, error) {
	if len(buf) < 1 || len(buf) < 1+int(buf[0]^0x5a) {
		return "", 0, io.ErrUnexpectedEOF
	}
	n := int(buf[0] ^ 0x5a)
	return CStr(buf[1 : 1+n]), 1 + n, nil
}
func (s *CStr) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	x, n, err := decCStr(buf)
	if err != nil {
		return nil, err
	}
	*s = x
	return buf[n:], nil
}

// CBlob: struct kind with hidden contents, pointer receivers, size depends on the value.
type CBlob struct {
	B []byte
	u int
}

func (s *CBlob) SizeOf() int { return len(s.B) + 2 }
func (s *CBlob) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return put(buf, encBlob(s.B, o))
}
func encBlob(x []byte, o binary.ByteOrder) []byte {
	b := make([]byte, 2)
	o.PutUint16(b, uint16(len(x)))
	return append(b, x...)
}
func decBlob(buf []byte, o binary.ByteOrder) ([]byte, int, error) {
	if len(buf) < 2 {
		return nil, 0, io.ErrUnexpectedEOF
	}
	n := int(o.Uint16(buf))
	if len(buf) < 2+n {
		return nil, 0, io.ErrUnexpectedEOF
	}
	return append([]byte{}, buf[2:2+n]...), 2 + n, nil
}
func (s *CBlob) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	b, n, err := decBlob(buf, o)
	if err != nil {
		return nil, err
	}
	s.B = b
	return buf[n:], nil
}

// CU24: uint32 kind, three bytes in the byte order in force, pointer receivers.
type CU24 uint32

func u24(x uint32, o binary.ByteOrder) []byte {
	b := make([]byte, 4)
	o.PutUint32(b, x)
	if o.Uint16([]byte{1, 0}) == 1 {
		return b[:3]
	}
	return b[1:]
}
func (s *CU24) SizeOf() int { return 3 }
func (s *CU24) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return put(buf, u24(uint32(*s)&0xffffff, o))
}
func decU24(buf []byte, o binary.ByteOrder) (uint32, int, error) {
	if len(buf) < 3 {
		return 0, 0, io.ErrUnexpectedEOF
	}
	if o.Uint16([]byte{1, 0}) == 1 {
		return uint32(buf[0]) | uint32(buf[1])<<8 | uint32(buf[2])<<16, 3, nil
	}
	return uint32(buf[2]) | uint32(buf[1])<<8 | uint32(buf[0])<<16, 3, nil
}
func (s *CU24) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	x, n, err := decU24(buf, o)
	if err != nil {
		return nil, err
	}
	*s = CU24(x)
	return buf[n:], nil
}

// CVar: uint64 kind, seven bits per byte, value receivers for packing.
type CVar uint64

func encVar(x uint64) []byte {
	b := make([]byte, 10)
	return b[:binary.PutUvarint(b, x)]
}
func (s CVar) SizeOf() int { return len(encVar(uint64(s))) }
func (s CVar) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, encVar(uint64(s)))
}
func decVar(buf []byte) (uint64, int, error) {
	x, n := binary.Uvarint(buf)
	if n <= 0 {
		return 0, 0, io.ErrUnexpectedEOF
	}
	return x, n, nil
}
func (s *CVar) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	x, n, err := decVar(buf)
	if err != nil {
		return nil, err
	}
	*s = CVar(x)
	return buf[n:], nil
}

// CRot: uint8 kind; a slice of these is not plain bytes.
type CRot uint8

func (s *CRot) SizeOf() int { return 1 }
func (s *CRot) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, []byte{uint8(*s) + 13})
}
func (s *CRot) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < 1 {
		return nil, io.ErrUnexpectedEOF
	}
	*s = CRot(buf[0] - 13)
	return buf[1:], nil
}

// CPt: struct kind with exported fields that the codec stores in its own way; it
// also reports its size in bits.
type CPt struct {
	X int16
	Y int32
}

func (s CPt) BitSize() int { return 64 }
func (s CPt) SizeOf() int  { return 8 }
func encPt(s CPt, o binary.ByteOrder) []byte {
	b := make([]byte, 8)
	o.PutUint32(b, uint32(s.Y))
	o.PutUint16(b[4:], uint16(s.X))
	o.PutUint16(b[6:], uint16(s.X)^uint16(s.Y))
	return b
}
func (s CPt) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) { return put(buf, encPt(s, o)) }
func decPt(buf []byte, o binary.ByteOrder) (CPt, int, error) {
	if len(buf) < 8 {
		return CPt{}, 0, io.ErrUnexpectedEOF
	}
	return CPt{X: int16(o.Uint16(buf[4:])), Y: int32(o.Uint32(buf))}, 8, nil
}
func (s *CPt) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	x, n, err := decPt(buf, o)
	if err != nil {
		return nil, err
	}
	*s = x
	return buf[n:], nil
}

// CArr: array kind.
type CArr [3]byte

func (s *CArr) SizeOf() int { return 3 }
func (s *CArr) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, []byte{s[2], s[1], s[0]})
}
func (s *CArr) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < 3 {
		return nil, io.ErrUnexpectedEOF
	}
	*s = CArr{buf[2], buf[1], buf[0]}
	return buf[3:], nil
}

// CList: slice kind, terminated by a zero byte.
type CList []uint8

func (s CList) SizeOf() int { return len(s) + 1 }
func (s CList) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, append(append([]byte{}, s...), 0))
}
func (s *CList) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	for i, x := range buf {
		if x == 0 {
			*s = append(CList{}, buf[:i]...)
			return buf[i+1:], nil
		}
	}
	return nil, io.ErrUnexpectedEOF
}

// CBool: bool kind, pointer receivers.
type CBool bool

func (s *CBool) SizeOf() int { return 1 }
func (s *CBool) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if *s {
		return put(buf, []byte{'T'})
	}
	return put(buf, []byte{'F'})
}
func (s *CBool) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < 1 {
		return nil, io.ErrUnexpectedEOF
	}
	if buf[0] != 'T' && buf[0] != 'F' {
		return nil, errCodec
	}
	*s = buf[0] == 'T'
	return buf[1:], nil
}

// CMap: map kind, pointer receivers; entries in order of their keys.
type CMap map[uint8]uint16

func encMap(m CMap, o binary.ByteOrder) []byte {
	b := []byte{byte(len(m))}
	for k := 0; k < 256; k++ {
		if x, ok := m[uint8(k)]; ok {
			b = append(b, byte(k), 0, 0)
			o.PutUint16(b[len(b)-2:], x)
		}
	}
	return b
}
func decMap(buf []byte, o binary.ByteOrder) (CMap, int, error) {
	if len(buf) < 1 || len(buf) < 1+3*int(buf[0]) {
		return nil, 0, io.ErrUnexpectedEOF
	}
	n := int(buf[0])
	m := CMap{}
	for i := 0; i < n; i++ {
		k := buf[1+3*i]
		if i > 0 && k <= buf[1+3*(i-1)] {
			return nil, 0, errCodec
		}
		m[k] = o.Uint16(buf[2+3*i:])
	}
	return m, 1 + 3*n, nil
}
func (s *CMap) SizeOf() int { return 1 + 3*len(*s) }
func (s *CMap) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return put(buf, encMap(*s, o))
}
func (s *CMap) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	m, n, err := decMap(buf, o)
	if err != nil {
		return nil, err
	}
	*s = m
	return buf[n:], nil
}

// CFix: float64 kind, a fixed-point number, value receivers for packing.
type CFix float64

func (s CFix) SizeOf() int { return 2 }
func (s CFix) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	b := make([]byte, 2)
	o.PutUint16(b, uint16(int16(s*16)))
	return put(buf, b)
}
func (s *CFix) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	*s = CFix(int16(o.Uint16(buf))) / 16
	return buf[2:], nil
}

// CZig: int16 kind, pointer receivers, sized in bits only.
type CZig int16

func encZig(x int16) []byte  { return []byte{byte(x>>8) ^ 0x80, ^byte(x)} }
func (s *CZig) BitSize() int { return 16 }
func (s *CZig) SizeOf() int  { return 2 }
func (s *CZig) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, encZig(int16(*s)))
}
func (s *CZig) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	*s = CZig(int16(uint16(buf[0]^0x80)<<8 | uint16(^buf[1])))
	return buf[2:], nil
}

// CGauss: complex64 kind, pointer receivers, one byte for each part.
type CGauss complex64

func (s *CGauss) SizeOf() int { return 2 }
func (s *CGauss) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	return put(buf, []byte{byte(int8(imag(*s))), byte(int8(real(*s)))})
}
func (s *CGauss) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	*s = CGauss(complex(float32(int8(buf[1])), float32(int8(buf[0]))))
	return buf[2:], nil
}

// CEmpty: a codec that takes no space.
type CEmpty struct{}

func (s *CEmpty) SizeOf() int                                           { return 0 }
func (s *CEmpty) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error)   { return buf, nil }
func (s *CEmpty) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) { return buf, nil }

// CTick: takes no space either, but is always 77 after unpacking.
type CTick uint16

func (s *CTick) SizeOf() int                                         { return 0 }
func (s *CTick) Pack(buf []byte, _ binary.ByteOrder) ([]byte, error) { return buf, nil }
func (s *CTick) Unpack(buf []byte, _ binary.ByteOrder) ([]byte, error) {
	*s = 77
	return buf, nil
}

// CErr: refuses some values in both directions.
type CErr uint16

func (s CErr) SizeOf() int { return 2 }
func (s CErr) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if s == 0xdead {
		return nil, errCodec
	}
	b := make([]byte, 2)
	o.PutUint16(b, uint16(s))
	return put(buf, b)
}
func (s *CErr) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	x := o.Uint16(buf)
	if x == 0xdead {
		return nil, errCodec
	}
	*s = CErr(x)
	return buf[2:], nil
}

// CMark: struct kind of plain fields, whose size depends on the value, by pointer only.
type CMark struct {
	On  uint8
	Val uint16
}

func encMark(s CMark, o binary.ByteOrder) []byte {
	if s.On&1 == 0 {
		return []byte{s.On}
	}
	b := make([]byte, 3)
	b[0] = s.On
	o.PutUint16(b[1:], s.Val)
	return b
}
func decMark(b []byte, o binary.ByteOrder) (CMark, int, error) {
	if len(b) < 1 || b[0]&1 == 1 && len(b) < 3 {
		return CMark{}, 0, io.ErrUnexpectedEOF
	}
	if b[0]&1 == 0 {
		return CMark{On: b[0]}, 1, nil
	}
	return CMark{b[0], o.Uint16(b[1:])}, 3, nil
}
func (s *CMark) SizeOf() int { return len(encMark(*s, binary.LittleEndian)) }
func (s *CMark) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	return put(buf, encMark(*s, o))
}
func (s *CMark) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	x, n, err := decMark(buf, o)
	if err != nil {
		return nil, err
	}
	*s = x
	return buf[n:], nil
}

// CVal: everything by value receiver; the contents are behind a pointer. Only used at
// the top level and through pointers.
type CVal struct{ P *uint16 }

func (s CVal) SizeOf() int { return 2 }
func (s CVal) Pack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	b := make([]byte, 2)
	o.PutUint16(b, *s.P)
	return put(buf, b)
}
func (s CVal) Unpack(buf []byte, o binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, io.ErrUnexpectedEOF
	}
	*s.P = o.Uint16(buf)
	return buf[2:], nil
}

func newOf(x interface{}) reflect.Value {
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	return v
}

// payload is a length, rarely a large one.
func payload(c *C, max int) int {
	if c.Chance(1, 150) {
		return min(max, bigLen(c))
	}
	return c.Len(40)
}

var (
	cuStr = &Cust{Name: "CStr", RT: reflect.TypeOf(CStr("")),
		Gen: func(c *C) reflect.Value { return newOf(CStr(c.Bytes(payload(c, 255)))) },
		Enc: func(v reflect.Value, _ binary.ByteOrder) ([]byte, error) { return CStr(v.String()).enc(), nil },
		Dec: func(b []byte, _ binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decCStr(b)
			return newOf(x), n, err
		}}
	cuBlob = &Cust{Name: "CBlob", RT: reflect.TypeOf(CBlob{}),
		Gen: func(c *C) reflect.Value { return newOf(CBlob{B: c.Bytes(payload(c, 65535))}) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) { return encBlob(v.Field(0).Bytes(), o), nil },
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decBlob(b, o)
			return newOf(CBlob{B: x}), n, err
		}}
	cuU24 = &Cust{Name: "CU24", RT: reflect.TypeOf(CU24(0)),
		Gen: func(c *C) reflect.Value { return newOf(CU24(c.U64(24))) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return u24(uint32(v.Uint())&0xffffff, o), nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decU24(b, o)
			return newOf(CU24(x)), n, err
		}}
	cuVar = &Cust{Name: "CVar", RT: reflect.TypeOf(CVar(0)),
		Gen: func(c *C) reflect.Value { return newOf(CVar(c.U64(64) >> uint(c.Int(64)))) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) { return encVar(v.Uint()), nil },
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decVar(b)
			return newOf(CVar(x)), n, err
		}}
	cuRot = &Cust{Name: "CRot", RT: reflect.TypeOf(CRot(0)),
		Gen: func(c *C) reflect.Value { return newOf(CRot(c.U64(8))) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) { return []byte{byte(v.Uint()) + 13}, nil },
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 1 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			return newOf(CRot(b[0] - 13)), 1, nil
		}}
	cuPt = &Cust{Name: "CPt", RT: reflect.TypeOf(CPt{}),
		Gen: func(c *C) reflect.Value { return newOf(CPt{X: int16(c.U64(16)), Y: int32(c.U64(32))}) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return encPt(CPt{X: int16(v.Field(0).Int()), Y: int32(v.Field(1).Int())}, o), nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decPt(b, o)
			return newOf(x), n, err
		}}
	cuMark = &Cust{Name: "CMark", RT: reflect.TypeOf(CMark{}),
		Gen: func(c *C) reflect.Value {
			x := CMark{On: uint8(c.U64(8))}
			if x.On&1 == 1 {
				x.Val = uint16(c.U64(16))
			}
			return newOf(x)
		},
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return encMark(CMark{On: uint8(v.Field(0).Uint()), Val: uint16(v.Field(1).Uint())}, o), nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			x, n, err := decMark(b, o)
			return newOf(x), n, err
		}}
	cuArr = &Cust{Name: "CArr", RT: reflect.TypeOf(CArr{}),
		Gen: func(c *C) reflect.Value { return newOf(CArr{byte(c.U64(8)), byte(c.U64(8)), byte(c.U64(8))}) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return []byte{byte(v.Index(2).Uint()), byte(v.Index(1).Uint()), byte(v.Index(0).Uint())}, nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 3 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			return newOf(CArr{b[2], b[1], b[0]}), 3, nil
		}}
	cuList = &Cust{Name: "CList", RT: reflect.TypeOf(CList{}),
		Gen: func(c *C) reflect.Value {
			b := c.Bytes(payload(c, 1<<20))
			for i := range b {
				if b[i] == 0 {
					b[i] = 7
				}
			}
			return newOf(CList(b))
		},
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return append(append([]byte{}, v.Bytes()...), 0), nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			for i, x := range b {
				if x == 0 {
					return newOf(CList(append([]uint8{}, b[:i]...))), i + 1, nil
				}
			}
			return reflect.Value{}, 0, io.ErrUnexpectedEOF
		}}
	cuBool = &Cust{Name: "CBool", RT: reflect.TypeOf(CBool(false)),
		Gen: func(c *C) reflect.Value { return newOf(CBool(c.Chance(1, 2))) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			if v.Bool() {
				return []byte{'T'}, nil
			}
			return []byte{'F'}, nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 1 || b[0] != 'T' && b[0] != 'F' {
				return reflect.Value{}, 0, errCodec
			}
			return newOf(CBool(b[0] == 'T')), 1, nil
		}}
	cuMap = &Cust{Name: "CMap", RT: reflect.TypeOf(CMap{}),
		Gen: func(c *C) reflect.Value {
			m := CMap{}
			for n := c.Int(4); n > 0; n-- {
				m[uint8(c.U64(8))] = uint16(c.U64(16))
			}
			return newOf(m)
		},
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			return encMap(v.Convert(reflect.TypeOf(CMap{})).Interface().(CMap), o), nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			m, n, err := decMap(b, o)
			return newOf(m), n, err
		}}
	cuFix = &Cust{Name: "CFix", RT: reflect.TypeOf(CFix(0)),
		Gen: func(c *C) reflect.Value { return newOf(CFix(int16(c.U64(16))) / 16) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			b := make([]byte, 2)
			o.PutUint16(b, uint16(int16(v.Float()*16)))
			return b, nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 2 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			return newOf(CFix(int16(o.Uint16(b))) / 16), 2, nil
		}}
	cuZig = &Cust{Name: "CZig", RT: reflect.TypeOf(CZig(0)),
		Gen: func(c *C) reflect.Value { return newOf(CZig(c.U64(16))) },
		Enc: func(v reflect.Value, _ binary.ByteOrder) ([]byte, error) { return encZig(int16(v.Int())), nil },
		Dec: func(b []byte, _ binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 2 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			return newOf(CZig(int16(uint16(b[0]^0x80)<<8 | uint16(^b[1])))), 2, nil
		}}
	cuGauss = &Cust{Name: "CGauss", RT: reflect.TypeOf(CGauss(0)),
		Gen: func(c *C) reflect.Value {
			return newOf(CGauss(complex(float32(int8(c.U64(8))), float32(int8(c.U64(8))))))
		},
		Enc: func(v reflect.Value, _ binary.ByteOrder) ([]byte, error) {
			return []byte{byte(int8(imag(v.Complex()))), byte(int8(real(v.Complex())))}, nil
		},
		Dec: func(b []byte, _ binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 2 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			return newOf(CGauss(complex(float32(int8(b[1])), float32(int8(b[0]))))), 2, nil
		}}
	cuTick = &Cust{Name: "CTick", RT: reflect.TypeOf(CTick(0)),
		Gen: func(c *C) reflect.Value { return reflect.ValueOf(CTick(77)) },
		Enc: func(v reflect.Value, ord binary.ByteOrder) ([]byte, error) { return nil, nil },
		Dec: func(buf []byte, ord binary.ByteOrder) (reflect.Value, int, error) {
			return reflect.ValueOf(CTick(77)), 0, nil
		}}
	cuEmpty = &Cust{Name: "CEmpty", RT: reflect.TypeOf(CEmpty{}),
		Gen: func(c *C) reflect.Value { return newOf(CEmpty{}) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) { return nil, nil },
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) { return newOf(CEmpty{}), 0, nil }}
	cuErr = &Cust{Name: "CErr", RT: reflect.TypeOf(CErr(0)),
		Gen: func(c *C) reflect.Value {
			x := CErr(c.U64(16))
			if x == 0xdead {
				x = 0
			}
			return newOf(x)
		},
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			if v.Uint() == 0xdead {
				return nil, errCodec
			}
			b := make([]byte, 2)
			o.PutUint16(b, uint16(v.Uint()))
			return b, nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 2 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			x := o.Uint16(b)
			if x == 0xdead {
				return reflect.Value{}, 0, errCodec
			}
			return newOf(CErr(x)), 2, nil
		}}
	cuVal = &Cust{Name: "CVal", RT: reflect.TypeOf(CVal{}),
		Gen: func(c *C) reflect.Value { x := uint16(c.U64(16)); return newOf(CVal{P: &x}) },
		Enc: func(v reflect.Value, o binary.ByteOrder) ([]byte, error) {
			b := make([]byte, 2)
			o.PutUint16(b, uint16(v.Field(0).Elem().Uint()))
			return b, nil
		},
		Dec: func(b []byte, o binary.ByteOrder) (reflect.Value, int, error) {
			if len(b) < 2 {
				return reflect.Value{}, 0, io.ErrUnexpectedEOF
			}
			x := o.Uint16(b)
			return newOf(CVal{P: &x}), 2, nil
		}}
)

// customs are the codecs usable at any place in a layout.
var customs = []*Cust{cuRot, cuU24, cuStr, cuPt, cuVar, cuBlob, cuArr, cuList, cuBool, cuMap, cuFix, cuZig, cuGauss, cuMark, cuErr, cuEmpty}
