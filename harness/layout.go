package main

// Abstract layouts: what a Go struct type with tags means. The generator builds
// these; the Go types handed to the code under test and the expectations of the
// reference model are both derived from them.

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// K is a layout kind.
type K uint8

const (
	KBool K = iota
	KI8
	KI16
	KI32
	KI64
	KInt
	KU8
	KU16
	KU32
	KU64
	KUint
	KF32
	KF64
	KC64
	KC128
	KStr
	KSlice
	KArray
	KPtr
	KStruct
	KCustom
	KIface // interface{}: occupies nothing
)

var kWidth = [...]int{KBool: 8, KI8: 8, KI16: 16, KI32: 32, KI64: 64, KInt: 32, KU8: 8, KU16: 16, KU32: 32, KU64: 64, KUint: 32,
	KF32: 32, KF64: 64, KC64: 64, KC128: 128, KIface: 0}

var kName = [...]string{KBool: "bool", KI8: "int8", KI16: "int16", KI32: "int32", KI64: "int64", KInt: "int", KU8: "uint8", KU16: "uint16",
	KU32: "uint32", KU64: "uint64", KUint: "uint", KF32: "float32", KF64: "float64", KC64: "complex64", KC128: "complex128", KStr: "string",
	KCustom: "custom", KStruct: "struct", KIface: "interface{}"}

func (k K) signed() bool { return k >= KI8 && k <= KInt }
func (k K) uns() bool    { return k >= KU8 && k <= KUint }
func (k K) intk() bool   { return k >= KI8 && k <= KUint }
func (k K) scalar() bool { return k <= KC128 }

// native width in bits of the Go type (int and uint are 64 bits wide in memory).
func (k K) nativeWidth() int {
	if k == KInt || k == KUint {
		return 64
	}
	return kWidth[k]
}

// Named Go types, to see that named types behave as their underlying types.
type (
	nBool bool
	nI8   int8
	nI16  int16
	nI32  int32
	nI64  int64
	nInt  int
	nU8   uint8
	nU16  uint16
	nU32  uint32
	nU64  uint64
	nUint uint
	nF32  float32
	nF64  float64
	nC64  complex64
	nC128 complex128
	nStr  string
)

var plainRT = [...]reflect.Type{
	KBool: reflect.TypeOf(false), KI8: reflect.TypeOf(int8(0)), KI16: reflect.TypeOf(int16(0)), KI32: reflect.TypeOf(int32(0)), KI64: reflect.TypeOf(int64(0)),
	KInt: reflect.TypeOf(int(0)), KU8: reflect.TypeOf(uint8(0)), KU16: reflect.TypeOf(uint16(0)), KU32: reflect.TypeOf(uint32(0)), KU64: reflect.TypeOf(uint64(0)),
	KUint: reflect.TypeOf(uint(0)), KF32: reflect.TypeOf(float32(0)), KF64: reflect.TypeOf(float64(0)), KC64: reflect.TypeOf(complex64(0)),
	KC128: reflect.TypeOf(complex128(0)), KStr: reflect.TypeOf(""), KIface: reflect.TypeOf((*interface{})(nil)).Elem(),
}

var namedRT = [...]reflect.Type{
	KBool: reflect.TypeOf(nBool(false)), KI8: reflect.TypeOf(nI8(0)), KI16: reflect.TypeOf(nI16(0)), KI32: reflect.TypeOf(nI32(0)), KI64: reflect.TypeOf(nI64(0)),
	KInt: reflect.TypeOf(nInt(0)), KU8: reflect.TypeOf(nU8(0)), KU16: reflect.TypeOf(nU16(0)), KU32: reflect.TypeOf(nU32(0)), KU64: reflect.TypeOf(nU64(0)),
	KUint: reflect.TypeOf(nUint(0)), KF32: reflect.TypeOf(nF32(0)), KF64: reflect.TypeOf(nF64(0)), KC64: reflect.TypeOf(nC64(0)),
	KC128: reflect.TypeOf(nC128(0)), KStr: reflect.TypeOf(nStr("")), KIface: reflect.TypeOf((*interface{})(nil)).Elem(),
}

// Ty is a Go type in a layout.
type Ty struct {
	K     K
	Named bool
	Elem  *Ty
	Len   int
	St    *St
	Cu    *Cust
	Void  bool // never occupies anything
	rt    reflect.Type
}

// St is a struct type.
type St struct {
	Fields []*Fd
	Static reflect.Type // hand-written type instead of a generated one
	Name   string
	rt     reflect.Type
}

// Fd is a struct field and everything its tag says.
type Fd struct {
	Name  string
	T     *Ty // Go type
	B     *Ty // binary type, nil if the same
	Bits  int // declared bit-field width
	Order binary.ByteOrder
	Skip  int

	Variant, Invert      bool
	Blank, Unexp, Ignore bool
	Embed                bool
	Default              bool
	Parent, Root         bool

	SizeOf, SizeFrom string

	If, Size, BitsX, In, Out, While, Switch, Case *Ex

	// constraints for the generator
	Max    int      // >0: values 0..Max
	Vals   []uint64 // choose among these raw values
	SVals  []string // choose among these strings
	LenMax int      // longest generated sequence
	Long   bool     // generate long sequences

	refd bool // used by an expression

	tag string // rendered
}

func (f *Fd) bin() *Ty {
	if f.B != nil {
		return f.B
	}
	return f.T
}

// takesPart is false for fields the layout ignores completely.
func (f *Fd) takesPart() bool { return !f.Unexp && !f.Ignore }

func ty(k K) *Ty                { return &Ty{K: k} }
func tyArr(n int, e *Ty) *Ty    { return &Ty{K: KArray, Len: n, Elem: e} }
func tySlice(e *Ty) *Ty         { return &Ty{K: KSlice, Elem: e} }
func tyPtr(e *Ty) *Ty           { return &Ty{K: KPtr, Elem: e} }
func tySt(s *St) *Ty            { return &Ty{K: KStruct, St: s} }
func tyCu(c *Cust) *Ty          { return &Ty{K: KCustom, Cu: c} }
func mkSt(f ...*Fd) *St         { return &St{Fields: f} }
func fd(name string, t *Ty) *Fd { return &Fd{Name: name, T: t} }

// RT is the Go type.
func (t *Ty) RT() reflect.Type {
	if t.rt == nil {
		switch t.K {
		case KSlice:
			t.rt = reflect.SliceOf(t.Elem.RT())
		case KArray:
			t.rt = reflect.ArrayOf(t.Len, t.Elem.RT())
		case KPtr:
			t.rt = reflect.PtrTo(t.Elem.RT())
		case KStruct:
			t.rt = t.St.RT()
		case KCustom:
			t.rt = t.Cu.RT
		default:
			if t.Named {
				t.rt = namedRT[t.K]
			} else {
				t.rt = plainRT[t.K]
			}
		}
	}
	return t.rt
}

// RT is the Go struct type.
func (s *St) RT() reflect.Type {
	if s.Static != nil {
		return s.Static
	}
	if s.rt == nil {
		var fs []reflect.StructField
		for _, f := range s.Fields {
			sf := reflect.StructField{Name: f.Name, Type: f.T.RT(), Tag: reflect.StructTag(f.Tag()), Anonymous: f.Embed}
			if f.Blank {
				sf.Name = "_"
			}
			if f.Blank || f.Unexp {
				sf.PkgPath = "verif/harness"
			}
			fs = append(fs, sf)
		}
		s.rt = reflect.StructOf(fs)
	}
	return s.rt
}

// typeText is the type as written in a tag.
func typeText(t *Ty) string {
	switch t.K {
	case KSlice:
		return "[]" + typeText(t.Elem)
	case KArray:
		return fmt.Sprintf("[%d]%s", t.Len, typeText(t.Elem))
	case KPtr:
		return "*" + typeText(t.Elem)
	}
	return kName[t.K]
}

// opts are the options of the tag in canonical order, without expressions.
func (f *Fd) opts() []string {
	var o []string
	if f.Ignore {
		return []string{"-"}
	}
	if f.Parent {
		o = append(o, "parent")
	}
	if f.Root {
		o = append(o, "root")
	}
	if f.B != nil || f.Bits != 0 {
		s := typeText(f.bin())
		if f.Bits != 0 {
			s += ":" + strconv.Itoa(f.Bits)
		}
		o = append(o, s)
	}
	if f.Order == binary.LittleEndian {
		o = append(o, "little")
	} else if f.Order == binary.BigEndian {
		o = append(o, "big")
	}
	if f.Skip != 0 {
		o = append(o, fmt.Sprintf("skip=%d", f.Skip))
	}
	if f.Variant {
		o = append(o, "variantbool")
	}
	if f.Invert {
		o = append(o, "invertedbool")
	}
	if f.Default {
		o = append(o, "default")
	}
	if f.SizeOf != "" {
		o = append(o, "sizeof="+f.SizeOf)
	}
	if f.SizeFrom != "" {
		o = append(o, "sizefrom="+f.SizeFrom)
	}
	return o
}

type exOpt struct {
	key string
	e   *Ex
}

func (f *Fd) exprs() []exOpt {
	var o []exOpt
	for _, x := range []exOpt{{"if", f.If}, {"size", f.Size}, {"bits", f.BitsX}, {"in", f.In}, {"out", f.Out}, {"while", f.While}, {"switch", f.Switch}, {"case", f.Case}} {
		if x.e != nil {
			o = append(o, x)
		}
	}
	return o
}

// Tag renders the tag; a generator may have set it already.
func (f *Fd) Tag() string {
	if f.tag == "" {
		o := f.opts()
		var extra []string
		for _, x := range f.exprs() {
			extra = append(extra, fmt.Sprintf("struct-%s:%s", x.key, strconv.Quote(exprText(x.e))))
		}
		var parts []string
		if len(o) > 0 {
			parts = append(parts, "struct:"+strconv.Quote(strings.Join(o, ",")))
		}
		f.tag = strings.Join(append(parts, extra...), " ")
	}
	return f.tag
}

// renderTag renders the tag with random order, synonyms and placement.
func (f *Fd) renderTag(c *C) {
	o := f.opts()
	for i, s := range o {
		switch s {
		case "little":
			o[i] = c.OneOf("little", "lsb")
		case "big":
			o[i] = c.OneOf("big", "msb", "network")
		}
		if strings.HasPrefix(s, "skip=") {
			switch c.Int(6) {
			case 1:
				o[i] = fmt.Sprintf("skip=0x%x", f.Skip)
			case 2:
				o[i] = fmt.Sprintf("skip=0%o", f.Skip)
			case 3:
				o[i] = fmt.Sprintf("skip=0X%X", f.Skip)
			}
		}
		if f.B != nil || f.Bits != 0 {
			if i := strings.IndexByte(s, ':'); f.Bits != 0 && i > 0 && c.Chance(1, 6) {
				s = s[:i] + fmt.Sprintf([]string{":0x%x", ":0%o", ":0X%X"}[c.Int(3)], f.Bits)
			}
			o[i] = s
			if strings.Contains(s, "uint8") && c.Chance(1, 3) && !strings.Contains(s, "=") {
				o[i] = strings.Replace(s, "uint8", "byte", 1)
			}
			if strings.Contains(s, "int32") && !strings.Contains(s, "uint32") && c.Chance(1, 4) && !strings.Contains(s, "=") {
				o[i] = strings.Replace(s, "int32", "rune", 1)
			}
		}
	}
	var keys []string
	for _, x := range f.exprs() {
		if c.Chance(1, 2) {
			o = append(o, x.key+"="+exprTextRnd(c, x.e))
		} else {
			keys = append(keys, fmt.Sprintf("struct-%s:%s", x.key, strconv.Quote(exprTextRnd(c, x.e))))
		}
	}
	for i := len(o) - 1; i > 0; i-- {
		j := i - c.Int(i+1)
		o[i], o[j] = o[j], o[i]
	}
	var parts []string
	if len(o) > 0 {
		parts = append(parts, "struct:"+strconv.Quote(strings.Join(o, ",")))
	}
	parts = append(parts, keys...)
	if len(parts) > 1 && c.Chance(1, 3) {
		parts[0], parts[len(parts)-1] = parts[len(parts)-1], parts[0]
	}
	if c.Chance(1, 10) {
		parts = append(parts, `json:"x,omitempty"`)
	}
	f.tag = strings.Join(parts, " ")
}

func (t *Ty) String() string {
	switch t.K {
	case KSlice:
		return "[]" + t.Elem.String()
	case KArray:
		return fmt.Sprintf("[%d]%s", t.Len, t.Elem.String())
	case KPtr:
		return "*" + t.Elem.String()
	case KCustom:
		return t.Cu.Name
	case KStruct:
		return t.St.String()
	}
	if t.Named {
		return "named-" + kName[t.K]
	}
	return kName[t.K]
}

func (s *St) String() string {
	if s.Static != nil {
		return s.Static.String()
	}
	var b strings.Builder
	b.WriteString("struct{")
	for i, f := range s.Fields {
		if i > 0 {
			b.WriteString("; ")
		}
		n := f.Name
		if f.Blank {
			n = "_"
		}
		if f.Embed {
			n = "(embedded)" + n
		}
		b.WriteString(n + " " + f.T.String())
		if t := f.Tag(); t != "" {
			b.WriteString(" `" + t + "`")
		}
	}
	b.WriteString("}")
	return b.String()
}

// Layout is a complete case: a type and the caller's byte order.
type Layout struct {
	Top     *Ty
	Order   binary.ByteOrder
	NoOrder bool             // the caller passes nil, as tags give the order wherever it matters
	Pass    binary.ByteOrder // what the caller passes for Order, if not Order itself
}

// strangeOrder is a byte order that is neither of the well-known values.
type strangeOrder struct{ binary.ByteOrder }

// hiddenOrder is another, with a comparable type of its own.
type hiddenOrder struct {
	binary.ByteOrder
	id int
}

// passOrder chooses how a caller may pass a byte order.
func passOrder(c *C, o binary.ByteOrder) binary.ByteOrder {
	switch c.Int(8) {
	case 1:
		return strangeOrder{o}
	case 2:
		return &hiddenOrder{o, 1}
	case 3:
		if o == binary.LittleEndian && binary.NativeEndian.Uint16([]byte{1, 0}) == 1 || o == binary.BigEndian && binary.NativeEndian.Uint16([]byte{0, 1}) == 1 {
			return binary.NativeEndian
		}
	}
	return nil
}

func (l *Layout) order() binary.ByteOrder {
	if l.NoOrder {
		return nil
	}
	if l.Pass != nil {
		return l.Pass
	}
	return l.Order
}
