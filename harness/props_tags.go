package main

// C19: tags mean what they say in any notation; malformed tags are always errors.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
)

// copyLayout copies a layout's types (not the Go types made from them), so that other
// tags can be given to the copy.
func copyLayout(l *Layout, sts map[*St]*St) *Layout {
	n := *l
	n.Top = copyTy(l.Top, sts)
	return &n
}

func copyTy(t *Ty, sts map[*St]*St) *Ty {
	if t == nil {
		return nil
	}
	n := *t
	n.Elem = copyTy(t.Elem, sts)
	if t.St != nil && t.St.Static == nil {
		n.rt = nil
		if sts[t.St] == nil {
			s := &St{}
			sts[t.St] = s
			for _, f := range t.St.Fields {
				nf := *f
				nf.T, nf.B = copyTy(f.T, sts), copyTy(f.B, sts)
				s.Fields = append(s.Fields, &nf)
			}
		}
		n.St = sts[t.St]
	} else if t.Elem != nil {
		n.rt = nil
	}
	return &n
}

// convert gives a copy of a value the type of another layout with the same fields.
func convert(l *Layout, v reflect.Value) reflect.Value {
	return clone(v).Convert(reflect.PtrTo(l.Top.RT()))
}

// runSpelling writes the tags of one layout in two ways.
func runSpelling(c *C, l *Layout, g *gen) {
	data, v, dm := l.genInput(c)
	sts := map[*St]*St{}
	l2 := copyLayout(l, sts)
	n := 0
	for _, s := range sts {
		n += len(s.Fields)
	}
	// in the order of the original fields, so that cases are reproducible
	var walk func(t *Ty, seen map[*St]bool)
	walk = func(t *Ty, seen map[*St]bool) {
		if t == nil {
			return
		}
		walk(t.Elem, seen)
		if t.St == nil || t.St.Static != nil || seen[t.St] {
			return
		}
		seen[t.St] = true
		for _, f := range t.St.Fields {
			if f.takesPart() {
				f.tag = ""
				f.renderTag(c)
			}
			walk(f.T, seen)
		}
	}
	walk(l2.Top, map[*St]bool{})
	c.Note("type   %s", l.Top)
	c.Note("again  %s", l2.Top)
	c.Note("order  %s, input %s", l.Order, hexs(data))
	differ := l.Top.String() != l2.Top.String()
	c.ClassIf(differ, "same layout in two notations")
	_, ok := c.checkUnpack(l, data, l.fresh())
	c.checkUnpack(l2, data, l2.fresh())
	if c.vary(l, v, vAll) > 0 {
		c.Class("varied value")
	}
	p1, _, bits, ok1 := c.checkPack(l, v)
	v2 := convert(l2, v)
	p2, _, _, ok2 := c.checkPack(l2, v2)
	if ok1 != ok2 || !bytes.Equal(p1, p2) {
		c.Fail("the same layout in another notation packs to %s instead of %s", hexs(p2), hexs(p1))
	}
	if ok1 {
		c.checkSizes(l2, v2, bits)
		if !dm.usedEOF {
			c.checkUnpack(l2, p1, l2.fresh())
		}
	}
	c.classLayout(l, g)
	if ok && differ {
		c.NonTrivial()
	}
}

// reached lists the structs of a layout that every call has to look at.
func reached(t *Ty, out []*St) []*St {
	switch t.K {
	case KStruct:
		if t.St.Static != nil {
			return out
		}
		for _, s := range out {
			if s == t.St {
				return out
			}
		}
		out = append(out, t.St)
		for _, f := range t.St.Fields {
			if f.takesPart() && !f.Blank && f.If == nil && f.Switch == nil && !f.Parent && !f.Root {
				out = reached(f.bin(), out)
			}
		}
	case KArray:
		if t.Len > 0 {
			return reached(t.Elem, out)
		}
	case KPtr:
		return reached(t.Elem, out)
	}
	return out
}

// options that are wrong on any field, and why
var badOpts = []string{"foo", "uint9", "int7", "Uint8", "UINT8", "INT32", "map[string]int", "map[uint8]uint8", "chan int8", "chan<- uint8", "func()", "struct{}", "interface{}", "error",
	"[x]byte", "[-1]byte", "[1.5]byte", "[2", "2]byte", "[]", "[4]", "*", "[2]foo", "[]foo", "*foo", "[]map[int]int", "(uint8", "uint8)", "[...]uint8", "['a']byte", "[1+1]byte",
	"uint8:", "uint8:0", "uint8:8", "uint8:9", "int8:8", "uint8:x", "uint8:1x", "uint8:3:3", "uint8: 3", "uint8:-1", "uint8:+1", "uint16:16", "int16:17", "int32:32", "uint32:33", "uint64:64", "int64:65", "int:0", "int:33", "int:40", "uint:33", "uint:63", "int:64", "complex64:5", "complex64:32", "complex128:7", "complex128:64",
	"uint64:255", "uint64:256", "uint16:257", "uint8:259", "uint16:65537", "uint32:4294967297", "uint8:18446744073709551617", "uint8:1.5", "uint8:1e0",
	"bool:1", "bool:3", "string:3", "[]uint8:2", "[4]uint8:4", "*uint8:3", "[]uint8:1", "float64:4", "float64:63", ":3", "3", "uint8 uint8", "uint8;", "uint8=3", "uint8.x",
	"skip=", "skip=x", "skip=-1", "skip=1.5", "skip= 1", "skip=1 ", "skip=1k", "skip=+1", "skip=99999999999999999999", "skip=0x", "skip=08", "skip=1;", "skip=0x1g", "skip", "skip:1", "skip==1",
	"sizeof=", "sizeof=1a", "sizeof=a-b", "sizeof=A.B", "sizeof= A", "sizeof=A ", "sizeof=A(", "sizeof=@", "sizeof", "sizeof:A", "sizeof=[A]",
	"sizefrom=", "sizefrom=1a", "sizefrom=a-b", "sizefrom=A.B", "sizefrom= A", "sizefrom=A+1", "sizefrom",
	"LSB", "Big", "MSB", "endian=big", "bigger", "bigendian", "big endian", "littleendian", "lsbfirst", "network=big", "big=1", "little little", "msb;", "big:",
	"variantbool=true", "variantbools", "variant", "invertedbool=1", "invertedbools", "inverted", "boolean", "rooted", "root=A", "parents", "parent=A", "defaults", "default=1", "Default",
	"if", "if=", "if:A", "if=(", "if=[A", "if='", `if="`, `if="\"`, "if=(A", "if={A", "if=A)", "if=A]", "size", "size=", "size=(", "size:3", "bits", "bits=", "bits=(", "in", "in=", "in=(", "in='a", "out", "out=", "out=[",
	"while", "while=", "while=(", "switch", "switch=", "switch=(", "case", "case=", "case='", "unless=A", "len=3", "type=uint8", "count=A", "pad=3", "align=4", "omitempty",
	"", " ", "?", "???", "#", "&", "\\", "'", `"`, "`", ")", "]", "}", "(", "[", "{", "=", "==", ";", "\x00", "uint8\x00", "big\x00little", "日本", "uint８",
}

// expressions that are not complete
var badExprs = []string{"(", ")", "1 +", "+", "A ==", "== A", "A B", "1 2", "[", "]", "A[", "A[1", "A[]", "A.", ".A", "A..B", "f(", "f(,)", "f(1,", "f(1,,2)", "f(1", "A ? B", "A ? : B", "A : B", "? :", "A ? B :",
	"'", "\"", "''", "'ab'", "'\\q'", "\"\\q\"", "\"abc", "$", "$'", "$'a", "0x", "1e", "0b2", "08", "1_", "0xg", "09.x", "@", "#", "A # B", "`", "A = B", "A += 1", "A++", "A--", "A; B", "{", "}", "{A}", "A,B", ",", "a := 1",
	"A &&", "|| A", "A | | B", "A & & B", "A <", "A < = B", "! ", "-", "^", "*", "A !", "A ! = B", "1.2.3", "1..2", "A ~ B", "~A", "A => B", "A -> B", "\\", "A\\", "\xff", "A \x01", "A\x00", "A \x00 B"}

func badExpr(c *C) string {
	for i := 0; i < 20; i++ {
		s := badExprs[c.Int(len(badExprs))]
		if c.Chance(1, 3) { // damage a good one
			e := genEnv(c, []MK{MUint8, MInt, MBool, MString})
			g := &xgen{c: c, e: e, kinds: []MK{MUint8, MInt}, ops: map[string]int{}}
			s = exprTextRnd(c, g.boolean(2))
			b := []byte(s)
			k := c.Int(len(b))
			switch c.Int(4) {
			case 0:
				b = b[:k]
			case 1:
				b = append(b[:k:k], b[k+1:]...)
			case 2:
				b = append(b[:k:k], append([]byte{"()[]+=?:'\"$,.@#x9 "[c.Int(18)]}, b[k:]...)...)
			default:
				b[k] = "()[]+=?:'\"$,.@#x9 "[c.Int(18)]
			}
			s = string(b)
		}
		if s == "" {
			continue
		}
		if _, open, err := refParse(s); open == "" && err != nil {
			return s
		}
	}
	return "("
}

var exprKeys = []string{"if", "size", "bits", "in", "out", "while", "switch", "case"}

// badTag makes a tag for a field that has to be rejected.
func badTag(c *C, s *St, i int) (tag, why string) {
	f := s.Fields[i]
	base := append([]string{}, f.opts()...)
	var keys []string
	for _, x := range f.exprs() {
		keys = append(keys, fmt.Sprintf("struct-%s:%s", x.key, strconv.Quote(exprText(x.e))))
	}
	if c.Chance(1, 3) {
		base, keys = nil, nil
	}
	finish := func(opt string) string {
		o := append([]string{}, base...)
		j := c.Int(len(o) + 1)
		o = append(o[:j:j], append([]string{opt}, o[j:]...)...)
		if opt == "" && len(o) == 1 {
			o = []string{c.OneOf("", "big"), ""} // a tag of one empty option is no tag
		}
		return strings.Join(append([]string{"struct:" + strconv.Quote(strings.Join(o, ","))}, keys...), " ")
	}
	plain := !f.Parent && !f.Root && !f.Ignore && !(f.T.rt != nil && f.T.K == KIface)
	native := f.T.K
	bin := f.bin()
	later := func(ok func(x *Fd) bool) string {
		var n []string
		for _, x := range s.Fields[i+1:] {
			if !x.Blank && ok(x) {
				n = append(n, x.Name)
			}
		}
		if len(n) == 0 {
			return ""
		}
		return n[c.Int(len(n))]
	}
	named := func(x *Fd) bool { return s.Static == nil && !x.Blank }
	switch c.Pick(8, 3, 3, 2, 2, 2, 2, 2) {
	case 1: // broken expression as a key
		if !plain {
			break
		}
		x := badExpr(c)
		k := exprKeys[c.Int(len(exprKeys))]
		keys = nil
		base = nil // an option would take precedence
		if c.Chance(1, 2) {
			base = []string{c.OneOf("big", "little", "skip=1")}
		}
		t := fmt.Sprintf("struct-%s:%s", k, strconv.Quote(x))
		if len(base) > 0 {
			t = fmt.Sprintf("struct:%s %s", strconv.Quote(base[0]), t)
		}
		return t, "broken expression " + x
	case 2: // broken expression as an option
		if !plain {
			break
		}
		x := badExpr(c)
		if strings.ContainsAny(x, ",") {
			break
		}
		return finish(exprKeys[c.Int(len(exprKeys))] + "=" + x), "broken expression " + x
	case 3: // count of something that has none
		if !plain || counterOf(s, f) >= 0 {
			break
		}
		n := later(func(x *Fd) bool {
			return x.Ignore || x.Unexp || x.Parent || x.Root || x.T.K != KSlice && x.T.K != KStr && x.T.K != KCustom
		})
		for _, x := range s.Fields[:i] {
			if n == "" && named(x) && c.Chance(1, 2) {
				n = x.Name
			}
		}
		if n == "" || c.Chance(1, 4) {
			n = c.OneOf("Missing", "zz", f.Name+"_")
		}
		if n == "_" || n == "_ " {
			break
		}
		base = nil
		return finish("sizeof=" + n), "sizeof of a field that is no counted sequence"
	case 4: // counted by something that is not there
		if !plain || f.Blank {
			break
		}
		n := ""
		if native == KSlice || native == KStr {
			n = later(named)
		} else if native != KCustom {
			for _, x := range s.Fields[:i] {
				if named(x) && c.Chance(1, 2) {
					n = x.Name
				}
			}
		}
		if n == "" {
			n = c.OneOf("Missing", "zz", f.Name)
		}
		base = nil
		return finish("sizefrom=" + n), "sizefrom on this field"
	case 5: // length of something that has none
		if !plain || native == KSlice || native == KStr || native == KCustom {
			break
		}
		base = nil
		if c.Chance(1, 2) {
			return `struct-size:"3"`, "length of a field that has none"
		}
		return finish("size=3"), "length of a field that has none"
	case 6: // width of something that has none
		if !plain || !(bin.K == KBool || bin.K == KF64 || bin.K == KC64 || bin.K == KC128 || bin.K == KStr || bin.K == KSlice || bin.K == KArray || bin.K == KStruct || bin.K == KPtr || bin.K == KIface) {
			break
		}
		if bin.rt != nil && bin.K == KIface && bin.rt.Kind() != reflect.Interface {
			break
		}
		if f.B == nil {
			base = nil
		}
		if c.Chance(1, 2) {
			return finish("bits=3"), "width of a field that has none"
		}
		return strings.Replace(finish("big"), "struct:", `struct-bits:"3" struct:`, 1), "width of a field that has none"
	case 7: // ignored and something else
		if len(base) == 0 {
			base = []string{c.OneOf("big", "little", "uint8", "skip=2", "root", "parent", "default", "if=A", "-")}
		}
		return finish("-"), "ignored with other options"
	}
	o := badOpts[c.Int(len(badOpts))]
	if o == "if=A)" || o == "if=A]" {
		// a complete option whose expression is broken: expressions of references are not read
		if !plain {
			o = "if=("
		}
	}
	return finish(o), "option " + strconv.Quote(o)
}

// runBadTag gives one field of a layout a malformed tag.
func runBadTag(c *C, l *Layout) {
	data, v, _ := l.genInput(c)
	l2 := copyLayout(l, map[*St]*St{})
	sts := reached(l2.Top, nil)
	if len(sts) == 0 {
		c.Discard("no struct")
	}
	depth := c.Int(len(sts))
	s := sts[depth]
	var can []int
	for i, f := range s.Fields {
		if !f.Unexp {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		c.Discard("no field")
	}
	i := can[c.Int(len(can))]
	f := s.Fields[i]
	tag, why := badTag(c, s, i)
	f.tag = tag
	f.Ignore = false
	c.Note("type   %s", l2.Top)
	c.Note("order  %s, input %s", l.Order, hexs(data))
	c.Note("tag    %s of %s is wrong: %s", tag, f.Name, why)
	pv := convert(l2, v)
	arr := c.Chance(1, 6)
	var want error // the documented error value
	native := f.T.K
	sized := native == KSlice || native == KStr
	switch {
	case why == "length of a field that has none":
		want = restruct.ErrInvalidSize
	case why == "width of a field that has none":
		want = restruct.ErrInvalidBits
	case why == "sizefrom on this field" && !sized && native != KCustom:
		want = restruct.ErrInvalidSizeFrom
	case why == "sizeof of a field that is no counted sequence":
		for _, x := range s.Fields[i+1:] {
			if strings.Contains(tag, "sizeof="+x.Name+",") || strings.Contains(tag, "sizeof="+x.Name+"\"") {
				if x.takesPart() && !x.Parent && !x.Root && !x.Blank && x.T.K != KCustom {
					want = restruct.ErrInvalidSizeOf
				}
			}
		}
	}
	if strings.Contains(tag, "bits") && want != restruct.ErrInvalidBits {
		want = nil // the tag is wrong in two ways
	}
	c.ClassIf(want != nil, "documented error value")
	check := func(what string, err error) {
		if err == nil {
			c.Fail("%s succeeded with the malformed tag `%s` on %s", what, tag, f.Name)
		}
		if want != nil && !errors.Is(err, want) {
			c.Fail("%s with the malformed tag `%s` on %s (%s): error %v instead of %v", what, tag, f.Name, why, err, want)
		}
	}
	ops := []func(){
		func() { _, err := c.Pack(l.order(), clone(pv).Interface()); check("Pack", err) },
		func() { check("Unpack", c.Unpack(data, l.order(), l2.fresh().Interface())) },
		func() { _, err := c.SizeOf(clone(pv).Interface()); check("SizeOf", err) },
		func() { _, err := c.BitSize(clone(pv).Interface()); check("BitSize", err) },
		func() { _, err := c.Pack(l.order(), clone(pv).Elem().Interface()); check("Pack of the value", err) },
		func() {
			if arr {
				a := reflect.New(reflect.ArrayOf(2, l2.Top.RT()))
				check("Unpack of an array", c.Unpack(append(data[:len(data):len(data)], data...), l.order(), a.Interface()))
				a.Elem().Index(0).Set(clone(pv).Elem())
				a.Elem().Index(1).Set(clone(pv).Elem())
				_, err := c.Pack(l.order(), a.Interface())
				check("Pack of an array", err)
				_, err = c.SizeOf(a.Interface())
				check("SizeOf of an array", err)
			}
		},
	}
	for r := 0; r < 2; r++ {
		for i := len(ops) - 1; i > 0; i-- {
			j := i - c.Int(i+1)
			ops[i], ops[j] = ops[j], ops[i]
		}
		for _, op := range ops {
			op()
		}
	}
	// the failures leave nothing behind
	c.checkUnpack(l, data, l.fresh())
	c.ClassIf(depth > 0, "inside a nested struct")
	c.Class("rejected: " + strings.SplitN(why, " ", 2)[0])
	c.NonTrivial()
}

// runOneField combines options on one field and compares with what each says.
func runOneField(c *C) {
	f := fd("F", ty(intKinds[c.Int(10)]))
	if c.Chance(1, 4) {
		f.T = ty(KBool)
		f.Variant, f.Invert = c.Chance(1, 2), c.Chance(1, 2)
	}
	b := intKinds[c.Int(10)]
	if c.Chance(2, 3) {
		f.B = ty(b)
		if f.T.K != KBool {
			f.T = ty(KU64)
			if b.signed() {
				f.T = ty(KI64)
			}
		}
		if c.Chance(1, 2) && b != KI8 {
			f.Bits = c.Range(1, kWidth[b]-1)
		}
	}
	if c.Chance(1, 2) {
		f.Skip = c.Len(300)
	}
	if c.Chance(2, 3) {
		f.Order = binary.ByteOrder(binary.LittleEndian)
		if c.Chance(1, 2) {
			f.Order = binary.BigEndian
		}
	}
	if c.Chance(1, 2) {
		a := id("A", MUint8)
		arg := func() *Ex { return c.commaExpr(a, 2) }
		f.If = bin(c.OneOf("==", "!=", "<", ">="), arg(), arg())
	}
	a := fd("A", ty(KU8))
	a.refd = true
	str := fd("S", ty(KStr))
	str.B = tyArr(5, ty(KU8))
	str.SVals = []string{"a,b", ")", "'", "\"", "x\\", "(["}
	str.refd = true
	if f.If != nil && c.Chance(1, 2) {
		f.If = bin(c.OneOf("&&", "||"), f.If, bin(c.OneOf("==", "!="), id("S", MString), slit(str.SVals[c.Int(len(str.SVals))])))
	}
	s := mkSt(a, str, f)
	if c.Chance(1, 2) {
		s.Fields = append(s.Fields, fd("P", ty(KU16)))
	}
	l := &Layout{Order: binary.LittleEndian, Top: tySt(s)}
	if c.Chance(1, 2) {
		l.Order = binary.BigEndian
	}
	runSpelling(c, l, &gen{})
}

// commaExpr makes a number from calls with several arguments.
func (c *C) commaExpr(a *Ex, d int) *Ex {
	switch {
	case d == 0 || c.Chance(1, 4):
		return a
	case c.Chance(1, 3):
		return call(dot(id("bits", MNone), "Reverse8"), c.commaExpr(a, d-1))
	}
	return call(dot(id("bits", MNone), "RotateLeft8"), c.commaExpr(a, d-1), ilit(c.Int(9)))
}

// runMisplaced makes a struct with one tag that is well-formed but cannot apply where it
// stands; the field it is on is reached by every call.
func runMisplaced(c *C) {
	word := func() reflect.Type { return ty(intKinds[c.Int(8)]).RT() }
	tag := func(k, x string) string {
		if c.Chance(1, 2) {
			return fmt.Sprintf("struct-%s:%s", k, strconv.Quote(x))
		}
		return "struct:" + strconv.Quote(k+"="+x)
	}
	const (
		oPack = 1 << iota
		oUnpack
		oSize
		oAll = oPack | oUnpack | oSize
	)
	type fld = reflect.StructField
	var fs []fld
	n := 0
	add := func(t reflect.Type, tag string) string {
		n++
		f := fld{Name: string(rune('A' + n - 1)), Type: t, Tag: reflect.StructTag(tag)}
		fs = append(fs, f)
		return f.Name
	}
	for i := c.Int(3); i > 0; i-- {
		add(word(), "")
	}
	k := add(word(), "") // zero in every input
	why, ops := "", oAll
	// cases of a switch on k of which none before place applies
	swit := func(bad ...fld) {
		var cs []fld
		nc := 0
		put := func(t reflect.Type, tag string) {
			nc++
			cs = append(cs, fld{Name: fmt.Sprintf("C%d", nc), Type: t, Tag: reflect.StructTag(tag)})
		}
		others := func() {
			for i := c.Int(3); i > 0; i-- {
				put(word(), tag("case", fmt.Sprint(1+c.Int(100))))
			}
		}
		others()
		for _, b := range bad {
			put(b.Type, string(b.Tag))
			others()
		}
		if c.Chance(1, 2) {
			put(word(), tag("case", "0"))
		}
		add(reflect.StructOf(cs), tag("switch", k))
	}
	seq := func() reflect.Type { return reflect.SliceOf(word()) }
	scalar := func() reflect.Type {
		return []reflect.Type{word(), reflect.TypeOf(false), reflect.TypeOf(1.5), reflect.TypeOf([3]uint8{}), reflect.TypeOf([]uint16{}), reflect.TypeOf("")}[c.Int(4)]
	}
	notBool := func() string {
		return c.OneOf("1", "0", k, k+"+1", "'a'", `"true"`, "1.5", "int("+k+")", "-"+k, k+" & 1", "("+k+")", k+"==0 ? 1 : 2")
	}
	unknown := func() string {
		return c.OneOf("Missing", "zz", "Missing+1", k+"+Missing", "bits.Missing("+k+")", "bits.zz", "missing(1)", k+".X", k+"[0]", k+"()")
	}
	switch c.Pick(3, 3, 3, 2, 2, 4, 4, 2, 2, 2, 2) {
	case 0:
		why = "two default cases"
		swit(fld{Type: word(), Tag: `struct:"default"`}, fld{Type: word(), Tag: reflect.StructTag(c.OneOf(`struct:"default"`, `struct:"big,default"`, `struct:"default,little"`))})
	case 1:
		why = "a plain field among the cases"
		swit(fld{Type: scalar(), Tag: reflect.StructTag(c.OneOf("", `struct:"big"`, `struct:"skip=1"`, `struct-if:"true"`, `struct:"little,if=true"`))})
	case 2:
		why = "a switch on something else than a struct"
		add(scalar(), tag("switch", k))
	case 3:
		why = "a condition that is not boolean"
		add(scalar(), tag("if", notBool()))
	case 4:
		why = "a loop condition that is not boolean"
		add(seq(), tag("while", notBool()))
		ops = oUnpack
	case 5:
		why = "an unknown name in an expression"
		x := unknown()
		switch c.Int(8) {
		case 0:
			add(scalar(), tag("if", x+"==1"))
		case 1:
			add(seq(), tag("size", x))
			ops = oPack | oUnpack
		case 2:
			add(word(), tag("bits", x))
		case 3:
			add(seq(), tag("while", x+"==1"))
			ops = oUnpack
		case 4:
			add(word(), tag("in", x))
			ops = oUnpack
		case 5:
			add(word(), tag("out", x))
			ops = oPack
		case 6:
			add(reflect.TypeOf(struct {
				X uint8 `struct-case:"0"`
			}{}), tag("switch", x))
		default:
			swit(fld{Type: word(), Tag: reflect.StructTag(tag("case", x))})
		}
	case 6:
		why = "a count that is no number"
		ct := reflect.TypeOf("")
		if c.Chance(2, 3) {
			ct = []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(1.5), reflect.TypeOf(float32(1)), reflect.TypeOf([2]uint8{}), reflect.TypeOf([]uint8{}), reflect.TypeOf(1i)}[c.Int(6)]
		}
		t := []reflect.Type{seq(), reflect.TypeOf(""), reflect.TypeOf([]byte{})}[c.Int(3)]
		// what the value's own length has to do with the count is not asked for the sizes
		ops = oPack | oUnpack
		if c.Chance(1, 2) {
			m := string(rune('A' + n + 1))
			add(ct, fmt.Sprintf(`struct:"sizeof=%s"`, m))
			add(t, "")
		} else {
			m := add(ct, "")
			add(t, fmt.Sprintf(`struct:"sizefrom=%s"`, m))
		}
	case 7:
		why = "a length that is no number"
		add(seq(), tag("size", c.OneOf(`"3"`, "true", `"a" + "b"`, k+"==0", "!true")))
		ops = oPack | oUnpack
	case 8:
		why = "a width that is no number"
		add(word(), tag("bits", c.OneOf(`"3"`, "true", `"a" + "b"`, k+"==0", "!true")))
	case 9:
		why = "a value that the field cannot take"
		x, t := c.OneOf(`"3"`, `"a" + "b"`, "bits.Len8", `""`), word()
		if c.Chance(1, 3) { // numbers are no characters here
			x, t = c.OneOf("65", k, k+" + 65", "'a'", "1.5", "int("+k+")", "true"), reflect.TypeOf("")
		}
		if c.Chance(1, 2) {
			add(t, tag("in", x))
			ops = oUnpack
		} else {
			add(t, tag("out", x))
			ops = oPack
		}
	default:
		why = "a case that cannot be compared"
		swit(fld{Type: word(), Tag: reflect.StructTag(tag("case", c.OneOf(`"a"`, "true", `""`, "false", "bits.Len8", k+" == 0")))})
	}
	for i := c.Int(2); i > 0; i-- {
		add(word(), "")
	}
	typ := reflect.StructOf(fs)
	depth := c.Int(3)
	top := typ
	for i := 0; i < depth; i++ {
		switch c.Int(3) {
		case 0:
			top = reflect.StructOf([]fld{{Name: "Q", Type: word()}, {Name: "V", Type: top}})
		case 1:
			top = reflect.ArrayOf(1+c.Int(2), top)
		default:
			top = reflect.StructOf([]fld{{Name: "V", Type: reflect.PtrTo(top)}})
		}
	}
	c.Note("type   %s", top)
	c.Note("wrong  %s", why)
	var order binary.ByteOrder = binary.LittleEndian
	if c.Chance(1, 2) {
		order = binary.BigEndian
	}
	value := func() reflect.Value {
		v := reflect.New(top)
		for e := v.Elem(); e.Type() != typ; {
			switch e.Kind() {
			case reflect.Ptr:
				e.Set(reflect.New(e.Type().Elem()))
				e = e.Elem()
			case reflect.Array:
				e = e.Index(0)
			default:
				e = e.FieldByName("V")
			}
		}
		return v
	}
	for r := 0; r < 2; r++ {
		if ops&oPack != 0 {
			if _, err := c.Pack(order, value().Interface()); err == nil {
				c.Fail("Pack succeeded with %s", why)
			}
		}
		if ops&oUnpack != 0 {
			if err := c.Unpack(make([]byte, 200+c.Int(100)), order, reflect.New(top).Interface()); err == nil {
				c.Fail("Unpack succeeded with %s", why)
			}
		}
		if ops&oSize != 0 {
			if _, err := c.SizeOf(value().Interface()); err == nil {
				c.Fail("SizeOf succeeded with %s", why)
			}
			if _, err := c.BitSize(value().Interface()); err == nil {
				c.Fail("BitSize succeeded with %s", why)
			}
		}
	}
	c.Class("cannot apply: " + why)
	c.NonTrivial()
}

func runC19(c *C) {
	may := FAll &^ FStatic
	switch c.Pick(10, 12, 6, 3) {
	case 3:
		runMisplaced(c)
	case 0:
		l, g := newLayout(c, may, FRndTag)
		if c.Chance(1, 2) {
			l, g = newLayout(c, may, FIf|FOrder|FSkip|FCast|FRndTag)
		}
		runSpelling(c, l, g)
	case 1:
		l, _ := newLayout(c, may, 0)
		runBadTag(c, l)
	default:
		runOneField(c)
	}
}

func init() {
	register(&Prop{ID: "C19", Run: runC19, Quick: 30000, Thor: 500000,
		Rule: "either a generated layout has its tags written twice (options in another order, synonyms, options as tag keys, other notations of numbers, other spacing and parentheses in expressions, commas inside calls and quotes) and both must behave as the one layout the model describes, or one reached field gets a malformed or inapplicable tag (a catalogue of options, broken expressions, misplaced counts, lengths and widths, combined with the field's own options at any position) and every operation on the type must return an error, repeatedly and in any order, or a fixed shape gets a well-formed tag that cannot apply (a second default, a plain field among cases, conditions that are not boolean, unknown names, counts and lengths that are no numbers) and every call that evaluates it must return an error; non-trivial: the two notations differ and unpacking succeeds, or a malformed tag was tried",
		Tech: "property-based testing: metamorphic (two notations of one layout) with a reference codec, and fuzzed malformed tags that must be errors"})
}
