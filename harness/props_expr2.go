package main

// Expression language: bad expressions (C18), name resolution (C24), the bits
// library (C25).

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"
)

// A world of composite values for expressions.

type XDeep struct {
	Q  int64
	Fs []float32
	Ok bool
}

type XSub struct {
	A      uint8
	X      float32
	T      string
	D      XDeep
	hidden int16
}

type XCmp struct {
	K uint16
	L string
}

type XBase struct {
	E1  int32
	Amb int
	Sh  string
	E2  []uint8
}

type XOther struct {
	Amb int
	O1  uint64
}

type xlower struct {
	L1 int16
	l2 int
}

type XPtr struct {
	P1 float64
	Q1 *XDeep
}

type XRec struct {
	XBase
	XOther
	xlower
	*XPtr
	A      int
	B      string
	Sh     uint32 // shadows XBase.Sh
	Sub    XSub
	P      *XSub
	NilP   *XSub
	PP     **XSub
	S      []int16
	Arr    [3]uint8
	M      map[string]int
	MI     map[int]string
	MU     map[uint8]*XSub
	MM     map[string]XSub
	MB     map[bool]uint16
	NilM   map[string]int
	NilS   []int
	Self   *XRec
	I      interface{}
	SI     []interface{}
	Fn     func(int, uint8) int64
	NilFn  func()
	Named  xInt16
	C      complex64
	Cmp    XCmp
	Bs     []byte
	SS     []XSub
	SP     []*XSub
	Mat    [2][3]int32
	hidden int
}

type world struct {
	rec   *XRec
	env   *xenv
	preds []string
}

func genSub(c *C) XSub {
	return XSub{A: uint8(c.U64(8)), X: float32(c.Int(100)) / 4, T: c.OneOf("", "t", "sub", "zé", "\xfe"), D: XDeep{Q: int64(c.U64(64)), Fs: []float32{1.5, float32(c.Int(50)), -2}, Ok: c.Chance(1, 2)}, hidden: 7}
}

func genWorld(c *C) *XRec {
	r := &XRec{
		XBase: XBase{E1: int32(c.U64(32)), Amb: 1, Sh: "shadowed", E2: c.Bytes(3)}, XOther: XOther{Amb: 2, O1: c.U64(64)}, xlower: xlower{L1: int16(c.U64(16)), l2: 3},
		A: int(int64(c.U64(64))), B: c.OneOf("", "bee", "B", "é世!", "\xff\x80z", "naïve — text", "\U0001F600"), Sh: uint32(c.U64(32)), Sub: genSub(c),
		S: []int16{int16(c.U64(16)), int16(c.Int(9)), -1, 40}, Arr: [3]uint8{uint8(c.U64(8)), 2, 3},
		M: map[string]int{"a": int(c.U64(16)), "b": -5, "": 9}, MI: map[int]string{0: "zero", -3: "m3", 7: "seven"},
		MB: map[bool]uint16{true: uint16(c.U64(16))}, MM: map[string]XSub{"k": genSub(c)},
		Named: xInt16(c.U64(16)), C: 1 + 2i, Cmp: XCmp{K: 3, L: "l"}, Bs: c.Bytes(4), hidden: 5,
		Mat: [2][3]int32{{1, int32(c.U64(32)), 3}, {4, 5, -6}},
	}
	s1, s2 := genSub(c), genSub(c)
	r.P = &s1
	p2 := &s2
	r.PP = &p2
	r.MU = map[uint8]*XSub{1: &s2, 200: &s1, 9: nil}
	r.SS = []XSub{genSub(c), s2}
	r.SP = []*XSub{&s1, nil, &r.Sub}
	r.XPtr = &XPtr{P1: float64(c.Int(100)) / 8, Q1: &s1.D}
	r.Self = r
	r.Fn = func(a int, b uint8) int64 { return int64(a)*7 + int64(b) }
	r.I = []interface{}{int(c.U64(10)), "str", s1, &s2, uint8(3), []int16{4, 5}}[c.Int(6)]
	r.SI = []interface{}{int8(c.U64(8)), "x", s2, &s1, 2.5}
	return r
}

// xacc is a way to reach a value, as text and as the Go code for it.
type xacc struct {
	text string
	get  func(r *XRec) interface{}
}

// xaccs are written by hand: the text and the same thing in Go. unary * binds
// looser than postfix operators in both.
var xaccs = []xacc{
	{"Fn == nil", func(r *XRec) interface{} { return r.Fn == nil }},
	{"nil == NilFn", func(r *XRec) interface{} { return nil == r.NilFn }},
	{"A", func(r *XRec) interface{} { return r.A }},
	{"B", func(r *XRec) interface{} { return r.B }},
	{"E1", func(r *XRec) interface{} { return r.E1 }},
	{"XBase.E1", func(r *XRec) interface{} { return r.XBase.E1 }},
	{"XBase.Amb", func(r *XRec) interface{} { return r.XBase.Amb }},
	{"XOther.Amb", func(r *XRec) interface{} { return r.XOther.Amb }},
	{"Sh", func(r *XRec) interface{} { return r.Sh }},
	{"XBase.Sh", func(r *XRec) interface{} { return r.XBase.Sh }},
	{"E2", func(r *XRec) interface{} { return r.E2 }},
	{"E2[1]", func(r *XRec) interface{} { return r.E2[1] }},
	{"O1", func(r *XRec) interface{} { return r.O1 }},
	{"L1", func(r *XRec) interface{} { return r.L1 }},
	{"P1", func(r *XRec) interface{} { return r.P1 }},
	{"XPtr", func(r *XRec) interface{} { return r.XPtr }},
	{"XPtr.P1", func(r *XRec) interface{} { return r.XPtr.P1 }},
	{"*XPtr", func(r *XRec) interface{} { return *r.XPtr }},
	{"Q1.Q", func(r *XRec) interface{} { return r.Q1.Q }},
	{"Sub", func(r *XRec) interface{} { return r.Sub }},
	{"Sub.A", func(r *XRec) interface{} { return r.Sub.A }},
	{"Sub.D.Q", func(r *XRec) interface{} { return r.Sub.D.Q }},
	{"Sub.D.Fs[1]", func(r *XRec) interface{} { return r.Sub.D.Fs[1] }},
	{"Sub.T", func(r *XRec) interface{} { return r.Sub.T }},
	{"P", func(r *XRec) interface{} { return r.P }},
	{"*P", func(r *XRec) interface{} { return *r.P }},
	{"P.X", func(r *XRec) interface{} { return r.P.X }},
	{"(*P).X", func(r *XRec) interface{} { return (*r.P).X }},
	{"P.D.Ok", func(r *XRec) interface{} { return r.P.D.Ok }},
	{"NilP", func(r *XRec) interface{} { return r.NilP }},
	{"NilP == nil", func(r *XRec) interface{} { return r.NilP == nil }},
	{"nil != P", func(r *XRec) interface{} { return nil != r.P }},
	{"*PP", func(r *XRec) interface{} { return *r.PP }},
	{"**PP", func(r *XRec) interface{} { return **r.PP }},
	{"(*PP).T", func(r *XRec) interface{} { return (*r.PP).T }},
	{"S", func(r *XRec) interface{} { return r.S }},
	{"S[0]", func(r *XRec) interface{} { return r.S[0] }},
	{"S[S[1] % 4 * 0 == 0 ? 3 : 2]", func(r *XRec) interface{} { return r.S[3] }},
	{"Arr", func(r *XRec) interface{} { return r.Arr }},
	{"Arr[2]", func(r *XRec) interface{} { return r.Arr[2] }},
	{"Mat[1][2]", func(r *XRec) interface{} { return r.Mat[1][2] }},
	{"Mat[0]", func(r *XRec) interface{} { return r.Mat[0] }},
	{"M", func(r *XRec) interface{} { return r.M }},
	{`M["a"]`, func(r *XRec) interface{} { return r.M["a"] }},
	{`M[$'b']`, func(r *XRec) interface{} { return r.M["b"] }},
	{`M["none"]`, func(r *XRec) interface{} { return r.M["none"] }},
	{`M[B]`, func(r *XRec) interface{} { return r.M[r.B] }},
	{`NilM["x"]`, func(r *XRec) interface{} { return r.NilM["x"] }},
	{"NilM == nil", func(r *XRec) interface{} { return r.NilM == nil }},
	{"NilS == nil", func(r *XRec) interface{} { return r.NilS == nil }},
	{"S != nil", func(r *XRec) interface{} { return r.S != nil }},
	{"MI[0]", func(r *XRec) interface{} { return r.MI[0] }},
	{"MI[-3]", func(r *XRec) interface{} { return r.MI[-3] }},
	{"MI[A]", func(r *XRec) interface{} { return r.MI[r.A] }},
	{"MU[200]", func(r *XRec) interface{} { return r.MU[200] }},
	{"MU[1].D.Q", func(r *XRec) interface{} { return r.MU[1].D.Q }},
	{"MU[Arr[1]] == nil", func(r *XRec) interface{} { return r.MU[r.Arr[1]] == nil }},
	{`MM["k"].D.Fs[0]`, func(r *XRec) interface{} { return r.MM["k"].D.Fs[0] }},
	{`MM["q"].A`, func(r *XRec) interface{} { return r.MM["q"].A }},
	{"MB[true]", func(r *XRec) interface{} { return r.MB[true] }},
	{"MB[P.D.Ok]", func(r *XRec) interface{} { return r.MB[r.P.D.Ok] }},
	{"Self", func(r *XRec) interface{} { return r.Self }},
	{"Self.Self.Self.A", func(r *XRec) interface{} { return r.Self.Self.Self.A }},
	{"Self == Self.Self", func(r *XRec) interface{} { return r.Self == r.Self.Self }},
	{"P == SP[0]", func(r *XRec) interface{} { return r.P == r.SP[0] }},
	{"P == SP[2]", func(r *XRec) interface{} { return r.P == r.SP[2] }},
	{"SP[1] == nil", func(r *XRec) interface{} { return r.SP[1] == nil }},
	{"I", func(r *XRec) interface{} { return r.I }},
	{"SI[0]", func(r *XRec) interface{} { return r.SI[0] }},
	{"SI[1]", func(r *XRec) interface{} { return r.SI[1] }},
	{"SI[2].A", func(r *XRec) interface{} { return r.SI[2].(XSub).A }},
	{"SI[3].D.Q", func(r *XRec) interface{} { return r.SI[3].(*XSub).D.Q }},
	{"SI[4] + 1", func(r *XRec) interface{} { return r.SI[4].(float64) + 1 }},
	{"Fn(2, 3)", func(r *XRec) interface{} { return r.Fn(2, 3) }},
	{"Fn(A, Arr[0])", func(r *XRec) interface{} { return r.Fn(r.A, r.Arr[0]) }},
	{"Self.Fn(Self.A, P.A) + 1", func(r *XRec) interface{} { return r.Fn(r.A, r.P.A) + 1 }},
	{"Named", func(r *XRec) interface{} { return int16(r.Named) }},
	{"Cmp == Self.Cmp", func(r *XRec) interface{} { return r.Cmp == r.Self.Cmp }},
	{"Cmp != Self.Cmp", func(r *XRec) interface{} { return r.Cmp != r.Self.Cmp }},
	{"Cmp.L + B", func(r *XRec) interface{} { return r.Cmp.L + r.B }},
	{"Bs", func(r *XRec) interface{} { return r.Bs }},
	{"Bs[3]", func(r *XRec) interface{} { return r.Bs[3] }},
	{"B == \"bee\" ? B[1] : Bs[0]", func(r *XRec) interface{} {
		if r.B == "bee" {
			return r.B[1]
		}
		return r.Bs[0]
	}},
	{"SS[1].T", func(r *XRec) interface{} { return r.SS[1].T }},
	{"SS[0].D.Fs", func(r *XRec) interface{} { return r.SS[0].D.Fs }},
	{"SP[2].A == Sub.A", func(r *XRec) interface{} { return r.SP[2].A == r.Sub.A }},
	{"Self.XPtr.Q1.Q", func(r *XRec) interface{} { return r.XPtr.Q1.Q }},
	{"*&Self.A", nil},
}

// xbad are accesses that Go would refuse or that fail at run time.
var xbad = []string{"Nope", "Amb", "hidden", "l2", "xlower", "Sub.hidden", "Sub.Nope", "P.hidden", "A.B", "B.A", "S.A", "NilP.A", "*NilP", "*A", "SP[1].A", "S[4]", "S[-1]",
	"Arr[3]", "S[B]", "S[1.5]", "S[true]", "S[nil]", "A[0]", "P[0]", "Fn()", "Fn(1)", "Fn(1,2,3)", "Fn(B, 1)", "Fn(A, A)", "Fn(nil, 1)", "A(1)", "P(1)", "M[1]", "M[nil]", "MI[\"a\"]", "MU[A]",
	"Self.Nope", "Self.Self.hidden", "M.a", "nil.A", "nil[0]", "nil()", "Cmp < Cmp", "S == S", "M == M", "Fn == Fn", "P < P", "P == 0", "Sub == 0", "A == nil", "B == nil", "Arr == nil", "Sub == nil", "P == Self", "Self.A.B", "B[99]", "B[-1]", "bits.Len(1)"}

func evalWays(r *XRec) []struct {
	name string
	r    expr.Resolver
} {
	meta := expr.NewMetaResolver()
	meta.AddResolver(expr.NewMapResolver(map[string]expr.Value{"Unrelated": expr.ValueOf(1)}))
	meta.AddResolver(expr.NewStructResolver(reflect.ValueOf(*r)))
	meta.AddResolver(expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf("wrong"), "Amb": expr.ValueOf("late"), "B": expr.ValueOf(3.5)}))
	return []struct {
		name string
		r    expr.Resolver
	}{
		{"struct", expr.NewStructResolver(reflect.ValueOf(*r))},
		{"addressable struct", expr.NewStructResolver(reflect.ValueOf(r).Elem())},
		{"meta", meta},
	}
}

func sameReached(got, want interface{}) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	m := mFromReflect(reflect.ValueOf(want))
	if m.K != MComp {
		return sameGo(got, m)
	}
	return sameResult(got, m)
}

func runC24(c *C) {
	rec := genWorld(c)
	c.Class("mode static")
	n := 8
	// a program is read once for all ways of resolving
	for i := 0; i < n; i++ {
		a := xaccs[c.Int(len(xaccs)-1)]
		want := a.get(rec)
		for _, w := range evalWays(rec) {
			got, err := c.Eval(w.r, a.text)
			if err != nil {
				c.Fail("%s (%s resolver): error %v, Go reads %v", a.text, w.name, err, want)
			}
			if !sameReached(got, want) {
				c.Fail("%s (%s resolver) = %T(%v), Go reads %T(%v)", a.text, w.name, got, got, want, want)
			}
		}
		c.Note("%s = %T", a.text, want)
	}
	for i := 0; i < 3; i++ {
		s := xbad[c.Int(len(xbad))]
		for _, w := range evalWays(rec) {
			if w.name == "meta" && (s == "Amb") {
				got, err := c.Eval(w.r, s)
				if err != nil || got != "late" {
					c.Fail("Amb (only known to the later resolver) = %v, %v", got, err)
				}
				continue
			}
			if w.name == "meta" && s == "A.B" {
				continue
			}
			got, err := c.Eval(w.r, s)
			if err == nil {
				c.Fail("%s (%s resolver) = %v, but Go has no such value", s, w.name, got)
			}
			c.noPanic("Error()", guard(func() { _ = err.Error() }))
		}
	}
	randomIndex(c, rec)
	randomPaths(c)
	randomCalls(c)
	namesakeFields(c)
	manyResolvers(c)
	resolverTypes(c, rec)
	c.NonTrivial()
}

// longIndex indexes long sequences and maps of many entries.
func longIndex(c *C) {
	n := bigLen(c) % 80000
	s := make([]uint32, n)
	b := make([]byte, n)
	m := map[int]int{}
	for i := range s {
		s[i] = uint32(i)*2654435761 + 1
		b[i] = byte(s[i] >> 13)
		if i < 3000 {
			m[i*7] = i
		}
	}
	var arr [5000]int16
	for i := range arr {
		arr[i] = int16(i * 13)
	}
	r := expr.NewMapResolver(map[string]expr.Value{"s": expr.ValueOf(s), "t": expr.ValueOf(string(b)), "m": expr.ValueOf(m), "arr": expr.ValueOf(arr), "p": expr.ValueOf(&arr)})
	for i := 0; i < 8; i++ {
		at := c.OneOfInt(n-1, c.Int(n), c.Int(n))
		k, a := c.Int(len(m)), c.Int(len(arr))
		for _, x := range []struct {
			text string
			want interface{}
		}{
			{fmt.Sprintf("s[%d]", at), s[at]}, {fmt.Sprintf("t[%d]", at), b[at]},
			{fmt.Sprintf("m[%d]", 7*k), k}, {fmt.Sprintf("arr[%d]", a), arr[a]}, {fmt.Sprintf("(*p)[%d]", a), arr[a]},
		} {
			got, err := c.Eval(r, x.text)
			if err != nil || got != x.want {
				c.Fail("%s (%d elements) = %T(%v), %v; want %T(%v)", x.text, n, got, got, err, x.want, x.want)
			}
		}
	}
	if v, err := c.Eval(r, fmt.Sprintf("s[%d]", n)); err == nil {
		c.Fail("s[%d] = %v, but it is out of bounds", n, v)
	}
	c.Class("long sequences indexed")
}

// randomIndex indexes sequences inside and outside of their bounds.
func randomIndex(c *C, rec *XRec) {
	if c.Chance(1, 200) {
		longIndex(c)
	}
	seqs := []struct {
		text string
		v    interface{}
	}{{"B", rec.B}, {"S", rec.S}, {"Bs", rec.Bs}, {"E2", rec.E2}, {"Arr", rec.Arr}, {"Mat", rec.Mat}, {"Mat[1]", rec.Mat[1]}, {"SS", rec.SS}, {"SP", rec.SP},
		{"Sub.T", rec.Sub.T}, {"P.T", rec.P.T}, {"(B + Sub.T)", rec.B + rec.Sub.T}, {"Sub.D.Fs", rec.Sub.D.Fs}, {"Self.B", rec.B}, {"NilS", rec.NilS}}
	for i := 0; i < 6; i++ {
		s := seqs[c.Int(len(seqs))]
		v := reflect.ValueOf(s.v)
		at := c.Range(-1, v.Len()+1)
		if c.Chance(1, 12) {
			at = c.OneOfInt(-9, 256+at, 65536+at, 1<<32+at, 1<<40, -1<<63, 1<<63-1)
		}
		text := s.text + "[" + fmt.Sprint(at) + "]"
		if at == -1<<63 {
			text = s.text + "[-9223372036854775807-1]"
		} else if c.Chance(1, 4) {
			rec.A = at
			text = s.text + "[A]"
		}
		in := at >= 0 && at < v.Len()
		c.ClassIf(in && v.Kind() == reflect.String, "index of a string")
		for _, w := range evalWays(rec) {
			got, err := c.Eval(w.r, text)
			switch {
			case in && err != nil:
				c.Fail("%s (%s resolver, index %d of %#v): error %v", text, w.name, at, s.v, err)
			case in && !sameReached(got, v.Index(at).Interface()):
				c.Fail("%s (%s resolver, index %d of %#v) = %T(%v)", text, w.name, at, s.v, got, got)
			case !in && err == nil:
				c.Fail("%s (%s resolver, index %d of %#v) = %v, but it is out of bounds", text, w.name, at, s.v, got)
			}
		}
	}
}

// ---- random types

type tygen struct {
	c     *C
	n     int
	names int
}

// member chooses a field of a struct, or one that is promoted to it.
func (g *tygen) member(t reflect.Type) (name string, promoted bool) {
	f := t.Field(g.c.Int(t.NumField()))
	name = f.Name
	if !f.Anonymous || g.c.Chance(1, 4) {
		return name, false
	}
	for f.Anonymous {
		e := f.Type
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		f = e.Field(g.c.Int(e.NumField()))
	}
	// Go says whether the name is promoted and what it means.
	if p, ok := t.FieldByName(f.Name); ok && len(p.Index) > 1 {
		g.c.Class(fmt.Sprintf("promoted over %d", len(p.Index)-1))
		return f.Name, true
	}
	return name, false
}

func (g *tygen) typ(d int) reflect.Type {
	c := g.c
	g.n++
	if d <= 0 || g.n > 40 || c.Chance(1, 5) {
		k := allKinds[c.Int(len(allKinds))]
		if c.Chance(1, 6) {
			return xNamed[k]
		}
		return mkRT[k]
	}
	switch c.Pick(5, 3, 3, 2, 3, 1) {
	case 1:
		return reflect.PtrTo(g.typ(d - 1))
	case 2:
		return reflect.SliceOf(g.typ(d - 1))
	case 3:
		return reflect.ArrayOf(c.Range(1, 4), g.typ(d-1))
	case 4:
		k := []MK{MString, MInt, MUint8, MBool, MInt64, MUint32}[c.Int(6)]
		return reflect.MapOf(mkRT[k], g.typ(d-1))
	case 5:
		return reflect.TypeOf((*interface{})(nil)).Elem()
	}
	return g.strct(d)
}

func (g *tygen) strct(d int) reflect.Type {
	c := g.c
	var f []reflect.StructField
	n := c.Range(1, 4)
	for i := 0; i < n; i++ {
		g.names++
		name := fmt.Sprintf("%s%d", c.OneOf("F", "Val", "É"), i)
		if c.Chance(1, 3) {
			name = fmt.Sprintf("U%d", g.names) // promoted wherever it is embedded
		}
		if c.Chance(1, 40) {
			name = fmt.Sprintf("%s%d", strings.Repeat("Long", c.Range(5, 80)), i)
		}
		if d > 1 && c.Chance(1, 6) {
			t := g.strct(d - 1)
			if c.Chance(1, 3) {
				t = reflect.PtrTo(t)
			}
			f = append(f, reflect.StructField{Name: fmt.Sprintf("Emb%d", g.names), Type: t, Anonymous: true})
			continue
		}
		f = append(f, reflect.StructField{Name: name, Type: g.typ(d - 1)})
	}
	return reflect.StructOf(f)
}

func (g *tygen) fill(v reflect.Value, d int) {
	c := g.c
	if k, ok := kindMK[v.Kind()]; ok {
		v.Set(reflect.ValueOf(genMV(c, k).goValue()).Convert(v.Type()))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), d)
	case reflect.Slice:
		n := c.Range(1, 3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fill(v.Index(i), d)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), d)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := c.Range(1, 3); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			switch k.Kind() {
			case reflect.String:
				k.SetString(c.OneOf("a", "b", "key"))
			case reflect.Bool:
				k.SetBool(c.Chance(1, 2))
			default:
				k.Set(reflect.ValueOf(c.Int(100)).Convert(k.Type()))
			}
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(e, d)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), d)
		}
	case reflect.Interface:
		h := &tygen{c: c}
		var t reflect.Type
		for t = h.typ(2); t.Kind() == reflect.Interface; t = h.typ(2) {
		}
		x := reflect.New(t).Elem()
		h.fill(x, d-1)
		v.Set(x)
	}
}

// viaPtr tells whether a promoted field is reached through a pointer.
func viaPtr(t reflect.Type, name string) bool {
	f, _ := t.FieldByName(name)
	for i := range f.Index[:len(f.Index)-1] {
		if t.FieldByIndex(f.Index[:i+1]).Type.Kind() == reflect.Ptr {
			return true
		}
	}
	return false
}

// path walks down a value at random and returns the text and the value reached.
func (g *tygen) path(name string, v reflect.Value) (text string, at reflect.Value, steps int, shared bool) {
	c := g.c
	text = name
	for {
		for v.Kind() == reflect.Interface {
			v, shared = v.Elem(), false
		}
		if c.Chance(1, 7) {
			return text, v, steps, shared
		}
		steps++
		switch v.Kind() {
		case reflect.Struct:
			n, _ := g.member(v.Type())
			if strings.HasPrefix(text, "*") {
				text = "(" + text + ")"
			}
			text += "." + n
			v, shared = v.FieldByName(n), shared || viaPtr(v.Type(), n)
		case reflect.Ptr:
			if v.Elem().Kind() == reflect.Interface {
				return text, v, steps, shared
			}
			if v.Elem().Kind() == reflect.Struct && c.Chance(1, 2) {
				if strings.HasPrefix(text, "*") {
					text = "(" + text + ")"
				}
				n, _ := g.member(v.Elem().Type())
				text += "." + n
				v, shared = v.Elem().FieldByName(n), true
				continue
			}
			text = "*" + text
			v, shared = v.Elem(), true
		case reflect.String:
			if v.Len() == 0 {
				return text, v, steps - 1, shared
			}
			if strings.HasPrefix(text, "*") {
				text = "(" + text + ")"
			}
			i := c.Int(v.Len())
			text += fmt.Sprintf("[%d]", i)
			v, shared = v.Index(i), false
		case reflect.Slice, reflect.Array:
			if strings.HasPrefix(text, "*") {
				text = "(" + text + ")"
			}
			i := c.Int(v.Len())
			text += fmt.Sprintf("[%d]", i)
			shared = shared || v.Kind() == reflect.Slice
			v = v.Index(i)
		case reflect.Map:
			if strings.HasPrefix(text, "*") {
				text = "(" + text + ")"
			}
			ks := v.MapKeys()
			// MapKeys has no fixed order: choose by value
			best := ks[0]
			for _, k := range ks[1:] {
				if fmt.Sprint(k) < fmt.Sprint(best) {
					best = k
				}
			}
			switch best.Kind() {
			case reflect.String:
				text += fmt.Sprintf("[%q]", best.String())
			default:
				text += fmt.Sprintf("[%v]", best)
			}
			v, shared = v.MapIndex(best), false
		default:
			return text, v, steps - 1, shared
		}
	}
}

// reference takes the address of what a path reaches.
func reference(c *C, r expr.Resolver, text string, x reflect.Value, shared bool) {
	got, err := c.Eval(r, "&"+text)
	if !shared {
		// Whether it has an address is left open.
		if err == nil && !sameReached(reflect.ValueOf(got).Elem().Interface(), x.Interface()) {
			c.Fail("&%s points to %v, Go reads %v", text, reflect.ValueOf(got).Elem(), x.Interface())
		}
		return
	}
	c.Class("address taken")
	if p := reflect.ValueOf(got); err != nil || p.Kind() != reflect.Ptr || p.Type().Elem() != x.Type() || p.Pointer() != x.Addr().Pointer() {
		c.Fail("&%s = %T(%v), %v; Go gives %v", text, got, got, err, x.Addr().Interface())
	}
	got, err = c.Eval(r, "*&"+text)
	if err != nil || !sameReached(got, x.Interface()) {
		c.Fail("*&%s = %T(%v), %v; Go reads %v", text, got, got, err, x.Interface())
	}
	if x.Kind() == reflect.Struct && x.NumField() > 0 {
		n := x.Type().Field(c.Int(x.NumField())).Name
		f := x.FieldByName(n)
		for f.Kind() == reflect.Interface {
			f = f.Elem()
		}
		got, err = c.Eval(r, "(&"+text+")."+n)
		if err != nil || !sameReached(got, f.Interface()) {
			c.Fail("(&%s).%s = %T(%v), %v; Go reads %v", text, n, got, got, err, f.Interface())
		}
	}
}

func randomPaths(c *C) {
	g := &tygen{c: c}
	t := g.strct(4)
	v := reflect.New(t).Elem()
	g.fill(v, 2)
	var r expr.Resolver = expr.NewStructResolver(v)
	if c.Chance(1, 2) {
		m := map[string]expr.Value{}
		for i := 0; i < v.NumField(); i++ {
			m[t.Field(i).Name] = expr.ValueOf(v.Field(i).Interface())
		}
		r = expr.NewMapResolver(m)
	}
	for i := 0; i < 6; i++ {
		name, _ := g.member(t)
		if _, isMap := r.(*expr.MapResolver); isMap {
			name = t.Field(c.Int(t.NumField())).Name
		}
		text, x, steps, shared := g.path(name, v.FieldByName(name))
		if x.Kind() == reflect.Ptr && x.Elem().Kind() == reflect.Interface {
			continue
		}
		got, err := c.Eval(r, text)
		if err != nil {
			c.Fail("%s: error %v, Go reads %v (type %v)", text, err, x.Interface(), t)
		}
		if !sameReached(got, x.Interface()) {
			c.Fail("%s = %T(%v), Go reads %T(%v) (type %v)", text, got, got, x.Interface(), x.Interface(), t)
		}
		c.Class(fmt.Sprintf("path steps %d", min(steps, 6)))
		if c.Chance(1, 3) {
			reference(c, r, text, x, shared)
		}
		// the type of the value
		var val expr.Value
		if c.Chance(1, 3) {
			c.noPanic("ValueOf", guard(func() { val = expr.ValueOf(x.Interface()) }))
			checkType(c, val.Type(), x.Type(), 0)
		}
	}
	// a type resolver knows the same names with the same types
	tr := expr.NewStructTypeResolver(v.Interface())
	sr := expr.NewStructResolver(v)
	for i := 0; i < v.NumField(); i++ {
		n := t.Field(i).Name
		var ty expr.Type
		c.noPanic("TypeResolve", guard(func() { ty = tr.TypeResolve(n) }))
		if ty == nil {
			c.Fail("TypeResolve(%s) is unknown in %v", n, t)
		}
		if v.Field(i).Kind() == reflect.Interface {
			continue
		}
		checkType(c, ty, v.Field(i).Type(), 0)
		if w := sr.Resolve(n); !expr.TypeEqual(w.Type(), ty) {
			c.Fail("field %s: TypeResolve gives %s, Resolve a value of type %s", n, ty, w.Type())
		}
	}
}

var rkind = map[reflect.Kind]expr.Kind{reflect.Bool: expr.Bool, reflect.Int: expr.Int, reflect.Int8: expr.Int8, reflect.Int16: expr.Int16, reflect.Int32: expr.Int32, reflect.Int64: expr.Int64,
	reflect.Uint: expr.Uint, reflect.Uint8: expr.Uint8, reflect.Uint16: expr.Uint16, reflect.Uint32: expr.Uint32, reflect.Uint64: expr.Uint64, reflect.Uintptr: expr.Uintptr,
	reflect.Float32: expr.Float32, reflect.Float64: expr.Float64, reflect.String: expr.String, reflect.Array: expr.Array, reflect.Slice: expr.Slice, reflect.Struct: expr.Struct,
	reflect.Map: expr.Map, reflect.Ptr: expr.Ptr, reflect.Func: expr.Func}

// checkType compares an expression type with the Go type it stands for.
func checkType(c *C, t expr.Type, rt reflect.Type, d int) {
	k, ok := rkind[rt.Kind()]
	if !ok || d > 6 {
		return
	}
	if t == nil || t.Kind() != k {
		c.Fail("type of a %v is %v", rt, t)
	}
	switch x := t.(type) {
	case *expr.ArrayType:
		if x.Len() != rt.Len() {
			c.Fail("type of a %v has length %d", rt, x.Len())
		}
		checkType(c, x.Elem(), rt.Elem(), d+1)
	case *expr.SliceType:
		checkType(c, x.Elem(), rt.Elem(), d+1)
	case *expr.PtrType:
		checkType(c, x.Elem(), rt.Elem(), d+1)
	case *expr.MapType:
		checkType(c, x.Key(), rt.Key(), d+1)
		checkType(c, x.Value(), rt.Elem(), d+1)
	case *expr.FuncType:
		if x.NumIn() != rt.NumIn() || x.NumOut() != rt.NumOut() || x.IsVariadic() != rt.IsVariadic() {
			c.Fail("type of a %v has %d arguments and %d results", rt, x.NumIn(), x.NumOut())
		}
		for i := 0; i < x.NumIn(); i++ {
			checkType(c, x.In(i), rt.In(i), d+1)
		}
		for i := 0; i < x.NumOut(); i++ {
			checkType(c, x.Out(i), rt.Out(i), d+1)
		}
	case *expr.StructType:
		if x.NumFields() != rt.NumField() {
			c.Fail("type of a %v has %d fields", rt, x.NumFields())
		}
		for i := 0; i < rt.NumField(); i++ {
			f := x.Field(i)
			if f.Name != rt.Field(i).Name {
				c.Fail("field %d of %v is called %s", i, rt, f.Name)
			}
			checkType(c, f.Type, rt.Field(i).Type, d+1)
			if g, ok := x.FieldByName(f.Name); !ok || !expr.TypeEqual(g.Type, f.Type) {
				c.Fail("FieldByName(%s) of %v: %v %v", f.Name, rt, g.Type, ok)
			}
		}
	}
}

// resolverTypes checks type resolvers against value resolvers on the static world.
func resolverTypes(c *C, rec *XRec) {
	names := []string{"A", "B", "E1", "Sh", "O1", "L1", "P1", "Q1", "Sub", "P", "PP", "S", "Arr", "M", "MU", "MM", "Self", "Fn", "Named", "Cmp", "Mat", "XBase", "XPtr", "SS", "NilM"}
	unknown := []string{"Nope", "Amb", "a", "", "sub", "Q", "_eof", "bits"}
	sr := expr.NewStructResolver(reflect.ValueOf(rec).Elem())
	m1, t1 := map[string]expr.Value{}, map[string]expr.Type{}
	for _, n := range names {
		if c.Chance(1, 3) {
			v := expr.ValueOf([]interface{}{int8(1), "s", 2.5, []int{1}, rec.Sub}[c.Int(5)])
			m1[n] = v
			t1[n] = v.Type()
		}
	}
	mr, mt := expr.NewMetaResolver(), expr.NewMetaTypeResolver()
	first := c.Chance(1, 2)
	addMap := func() {
		mr.AddResolver(expr.NewMapResolver(m1))
		if c.Chance(1, 2) {
			mt.AddResolver(expr.NewMapTypeResolver(t1))
		} else {
			mt.AddResolver(expr.NewTypeResolverAdapter(expr.NewMapResolver(m1)))
		}
	}
	if first {
		addMap()
	}
	mr.AddResolver(sr)
	mt.AddResolver(expr.NewStructTypeResolver(*rec))
	if !first {
		addMap()
	}
	ad := expr.NewTypeResolverAdapter(mr)
	for _, n := range names {
		fv := reflect.ValueOf(rec).Elem().FieldByName(n)
		want := reflect.Value{}
		if v, ok := m1[n]; ok && first {
			want = v.Value()
		} else {
			want = fv
		}
		var v expr.Value
		var ta, tm expr.Type
		c.noPanic("Resolve", guard(func() { v, ta, tm = mr.Resolve(n), ad.TypeResolve(n), mt.TypeResolve(n) }))
		if v == nil || !sameReached(v.RawValue(), want.Interface()) {
			c.Fail("combined resolvers (map first: %v): %s resolves to %v, the first that knows it has %v", first, n, v, want)
		}
		checkType(c, ta, want.Type(), 4)
		if tm == nil || !expr.TypeEqual(ta, tm) || !expr.TypeEqual(v.Type(), tm) {
			c.Fail("%s: type resolvers give %v and %v for a value of type %v", n, ta, tm, v.Type())
		}
	}
	for _, n := range unknown {
		var v expr.Value
		var ta, tm expr.Type
		c.noPanic("Resolve", guard(func() { v, ta, tm = mr.Resolve(n), ad.TypeResolve(n), mt.TypeResolve(n) }))
		if v != nil || ta != nil || tm != nil {
			c.Fail("unknown name %q resolves to %v, types %v and %v", n, v, ta, tm)
		}
	}
	// packages
	pk := expr.NewPackage(map[string]expr.Value{"X": expr.ValueOf(rec.A), "F": expr.ValueOf(rec.Fn), "S": expr.ValueOf(rec.Sub)})
	pr := expr.NewMapResolver(map[string]expr.Value{"pkg": expr.ValueOf(pk)})
	for _, t := range []struct {
		s string
		w interface{}
	}{{"pkg.X", rec.A}, {"pkg.F(3, 4)", rec.Fn(3, 4)}, {"pkg.S.D.Q", rec.Sub.D.Q}} {
		got, err := c.Eval(pr, t.s)
		if err != nil || !sameReached(got, t.w) {
			c.Fail("%s = %v, %v; want %v", t.s, got, err, t.w)
		}
	}
	for _, s := range []string{"pkg.Y", "pkg.x", "pkg", "X", "pkg.X.Y", "pkg()", "pkg[0]", "*pkg"} {
		got, err := c.Eval(pr, s)
		if err == nil && s != "pkg" {
			c.Fail("%s = %v, want an error", s, got)
		}
	}
	pt, ok := expr.TypeOf(pk).(*expr.PackageType)
	if !ok || pt.Symbol("Y") != nil || pk.Symbol("Y") != nil {
		c.Fail("package type: %T, unknown symbol is known", expr.TypeOf(pk))
	}
	checkType(c, pt.Symbol("X"), reflect.TypeOf(rec.A), 0)
	checkType(c, pt.Symbol("S"), reflect.TypeOf(rec.Sub), 0)
	checkType(c, pt.Symbol("F"), reflect.TypeOf(rec.Fn), 0)
}

// ---- C18

func c18env(c *C) *xenv {
	rec := genWorld(c)
	e := newEnv()
	put := func(n string, v interface{}) {
		e.names = append(e.names, n)
		e.goV[n] = v
		e.vals[n] = mFromReflect(reflect.ValueOf(v))
		k := e.vals[n].K
		e.byK[k] = append(e.byK[k], n)
	}
	for _, k := range allKinds {
		put(k.String()[:1]+"_"+k.String(), genMV(c, k).goValue())
	}
	if c.Chance(1, 8) {
		long := strings.Repeat(c.OneOf("n", "Long_", "世"), c.Range(10, 200))
		put(long+"a", genMV(c, MInt).goValue())
		put(long+"b", genMV(c, MInt).goValue())
	}
	put("rec", *rec)
	put("prec", rec)
	put("sub", rec.Sub)
	put("psub", rec.P)
	put("nilp", rec.NilP)
	put("sl", rec.S)
	put("arr", rec.Arr)
	put("m", rec.M)
	put("mi", rec.MI)
	put("nilm", rec.NilM)
	put("fn", rec.Fn)
	put("f0", func() string { return "f0" })
	put("fs", func(s string, f float32) uint16 { return uint16(len(s)) })
	put("fp", func(p *XSub) bool { return p == nil })
	put("fnone", func(int) {})
	put("ftwo", func(int) (int, error) { return 1, nil })
	put("fpanic", func(int) int { panic("boom") })
	put("fpanic2", func(n int) int { return []int{1}[n] })
	put("cmp", rec.Cmp)
	put("cplx", 1+2i)
	put("ch", make(chan int))
	put("named", rec.Named)
	pk := map[string]expr.Value{"Fn": expr.ValueOf(rec.Fn), "N": expr.ValueOf(rec.A)}
	e.names = append(e.names, "pkg")
	e.goV["pkg"] = expr.NewPackage(pk)
	e.vals["pkg"] = MV{K: MPkg, P: map[string]MV{"Fn": mFromReflect(reflect.ValueOf(rec.Fn)), "N": mFromReflect(reflect.ValueOf(rec.A))}}
	return e
}

func (e *xenv) mapResolver() expr.Resolver {
	m := map[string]expr.Value{}
	for _, n := range e.names {
		m[n] = expr.ValueOf(e.goV[n])
	}
	return expr.NewMapResolver(m)
}

// wild makes trees with no regard for types.
func wild(c *C, e *xenv, d int) *Ex {
	if d <= 0 || c.Chance(1, 5) {
		switch c.Pick(12, 3, 1, 1) {
		case 1:
			switch c.Int(6) {
			case 0:
				return genIntLit(c, c.Range(1, 16), true)
			case 1:
				return genFloatLit(c, true)
			case 2:
				return genStrLit(c, true)
			case 3:
				return lit(c.OneOf("true", "false"), MV{})
			}
			return ilit(c.Int(4))
		case 2:
			return lit("nil", MV{K: MNil})
		case 3:
			return id(c.OneOf("unknown", "x", "_eof", "A", "bits", "T"), MNone)
		}
		return id(e.names[c.Int(len(e.names))], MNone)
	}
	switch c.Pick(8, 3, 2, 4, 3, 3) {
	case 1:
		return un(c.OneOf("+", "-", "!", "^", "*"), wild(c, e, d-1))
	case 2:
		return cond(wild(c, e, d-1), wild(c, e, d-1), wild(c, e, d-1))
	case 3:
		return dot(wild(c, e, d-1), c.OneOf("A", "B", "Sub", "P", "D", "Q", "NilP", "hidden", "X", "Fn", "N", "S", "M", "Self", "Nope", "I", "Amb", "E1", "SP", "Arr", "Cmp", "C", "XPtr", "xlower", "L1"))
	case 4:
		return idx(wild(c, e, d-1), wild(c, e, d-1))
	case 5:
		var a []*Ex
		for i := c.Int(4); i > 0; i-- {
			a = append(a, wild(c, e, d-2))
		}
		f := id(c.OneOf("fn", "f0", "fs", "fp", "fnone", "ftwo", "fpanic", "fpanic2"), MNone)
		if c.Chance(1, 4) {
			f = wild(c, e, d-1)
		}
		return call(f, a...)
	}
	return bin(c.OneOf("+", "-", "*", "/", "%", "&", "|", "^", "&^", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "&&", "||"), wild(c, e, d-1), wild(c, e, d-1))
}

var soupTokens = []string{"a", "i_int", "u_uint8", "s_string", "b_bool", "rec", "prec", "sl", "m", "fn", "f0", "A", "nil", "true", "false", "int", "uint8", "0", "1", "2.5", "0x", "1e", "'a'", "''", "\"s\"", "$'t'", "\"", "'", "$", "\\",
	"+", "-", "*", "/", "%", "&", "|", "^", "&^", "&&", "||", "<", "<=", ">", ">=", "==", "!=", "!", "<<", ">>", "(", ")", "[", "]", ",", ".", ":", "?", "=", ":=", "++", "{", "}", ";", "@", "#", "~", "`", "\n", "\v", "\f", "\r", "\u00a0", "\u0085", "\u2003", "\ufeff", "\x00", "\xff", "é", "世", "٣", "_"}

// judge evaluates a text and holds the outcome against the reference reader.
func judge(c *C, e *xenv, r expr.Resolver, text string) {
	got, err := c.Eval(r, text)
	if err != nil {
		c.noPanic("Error()", guard(func() { _ = err.Error() }))
		if got != nil {
			c.Fail("%q gives both a value (%v) and an error (%v)", text, got, err)
		}
	}
	if len(text) > 20000 {
		c.Class("verdict long")
		return
	}
	x, open, perr := refParse(text)
	switch {
	case open != "":
		c.Class("verdict open: " + open)
		return
	case perr != nil:
		c.Class("verdict malformed")
		if err == nil {
			c.Fail("%q is not an expression, but evaluates to %T(%v)", text, got, got)
		}
		return
	}
	litLoose = false
	want, werr := evalM(x, e.res)
	if litLoose {
		c.Class("verdict open: literal too wide")
		return
	}
	if werr != nil {
		c.Class("verdict error")
	} else {
		c.Class("verdict value")
	}
	checkResult(c, text, got, err, want, werr)
}

func mutateTokens(c *C, t []string) []string {
	for n := c.Range(1, 3); n > 0; n-- {
		i := c.Int(len(t) + 1)
		x := soupTokens[c.Int(len(soupTokens))]
		switch {
		case c.Chance(1, 3) || i == len(t):
			t = append(t[:i:i], append([]string{x}, t[i:]...)...)
		case c.Chance(1, 3) && i+1 < len(t):
			t = append([]string{}, t...)
			t[i], t[i+1] = t[i+1], t[i]
		case c.Chance(1, 2):
			t = append(t[:i:i], t[i+1:]...)
		default:
			t = append([]string{}, t...)
			t[i] = x
		}
	}
	return t
}

func mutateChars(c *C, s string) string {
	b := []byte(s)
	for n := c.Range(1, 4); n > 0; n-- {
		i := c.Int(len(b) + 1)
		chars := " \t()[].,?:'\"$\\+-*/%&|^<>=!0123456789abxefpoXEFPO_\x00\x7f\x80\xff\xc3\n\r\v\f"
		ch := chars[c.Int(len(chars))]
		switch {
		case i == len(b) || c.Chance(1, 3):
			b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
		case c.Chance(1, 2):
			b = append(b[:i:i], b[i+1:]...)
		case c.Chance(1, 3):
			b = b[:i]
		default:
			b[i] = ch
		}
	}
	return string(b)
}

// strangeLit makes a quoted literal with right and wrong escapes.
func strangeLit(c *C) string {
	q := c.OneOf("'", "\"", "$'")
	var b strings.Builder
	b.WriteString(q)
	for n := c.OneOfInt(1, 1, 1, 1, 0, 2, 3); n > 0; n-- {
		switch c.Pick(6, 1, 1) {
		case 0:
			b.WriteByte('\\')
			switch c.Pick(3, 4, 1, 1) {
			case 0:
				b.WriteByte(byte(c.Draw(256)))
			case 1:
				b.WriteByte("abfnrtvxuU01234567\\'\"89AXces $"[c.Int(30)])
			case 2:
				b.WriteString(c.OneOf("é", "世", "\U0001F600"))
			}
			const dig = "0123456789abcdefABCDEF"
			for k := c.OneOfInt(0, 0, 1, 2, 2, 3, 3, 4, 4, 5, 7, 8, 8, 9); k > 0; k-- {
				switch {
				case c.Chance(1, 3):
					b.WriteByte('0')
				case c.Chance(1, 20):
					b.WriteByte("gG_-+. x'\""[c.Int(10)])
				default:
					b.WriteByte(dig[c.Int(len(dig))])
				}
			}
		case 1:
			b.WriteByte(byte(c.Draw(256)))
		case 2:
			b.WriteString(c.OneOf("a", " ", "é", "'", "\""))
		}
	}
	if !c.Chance(1, 12) {
		b.WriteString(q[len(q)-1:])
	}
	return b.String()
}

// strangeNum makes something like a number, right or wrong.
func strangeNum(c *C) string {
	var b strings.Builder
	b.WriteString(c.OneOf("", "", "0", "0x", "0X", "0b", "0B", "0o", "0O", "1", ".", "0.", "00"))
	d := c.OneOf("01", "01234567", "0123456789", "0123456789", "0123456789abcdefABCDEF")
	for n := c.Int(7); n > 0; n-- {
		if c.Chance(1, 8) {
			b.WriteByte("__._eEpPxXbBoO+-789afFi"[c.Int(23)])
		} else {
			b.WriteByte(d[c.Int(len(d))])
		}
	}
	if c.Chance(1, 4) {
		b.WriteString(c.OneOf("e", "E", "p", "P") + c.OneOf("", "", "+", "-") + c.OneOf("", "1", "0", "2", "09", "1_0", "_1", "1_"))
	}
	return b.String()
}

type failingResolver struct{ err interface{} }

func (r failingResolver) Resolve(name string) expr.Value {
	if name == "bad" {
		panic(r.err)
	}
	return nil
}

// failingParts: what a function or a resolver of the user panics with is the error.
func failingParts(c *C) {
	boom := fmt.Errorf("boom %d", c.Int(10))
	var with interface{} = boom
	wrapped := c.Chance(1, 3)
	if wrapped {
		with = fmt.Errorf("wrapped: %w", boom)
	}
	isErr := !c.Chance(1, 4)
	if !isErr {
		with = "boom"
	}
	m := expr.NewMetaResolver()
	m.AddResolver(failingResolver{with})
	m.AddResolver(expr.NewMapResolver(map[string]expr.Value{
		"fn": expr.ValueOf(func(n int) int { panic(with) }),
		"ok": expr.ValueOf(func(n int) int { return n }),
	}))
	call := c.OneOf("bad", "fn(1)", "bad(1)", "fn(ok(2))", "ok(bad)", "bad.x", "bad[0]")
	text := fmt.Sprintf(c.OneOf("%s", "1 + %s", "-%s", "ok(%s)", "true ? %s : 1", "true && 1 == %s", "ok(fn(ok(%s)))"), call)
	c.Note("%s, which panics with %v", text, with)
	got, err := c.Eval(m, text)
	if err == nil || got != nil {
		c.Fail("%s = %v, %v; want only an error", text, got, err)
	}
	if isErr && !errors.Is(err, boom) {
		c.Fail("%s: the error is %v, not the %v of the user's code", text, err, with)
	}
	c.Class("user code panics")
}

// wrongCalls: what cannot be called with what it is given, or gives no single
// result, is an error.
func wrongCalls(c *C) {
	g := &tygen{c: c}
	types := func(n int) (ts []reflect.Type) {
		for len(ts) < n {
			g.n = 10
			if t := g.typ(1); t.Kind() != reflect.Interface {
				ts = append(ts, t)
			}
		}
		return
	}
	in := types(c.OneOfInt(0, 0, 1, 2, c.Int(6)))
	out := types(c.OneOfInt(0, 1, 2, 3, c.Int(8)))
	called := 0
	fn := reflect.MakeFunc(reflect.FuncOf(in, out, false), func([]reflect.Value) (res []reflect.Value) {
		called++
		for _, t := range out {
			res = append(res, reflect.Zero(t))
		}
		return
	})
	m := map[string]expr.Value{"fn": expr.ValueOf(fn.Interface()), "none": expr.ValueOf(reflect.Zero(fn.Type()).Interface())}
	var args []string
	for i, t := range in {
		v := reflect.New(t).Elem()
		g.fill(v, 1)
		name := fmt.Sprintf("arg%d", i)
		m[name] = expr.ValueOf(v.Interface())
		args = append(args, name)
	}
	f, what := "fn", "calls"
	switch {
	case c.Chance(1, 4):
		f, what = "none", "call of nil"
	case c.Chance(1, 4):
		m["one"] = expr.ValueOf(1)
		f, what = c.OneOf("one", "1", "true", "nil", "fn()", "(1 + 2)", "\"fn\""), "call of no function"
		if f == "fn()" {
			m["fn"] = expr.ValueOf(func() int { return 1 })
		}
	case c.Chance(1, 3):
		what = "wrong number of arguments"
		if len(args) > 0 && c.Chance(1, 2) {
			args = args[c.Range(1, len(args)):]
		} else {
			for n := c.Range(1, 4); n > 0; n-- {
				args = append(args, c.OneOf("1", "nil", "fn", "true"))
			}
		}
	case len(out) == 1:
		return
	default:
		what = fmt.Sprintf("%d results", len(out))
	}
	text := fmt.Sprintf("%s(%s)", f, strings.Join(args, ", "))
	text = fmt.Sprintf(c.OneOf("%s", "%s", "(%s)", "true ? %s : 1", "false || %s", "1 == %s"), text)
	c.Note("%s of type %v", text, fn.Type())
	got, err := c.Eval(expr.NewMapResolver(m), text)
	if err == nil || got != nil {
		c.Fail("%s with fn of type %v = %v, %v; want only an error", text, fn.Type(), got, err)
	}
	if called > 0 && len(out) == 1 {
		c.Fail("%s with fn of type %v called the function", text, fn.Type())
	}
	c.Class(what)
}

func runC18(c *C) {
	e := c18env(c)
	r := e.mapResolver()
	n := 6
	c.NonTrivial()
	for ; n > 0; n-- {
		var text string
		switch m := c.Pick(6, 4, 3, 6, 1, 3, 1, 3); m {
		case 0:
			t := tokens(wild(c, e, c.Range(1, 4)), 0, nil)
			text = strings.Join(mutateTokens(c, t), c.OneOf(" ", " ", "", "\t"))
			c.Class("mode mutated tokens")
		case 1:
			var t []string
			for k := c.Int(9); k > 0; k-- {
				t = append(t, soupTokens[c.Int(len(soupTokens))])
			}
			text = strings.Join(t, c.OneOf(" ", ""))
			c.Class("mode token soup")
		case 2:
			text = string(c.Bytes(c.Int(24)))
			c.Class("mode bytes")
		case 3:
			text = mutateChars(c, exprTextRnd(c, wild(c, e, c.Range(1, 4))))
			c.Class("mode mutated characters")
		case 4:
			u := c.OneOf("(", "[", "i_int+", "-", "!", "true?", "sl[", "fn(", "a.", "1+(", "i_int-(", "*", "(i_int)", "b_bool||", "^", "1?", ")", "\"", "9", "f0()", ",", "rec.A+", "i_int<<")
			k := c.OneOfInt(10, 100, 300, 2000)
			if c.Chance(1, 30) {
				k = c.OneOfInt(30000, 200000, 400000)
			}
			if u == "9" || u == "a." {
				k = min(k, 3000)
			}
			text = strings.Repeat(u, k) + c.OneOf("", "i_int", "1")
			if c.Chance(1, 2) {
				text += strings.Repeat(")", min(k, 20000))
			}
			c.Class("mode long")
		case 5:
			text = exprTextRnd(c, wild(c, e, c.Range(1, 5)))
			c.Class("mode ill-typed")
		case 7: // literals with any escape
			text = strangeLit(c)
			if c.Chance(1, 3) {
				text = strangeNum(c)
			}
			if c.Chance(1, 4) {
				text += c.OneOf(" ", "") + c.OneOf("+", "==", ",", "?", ")") + c.OneOf("", " ") + strangeLit(c)
			}
			c.Class("mode escapes")
		case 6: // resolvers that know nothing
			text = exprText(wild(c, e, c.Range(1, 3)))
			x := newEnv()
			var res expr.Resolver
			switch c.Int(3) {
			case 0:
				res = expr.NewMapResolver(nil)
			case 1:
				res = expr.NewMetaResolver()
			case 2:
				res = expr.NewStructResolver(reflect.ValueOf(struct{}{}))
			}
			c.Class("mode empty resolver")
			if c.Chance(1, 3) { // no resolver at all: only names need one
				got, err := c.Eval(nil, text)
				t, open, perr := refParse(text)
				if open == "" && perr == nil {
					litLoose = false
					want, werr := evalM(t, x.res)
					if !litLoose {
						checkResult(c, text, got, err, want, werr)
					}
				}
				continue
			}
			c.Note("%q", text)
			judge(c, x, res, text)
			continue
		}
		if c.Chance(1, 12) {
			failingParts(c)
			wrongCalls(c)
		}
		if c.Chance(1, 12) {
			// what a broken reader delivers is never taken for the whole text
			if _, err := c.Parse(text, errors.New("broken")); err == nil {
				c.Fail("%q parses, but its reader failed at the end", text)
			}
			c.Class("broken reader")
		}
		if len(text) < 400 {
			c.Note("%q", text)
		} else {
			c.Note("%q... (%d bytes)", text[:60], len(text))
		}
		judge(c, e, r, text)
	}
}

// ---- C25

type bitsLayout struct {
	t    reflect.Type
	name string
}

var bitsTypes = map[string]reflect.Type{}

// bitsStruct is a layout that calls one function: X (and K) are its arguments,
// Eq is present if the result equals Want exactly, Out is the result.
func bitsStruct(name string) reflect.Type {
	if t, ok := bitsTypes[name]; ok {
		return t
	}
	ft := reflect.TypeOf(bitsFuncs[name])
	args := "X"
	fs := []reflect.StructField{{Name: "X", Type: ft.In(0)}}
	if ft.NumIn() == 2 {
		args = "X, K"
		fs = append(fs, reflect.StructField{Name: "K", Type: ft.In(1)})
	}
	fs = append(fs,
		reflect.StructField{Name: "Want", Type: ft.Out(0)},
		reflect.StructField{Name: "Eq", Type: reflect.TypeOf(uint8(0)), Tag: reflect.StructTag(fmt.Sprintf(`struct-if:"bits.%s(%s) == Want"`, name, args))},
		reflect.StructField{Name: "Out", Type: reflect.TypeOf(uint64(0)), Tag: reflect.StructTag(fmt.Sprintf(`struct-out:"bits.%s(%s)"`, name, args))},
	)
	t := reflect.StructOf(fs)
	bitsTypes[name] = t
	return t
}

var bitsNames = func() []string {
	m := map[string]int{}
	for n := range bitsFuncs {
		m[n] = 1
	}
	return sortedKeys(m)
}()

func checkBits(c *C, name string, x, k uint64, deltaBit int) {
	t := bitsStruct(name)
	f := reflect.ValueOf(bitsFuncs[name])
	ft := f.Type()
	v := reflect.New(t).Elem()
	v.FieldByName("X").Set(reflect.ValueOf(x).Convert(ft.In(0)))
	in := []reflect.Value{v.FieldByName("X")}
	if ft.NumIn() == 2 {
		v.FieldByName("K").Set(reflect.ValueOf(int64(k)).Convert(ft.In(1)))
		in = append(in, v.FieldByName("K"))
	}
	want := f.Call(in)[0]
	w := want.Convert(reflect.TypeOf(uint64(0))).Uint()
	eq := true
	store := w
	if deltaBit >= 0 {
		store ^= 1 << uint(deltaBit%want.Type().Bits())
		eq = false
	}
	v.FieldByName("Want").Set(reflect.ValueOf(store).Convert(want.Type()))
	v.FieldByName("Eq").SetUint(0xa5)
	b, err := c.Pack(binary.BigEndian, v.Addr().Interface())
	if err != nil {
		c.Fail("bits.%s(%v): %v", name, in, err)
	}
	n := 8
	if eq {
		n = 9
	}
	head := 0
	for i := 0; i < v.NumField()-2; i++ {
		head += rtBytes(v.Field(i).Type())
	}
	if len(b) != head+n {
		c.Fail("bits.%s(%v) == %s(%d) is %v, math/bits gives %d (%d bytes packed)", name, in, want.Type(), store, !eq, w, len(b))
	}
	got := binary.BigEndian.Uint64(b[len(b)-8:])
	if got != w {
		c.Fail("bits.%s(%v) = %#x, math/bits gives %#x", name, in, got, w)
	}
}

func rtBytes(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Int, reflect.Uint:
		return kWidth[KInt] / 8
	}
	return t.Bits() / 8
}

func runC25(c *C) {
	for i := 0; i < 4; i++ {
		name := bitsNames[c.Int(len(bitsNames))]
		c.Class(name)
		ft := reflect.TypeOf(bitsFuncs[name])
		x := c.U64(ft.In(0).Bits())
		k := uint64(0)
		if ft.NumIn() == 2 {
			k = uint64(int64(c.Int(300)) - 150)
		}
		if ft.In(0).Kind() == reflect.Uint { // packed as 32 bits, but evaluated as it is
			c.Class("uint argument")
		}
		d := -1
		if c.Chance(1, 2) {
			d = c.Int(64)
			if ft.Out(0).Kind() == reflect.Int { // counts
				d = c.Int(8)
			}
		}
		c.Note("bits.%s(%#x, %d) delta bit %d", name, x, int64(k), d)
		checkBits(c, name, x, k, d)
	}
	// wrong argument and result types are errors
	name := bitsNames[c.Int(len(bitsNames))]
	ft := reflect.TypeOf(bitsFuncs[name])
	ks := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false)}
	at := ks[c.Int(len(ks))]
	rt := ks[c.Int(len(ks))]
	args := "X"
	if ft.NumIn() == 2 {
		args = "X, 1"
	}
	key := fmt.Sprint(name, at, rt)
	t, ok := bitsTypes[key]
	if !ok {
		t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: at}, {Name: "W", Type: rt}, {Name: "Eq", Type: reflect.TypeOf(uint8(0)), Tag: reflect.StructTag(fmt.Sprintf(`struct-if:"bits.%s(%s) == W"`, name, args))}})
		bitsTypes[key] = t
	}
	v := reflect.New(t)
	_, err := c.Pack(binary.LittleEndian, v.Interface())
	good := at == ft.In(0) && rt == ft.Out(0)
	if good != (err == nil) {
		c.Fail("bits.%s of a %v compared with a %v: error %v, math/bits has %v", name, at, rt, err, ft)
	}
	c.ClassIf(!good, "wrong types")
	c.NonTrivial()
}

// sweepC25 tries every 8-bit function on all arguments and the others on a grid.
func sweepC25(c *C, thor bool) int {
	n := 0
	for _, name := range bitsNames {
		ft := reflect.TypeOf(bitsFuncs[name])
		w := ft.In(0).Bits()
		var xs []uint64
		if w == 8 {
			for x := uint64(0); x < 256; x++ {
				xs = append(xs, x)
			}
		} else {
			for i := 0; i < w; i++ {
				xs = append(xs, 1<<uint(i), 1<<uint(i)-1, ^uint64(0)<<uint(i), 0x0123456789abcdef>>uint(64-w)>>uint(i))
			}
			xs = append(xs, 0)
		}
		ks := []int64{0}
		if ft.NumIn() == 2 {
			ks = []int64{0, 1, -1, 7, -7, int64(w), int64(w) + 3, -int64(w) - 1}
		}
		for _, x := range xs {
			for _, k := range ks {
				if w < 64 {
					x &= 1<<uint(w) - 1
				}
				checkBits(c, name, x, uint64(k), -1)
				n++
			}
		}
	}
	return n
}

func init() {
	register(&Prop{
		ID:    "C18",
		Tech:  "fuzzing of expression texts (mutated, token soup, random bytes, ill-typed trees, very long texts) against a reference reader and evaluator: malformed or undefined must be an error, everything else the reference value",
		Rule:  "a case is 6 texts evaluated over a world of scalar and composite values; every case counts as non-trivial",
		Run:   runC18,
		Quick: 9000, Thor: 120000,
		Assumptions: []string{"texts whose meaning the documentation leaves open (literals out of range, unary &, line breaks, trailing commas, keyword members) are only required not to panic"},
	})
	register(&Prop{
		ID:    "C24",
		Tech:  "property-based testing: accesses written both as text and as Go code, random nested types with random access paths compared with reflection, resolver combinations against a first-match model, types against reflect",
		Rule:  "a case is a random world of values with 8 hand-written accesses through three resolvers, 3 invalid ones, 6 random paths into a random type and a resolver/type-resolver comparison",
		Run:   runC24,
		Quick: 15000, Thor: 120000,
	})
	register(&Prop{
		ID:    "C25",
		Tech:  "differential testing against math/bits: every function called from a layout's condition and transform with random arguments, all arguments for 8-bit functions",
		Rule:  "a case is 4 calls with random arguments and results compared exactly or off by one bit, and one call with random argument and result types",
		Run:   runC25,
		Quick: 40000, Thor: 300000,
		Sweep: sweepC25,
	})
}
