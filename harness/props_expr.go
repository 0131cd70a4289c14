package main

// Expression language: operators (C16), structure and literals (C17).

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct/expr"
)

type (
	xBool    bool
	xInt     int
	xInt8    int8
	xInt16   int16
	xInt32   int32
	xInt64   int64
	xUint    uint
	xUint8   uint8
	xUint16  uint16
	xUint32  uint32
	xUint64  uint64
	xUintptr uintptr
	xF32     float32
	xF64     float64
	xString  string
)

var xNamed = map[MK]reflect.Type{
	MBool: reflect.TypeOf(xBool(false)), MInt: reflect.TypeOf(xInt(0)), MInt8: reflect.TypeOf(xInt8(0)), MInt16: reflect.TypeOf(xInt16(0)),
	MInt32: reflect.TypeOf(xInt32(0)), MInt64: reflect.TypeOf(xInt64(0)), MUint: reflect.TypeOf(xUint(0)), MUint8: reflect.TypeOf(xUint8(0)),
	MUint16: reflect.TypeOf(xUint16(0)), MUint32: reflect.TypeOf(xUint32(0)), MUint64: reflect.TypeOf(xUint64(0)), MUintptr: reflect.TypeOf(xUintptr(0)),
	MF32: reflect.TypeOf(xF32(0)), MF64: reflect.TypeOf(xF64(0)), MString: reflect.TypeOf(xString("")),
}

var xIntKinds = []MK{MInt, MInt8, MInt16, MInt32, MInt64, MUint, MUint8, MUint16, MUint32, MUint64, MUintptr}
var numKinds = append(append([]MK{}, xIntKinds...), MF32, MF64)
var allKinds = append(append([]MK{}, numKinds...), MBool, MString)

func genFloat(c *C, k MK) float64 {
	var f float64
	switch c.Pick(4, 3, 2, 2, 2) {
	case 0:
		f = float64(c.Int(9)) - 2
	case 1:
		f = float64(int64(c.U64(20))) / 8
	case 2:
		f = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, 16777216, 16777217, 9007199254740993, 1e38, -1e38}[c.Int(11)]
	case 3:
		f = []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-40}[c.Int(8)]
	default:
		f = math.Float64frombits(c.Draw(0))
	}
	if k == MF32 {
		f = float64(float32(f))
	}
	return f
}

func genMV(c *C, k MK) MV {
	switch {
	case k == MBool:
		return mBool(c.Chance(1, 2))
	case k == MString:
		if c.Chance(1, 5) {
			return MV{K: MString, S: string(c.Bytes(c.Int(7)))}
		}
		return MV{K: MString, S: c.OneOf("", "a", "ab", "b", "A", "é", "\x00", "a b", "x\xff", "longer text here")}
	case k.float():
		return mFloat(k, genFloat(c, k))
	}
	return mInt(k, c.U64(k.width()))
}

// xenv is an environment of named values.
type xenv struct {
	names []string
	vals  map[string]MV
	goV   map[string]interface{}
	byK   map[MK][]string
	named map[string]bool
}

func (e *xenv) add(name string, v MV, named bool) {
	var g interface{}
	if named {
		g = reflect.ValueOf(v.goValue()).Convert(xNamed[v.K]).Interface()
		e.named[name] = true
	} else {
		g = v.goValue()
	}
	e.names = append(e.names, name)
	e.vals[name] = v
	e.goV[name] = g
	e.byK[v.K] = append(e.byK[v.K], name)
}

func newEnv() *xenv {
	return &xenv{vals: map[string]MV{}, goV: map[string]interface{}{}, byK: map[MK][]string{}, named: map[string]bool{}}
}

func (e *xenv) res(name string) (MV, bool) { v, ok := e.vals[name]; return v, ok }

// resolver builds a resolver for the environment in one of the public ways.
func (e *xenv) resolver(c *C) expr.Resolver {
	asMap := func(ns []string) expr.Resolver {
		m := map[string]expr.Value{}
		for _, n := range ns {
			m[n] = expr.ValueOf(e.goV[n])
		}
		return expr.NewMapResolver(m)
	}
	asStruct := func(ns []string) expr.Resolver {
		var f []reflect.StructField
		for _, n := range ns {
			f = append(f, reflect.StructField{Name: n, Type: reflect.TypeOf(e.goV[n])})
		}
		v := reflect.New(reflect.StructOf(f)).Elem()
		for i, n := range ns {
			v.Field(i).Set(reflect.ValueOf(e.goV[n]))
		}
		return expr.NewStructResolver(v)
	}
	switch c.Pick(8, 1, 2) {
	case 1:
		c.Class("struct-resolver")
		return asStruct(e.names)
	case 2:
		c.Class("meta-resolver")
		m := expr.NewMetaResolver()
		n := c.Int(len(e.names) + 1)
		m.AddResolver(asMap(e.names[:n]))
		if c.Chance(1, 3) {
			m.AddResolver(asStruct(e.names[n:]))
		} else {
			m.AddResolver(asMap(e.names[n:]))
		}
		// a later resolver must not hide an earlier one
		m.AddResolver(asMap(e.names[:0]))
		return m
	}
	return asMap(e.names)
}

func genEnv(c *C, kinds []MK) *xenv {
	e := newEnv()
	for _, k := range kinds {
		for j := 0; j < 2; j++ {
			n := c.OneOf("V", "X_", "A1") + strings.Title(k.String()) + string(rune('a'+j))
			if c.Chance(1, 60) {
				// names that only differ at their end
				n = strings.Title(k.String()) + strings.Repeat("n", c.OneOfInt(20, 40, 80, 150, 300)) + string(rune('a'+j))
			}
			e.add(n, genMV(c, k), c.Chance(1, 5))
		}
	}
	return e
}

// xgen makes well-typed expression trees over an environment.
type xgen struct {
	c     *C
	e     *xenv
	kinds []MK // numeric kinds available
	ops   map[string]int
	lits  bool // literals in odd notations
}

func (g *xgen) op(s string) string { g.ops[s]++; return s }

func (g *xgen) ref(k MK) *Ex {
	ns := g.e.byK[k]
	return id(ns[g.c.Int(len(ns))], k)
}

// lit makes an untyped literal that fits k.
func (g *xgen) lit(k MK) *Ex {
	c := g.c
	switch {
	case k == MBool:
		if c.Chance(1, 2) {
			return lit("true", MV{K: MUBool, B: true})
		}
		return lit("false", MV{K: MUBool})
	case k == MString:
		return genStrLit(c, g.lits)
	case k.float() && c.Chance(1, 2):
		return genFloatLit(c, g.lits)
	case k.float():
		w := 24
		if k == MF64 {
			w = 64
		}
		if c.Chance(1, 6) {
			e := genIntLit(c, min(w, 63), false)
			if w == 64 && c.Chance(1, 8) {
				e.S, e.V.N = "9223372036854775808", 1<<63
			}
			return lit("-"+e.S, MV{K: MUInt, N: -e.V.N, B: true})
		}
		if k == MF32 && c.Chance(1, 8) {
			n := (1 + c.U64(24)) &^ 1 << uint(c.Int(40))
			return lit(fmt.Sprint(n), MV{K: MUInt, N: n})
		}
		return genIntLit(c, c.Range(1, w), g.lits)
	}
	w := k.width()
	if k.signed() {
		w--
	}
	if c.Chance(1, 8) && !k.unsigned() {
		e := genIntLit(c, w, false)
		return lit("-"+e.S, MV{K: MUInt, N: -e.V.N, B: true})
	}
	if w == 64 {
		return genIntLit(c, c.Range(1, 64), g.lits)
	}
	return genIntLit(c, c.Range(1, w), g.lits)
}

// pair makes two operands of kind k, one of which may be a literal.
func (g *xgen) pair(k MK, d int) (*Ex, *Ex) {
	switch g.c.Pick(8, 2, 2) {
	case 1:
		return g.typed(k, d), g.lit(k)
	case 2:
		return g.lit(k), g.typed(k, d)
	}
	return g.typed(k, d), g.typed(k, d)
}

func (g *xgen) typed(k MK, d int) *Ex {
	c := g.c
	switch {
	case k == MBool:
		return g.boolean(d)
	case k == MString:
		if d <= 0 || c.Chance(1, 2) {
			return g.ref(k)
		}
		if c.Chance(1, 4) {
			return cond(g.boolean(d-1), g.typed(k, d-1), g.typed(k, d-1))
		}
		a, b := g.pair(k, d-1)
		return bin(g.op("+"), a, b)
	}
	if d <= 0 || c.Chance(1, 5) {
		return g.ref(k)
	}
	switch c.Pick(10, 3, 2, 2) {
	case 1: // unary
		if k.integer() && c.Chance(1, 2) {
			return un(g.op("^"), g.typed(k, d-1))
		}
		return un(g.op(c.OneOf("-", "+")), g.typed(k, d-1))
	case 2:
		return cond(g.boolean(d-1), g.typed(k, d-1), g.typed(k, d-1))
	case 3:
		if k.integer() {
			return bin(g.op(c.OneOf("<<", ">>")), g.typed(k, d-1), g.count(d-1))
		}
	}
	op := c.OneOf("+", "-", "*", "/")
	if k.integer() {
		op = c.OneOf("+", "-", "*", "/", "%", "&", "|", "^", "&^")
	}
	a, b := g.pair(k, d-1)
	return bin(g.op(op), a, b)
}

// count makes a shift count of any integer kind.
func (g *xgen) count(d int) *Ex {
	c := g.c
	k := xIntKinds[c.Int(len(xIntKinds))]
	if len(g.e.byK[k]) == 0 || c.Chance(1, 2) {
		return ilit(c.Int(70))
	}
	if c.Chance(1, 2) {
		return bin("&", g.ref(k), ilit([]int{7, 15, 63, 127}[c.Int(4)]))
	}
	return g.typed(k, d)
}

func (g *xgen) boolean(d int) *Ex {
	c := g.c
	if d <= 0 {
		if c.Chance(1, 6) {
			return g.lit(MBool)
		}
		if len(g.e.byK[MBool]) > 0 {
			return g.ref(MBool)
		}
		k := g.kinds[c.Int(len(g.kinds))]
		return bin("<", g.ref(k), g.ref(k))
	}
	switch c.Pick(6, 4, 2, 1, 1) {
	case 1:
		return bin(g.op(c.OneOf("&&", "||")), g.boolean(d-1), g.boolean(d-1))
	case 2:
		return un(g.op("!"), g.boolean(d-1))
	case 3:
		return cond(g.boolean(d-1), g.boolean(d-1), g.boolean(d-1))
	case 4:
		return bin(g.op(c.OneOf("==", "!=")), g.boolean(d-1), g.boolean(d-1))
	}
	if len(g.e.byK[MString]) > 0 && c.Chance(1, 6) {
		a, b := g.pair(MString, d-1)
		return bin(g.op(c.OneOf("==", "!=")), a, b)
	}
	k := g.kinds[c.Int(len(g.kinds))]
	a, b := g.pair(k, d-1)
	if c.Chance(1, 8) {
		b = a
	}
	return bin(g.op(c.OneOf("==", "!=", "<", "<=", ">", ">=")), a, b)
}

// ---- literals

func genIntLit(c *C, width int, odd bool) *Ex {
	n := c.U64(width)
	s := fmt.Sprint(n)
	if odd {
		switch c.Int(8) {
		case 1:
			s = fmt.Sprintf("%s%x", c.OneOf("0x", "0X"), n)
			if c.Chance(1, 2) {
				s = "0x" + strings.ToUpper(s[2:])
			}
		case 2:
			s = fmt.Sprintf("%s%o", c.OneOf("0o", "0O"), n)
		case 3:
			s = fmt.Sprintf("%s%b", c.OneOf("0b", "0B"), n)
		case 4:
			s = fmt.Sprintf("0%o", n)
		case 5:
			if n < 0x110000 && n > 0 && !(n >= 0xd800 && n < 0xe000) {
				return genRuneLit(c, rune(n))
			}
		case 6:
			return genRuneLit(c, rune(" aZ09~'\"\\\a\b\f\n\r\t\v\x00\x7f\xe9\u4e16\U0001F600\u03bb"[c.Int(17)]))
		}
		if c.Chance(1, 3) {
			s = underscores(c, s)
		}
		c.ClassIf(s != fmt.Sprint(n), "odd-int-literal")
	}
	return lit(s, MV{K: MUInt, N: n})
}

// underscores puts _ between digits (and after a base prefix).
func underscores(c *C, s string) string {
	i := 0
	if len(s) > 1 && s[0] == '0' && s[1] > '9' {
		i = 1
	} else if len(s) > 1 && s[0] == '0' {
		i = 0
	}
	var b strings.Builder
	for j := range s {
		b.WriteByte(s[j])
		if j >= i && j+1 < len(s) && hexDigit(s[j+1]) && (hexDigit(s[j]) || j == i) && c.Chance(1, 3) {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func hexDigit(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func genRuneLit(c *C, r rune) *Ex {
	s := string(r)
	switch {
	case r == '\'' || r == '\\':
		s = "\\" + s
	case r < 0x20 || r == 0x7f || c.Chance(1, 3):
		i := strings.IndexRune("\a\b\f\n\r\t\v", r)
		switch {
		case i >= 0 && c.Chance(1, 2):
			s = "\\" + "abfnrtv"[i:i+1]
		case r < 0x100 && c.Chance(1, 2):
			s = fmt.Sprintf("\\x%02x", r)
		case r < 0x100 && c.Chance(1, 2):
			s = fmt.Sprintf("\\%03o", r)
		case r < 0x10000 && c.Chance(1, 2):
			s = fmt.Sprintf("\\u%04X", r)
		default:
			s = fmt.Sprintf("\\U%08x", r)
		}
	}
	c.Class("rune-literal")
	return lit("'"+s+"'", MV{K: MUInt, N: uint64(r)})
}

func genFloatLit(c *C, odd bool) *Ex {
	s := c.OneOf("0.5", "1.5", "2.25", "3.0", "1000.125", "0.1")
	if odd {
		d := func() string { return fmt.Sprint(c.Int(c.OneOfInt(10, 1000, 1000000))) }
		e := func() string { return c.OneOf("e", "E") + c.OneOf("", "+", "-") + fmt.Sprint(c.Int(12)) }
		switch c.Int(8) {
		case 0:
			s = d() + "." + d()
		case 1:
			s = "." + d()
		case 2:
			s = d() + "."
		case 3:
			s = d() + e()
		case 4:
			s = d() + "." + d() + e()
		case 5:
			s = "0" + d() + "." + d()
		case 6:
			s = fmt.Sprintf("0%s%x.%xp%s%d", c.OneOf("x", "X"), c.Int(4096), c.Int(256), c.OneOf("", "+", "-"), c.Int(20))
		case 7:
			s = fmt.Sprintf("0x%xP%s%d", c.Int(4096), c.OneOf("", "+", "-"), c.Int(20))
		}
		if c.Chance(1, 4) && len(s) > 2 && (s[1] != 'x' && s[1] != 'X') && s[0] != '.' && strings.IndexByte(s, '.') > 1 {
			s = underscores(c, s[:strings.IndexByte(s, '.')]) + s[strings.IndexByte(s, '.'):]
		}
		c.Class("odd-float-literal")
	}
	f, err := strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
	if err != nil {
		c.Discard("float literal " + s)
	}
	return lit(s, MV{K: MUFloat, F: f})
}

// OneOfInt chooses one of the numbers.
func (c *C) OneOfInt(n ...int) int { return n[c.Int(len(n))] }

// genStrLit makes a string literal in one of the two notations.
func genStrLit(c *C, odd bool) *Ex {
	q := byte('"')
	if c.Chance(1, 2) {
		q = '\''
	}
	n := c.Int(5)
	var src, val strings.Builder
	if odd && c.Chance(1, 150) {
		long := strings.Repeat(c.OneOf("a", "xy", "é", "世", "?'"[:1]), c.OneOfInt(c.Range(1, 300), c.Range(1, 3000), c.Range(1, 70000)))
		src.WriteString(long)
		val.WriteString(long)
	}
	for i := 0; i < n; i++ {
		m := 1
		if odd {
			m = 12
		}
		switch c.Int(m) {
		default:
			s := c.OneOf("a", "b", "Z", " ", "0", "(", "?", ",", "$", "\t", "é", "世", "`")
			src.WriteString(s)
			val.WriteString(s)
		case 4:
			j := c.Int(7)
			src.WriteString("\\" + "abfnrtv"[j:j+1])
			val.WriteByte("\a\b\f\n\r\t\v"[j])
		case 5:
			src.WriteString("\\\\")
			val.WriteByte('\\')
		case 6:
			src.WriteString("\\" + string(q))
			val.WriteByte(q)
		case 7:
			b := byte(c.U64(8))
			fmt.Fprintf(&src, c.OneOf("\\x%02x", "\\x%02X", "\\%03o"), b)
			val.WriteByte(b)
		case 8:
			r := rune(c.OneOfInt(0x41, 0xe9, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff))
			fmt.Fprintf(&src, "\\u%04x", r)
			val.WriteRune(r)
		case 9:
			r := rune(c.OneOfInt(0x41, 0xe9, 0x800, 0xffff, 0x10000, 0x1F600, 0x10ffff))
			fmt.Fprintf(&src, "\\U%08X", r)
			val.WriteRune(r)
		case 10: // the other quote needs no escape
			b := '"' + '\'' - q
			src.WriteByte(b)
			val.WriteByte(b)
		}
	}
	c.ClassIf(odd, "odd-string-literal")
	s := string(q) + src.String() + string(q)
	if q == '\'' {
		s = "$" + s
	}
	return lit(s, MV{K: MString, S: val.String()})
}

// ---- the oracle's second opinion: Go's own parser on the text

// fromGo converts what Go's parser makes of a text (no conditional operator, no
// $” strings) to a canonical form.
func fromGo(n ast.Expr) string {
	switch x := n.(type) {
	case *ast.ParenExpr:
		return fromGo(x.X)
	case *ast.BinaryExpr:
		return "(" + fromGo(x.X) + x.Op.String() + fromGo(x.Y) + ")"
	case *ast.UnaryExpr:
		return "(" + x.Op.String() + fromGo(x.X) + ")"
	case *ast.StarExpr:
		return "(*" + fromGo(x.X) + ")"
	case *ast.SelectorExpr:
		return "(" + fromGo(x.X) + "." + x.Sel.Name + ")"
	case *ast.IndexExpr:
		return "(" + fromGo(x.X) + "[" + fromGo(x.Index) + "])"
	case *ast.CallExpr:
		var a []string
		for _, y := range x.Args {
			a = append(a, fromGo(y))
		}
		return "(" + fromGo(x.Fun) + "(" + strings.Join(a, ",") + "))"
	case *ast.Ident:
		return x.Name
	case *ast.BasicLit:
		return x.Value
	}
	return fmt.Sprintf("?%T", n)
}

func canon(e *Ex) string {
	switch e.Op {
	case "paren":
		return canon(e.A[0])
	case "bin":
		return "(" + canon(e.A[0]) + e.S + canon(e.A[1]) + ")"
	case "un":
		return "(" + e.S + canon(e.A[0]) + ")"
	case "dot":
		return "(" + canon(e.A[0]) + "." + e.S + ")"
	case "idx":
		return "(" + canon(e.A[0]) + "[" + canon(e.A[1]) + "])"
	case "call":
		var a []string
		for _, y := range e.A[1:] {
			a = append(a, canon(y))
		}
		return "(" + canon(e.A[0]) + "(" + strings.Join(a, ",") + "))"
	case "lit":
		if strings.HasPrefix(e.S, "-") {
			return "(-" + e.S[1:] + ")"
		}
	}
	return e.S
}

// goAgrees checks the harness's own printer against Go's parser.
func goAgrees(c *C, text string, e *Ex) {
	if strings.Contains(text, "?") || strings.Contains(text, "$") {
		return
	}
	for _, s := range []string{"++", "--", "<-"} { // Go has tokens that the language has not
		if strings.Contains(text, s) {
			return
		}
	}
	n, err := parser.ParseExprFrom(token.NewFileSet(), "", text, 0)
	if err != nil {
		panic(fmt.Sprintf("Go does not parse %q: %v", text, err))
	}
	if fromGo(n) != canon(e) {
		panic(fmt.Sprintf("Go groups %q as %s, not %s", text, fromGo(n), canon(e)))
	}
	c.Class("grouping-confirmed-by-go/parser")
}

// ---- checks

// checkEval evaluates text and compares with the value of the tree.
func checkEval(c *C, r expr.Resolver, mr mres, text string, e *Ex) (MV, error) {
	want, werr := evalM(e, mr)
	got, err := c.Eval(r, text)
	checkResult(c, text, got, err, want, werr)
	return want, werr
}

func checkResult(c *C, text string, got interface{}, err error, want MV, werr error) {
	if err != nil {
		c.noPanic("Error()", guard(func() { _ = err.Error() }))
	}
	switch {
	case werr != nil && err == nil:
		c.Fail("%s = %v (%T), but %v", text, got, got, werr)
	case werr == nil && err != nil:
		c.Fail("%s: unexpected error %v, want %s", text, err, want)
	case werr == nil && !sameResult(got, want):
		c.Fail("%s = %T(%v), want %s", text, got, got, want)
	}
}

func sameResult(got interface{}, want MV) bool {
	switch want.K {
	case MNil:
		return got == nil
	case MPkg:
		_, ok := got.(expr.Package)
		return ok
	case MComp:
		if got == nil || reflect.TypeOf(got) != want.R.Type() {
			return false
		}
		return sameValue(reflect.ValueOf(got), want.R)
	}
	return sameGo(got, want)
}

// sameValue reports whether two values are the same: equal scalars (bit for bit)
// and identical references.
func sameValue(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Map, reflect.Chan:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Len() == b.Len() && a.IsNil() == b.IsNil() && a.Pointer() == b.Pointer()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameValue(a.Elem(), b.Elem())
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	}
	x, y := mFromReflect(a), mFromReflect(b)
	return x.K == y.K && x.N == y.N && x.S == y.S && x.B == y.B && (x.F == y.F && math.Signbit(x.F) == math.Signbit(y.F) || x.F != x.F && y.F != y.F)
}

func (g *xgen) classes() {
	for s := range g.ops {
		g.c.Class("op " + s)
	}
}

func showEnv(c *C, e *xenv, trees ...*Ex) {
	if !c.verbose {
		return
	}
	used := map[string]bool{}
	var walk func(x *Ex)
	walk = func(x *Ex) {
		if x.Op == "id" {
			used[x.S] = true
		}
		for _, y := range x.A {
			walk(y)
		}
	}
	for _, t := range trees {
		walk(t)
	}
	for _, n := range e.names {
		if used[n] {
			c.Note("%s = %T(%v)", n, e.goV[n], e.goV[n])
		}
	}
}

func runC16(c *C) {
	// one or two numeric kinds per case, so that values of one kind meet often
	ks := []MK{numKinds[c.Int(len(numKinds))], numKinds[c.Int(len(numKinds))]}
	if ks[0] == ks[1] {
		ks = ks[:1]
	}
	e := genEnv(c, append(append([]MK{}, ks...), MBool, MString))
	g := &xgen{c: c, e: e, kinds: ks, ops: map[string]int{}}
	r := e.resolver(c)
	n := c.Range(1, 4)
	for i := 0; i < n; i++ {
		d := c.Range(1, 4)
		var x *Ex
		if c.Chance(1, 10) {
			// operands of different kinds: an error unless Go allows it
			a, b := allKinds[c.Int(len(allKinds))], ks[c.Int(len(ks))]
			if len(e.byK[a]) == 0 {
				e2 := newEnv()
				*e2 = *e
				n := "W" + strings.Title(a.String())
				if _, ok := e.vals[n]; !ok {
					e.add(n, genMV(c, a), c.Chance(1, 5))
					r = e.resolver(c)
				}
			}
			op := c.OneOf("+", "-", "*", "/", "%", "&", "|", "^", "&^", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "&&", "||")
			x = bin(g.op(op), g.ref(a), g.ref(b))
			c.Class("mixed-operands")
		} else {
			k := append([]MK{MBool, MBool, MString}, append(append([]MK{}, ks...), ks...)...)
			kk := k[c.Int(len(k))]
			x = g.typed(kk, d)
		}
		text := exprText(x)
		c.Note("%s", text)
		showEnv(c, e, x)
		want, werr := checkEval(c, r, e.res, text, x)
		if m, ok := werr.(mErr); ok && len(x.A) == 2 && len(x.A[0].A)+len(x.A[1].A) == 0 && m.types() {
			_, err := c.Eval(r, text)
			var invalid expr.InvalidOpError
			var conv expr.ConversionError
			if !errors.As(err, &invalid) && !errors.As(err, &conv) {
				c.Fail("%s: the error is %T(%v), neither InvalidOpError nor ConversionError", text, err, err)
			}
			c.Class("operator not defined for the types")
		}
		if werr == nil {
			c.Class("result " + want.K.String())
		} else {
			c.Class("result error")
		}
	}
	if len(g.ops) > 0 {
		c.NonTrivial()
	}
	for _, k := range ks {
		c.Class("kind " + k.String())
	}
	for n := range e.named {
		_ = n
		c.Class("named-types")
		break
	}
	g.classes()
}

type ints interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// goInt is the second oracle for integer operators: Go itself, at each type.
func goInt[T ints](op string, a, b T) (v interface{}, ok bool) {
	switch op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		return a * b, true
	case "/":
		if b == 0 {
			return nil, false
		}
		return a / b, true
	case "%":
		if b == 0 {
			return nil, false
		}
		return a % b, true
	case "&":
		return a & b, true
	case "|":
		return a | b, true
	case "^":
		return a ^ b, true
	case "&^":
		return a &^ b, true
	case "<<":
		if b < 0 {
			return nil, false
		}
		return a << b, true
	case ">>":
		if b < 0 {
			return nil, false
		}
		return a >> b, true
	}
	return goCmp(op, a, b)
}

func goCmp[T ints | float32 | float64](op string, a, b T) (v interface{}, ok bool) {
	switch op {
	case "==":
		return a == b, true
	case "!=":
		return a != b, true
	case "<":
		return a < b, true
	case "<=":
		return a <= b, true
	case ">":
		return a > b, true
	case ">=":
		return a >= b, true
	}
	return nil, false
}

func goFloat[T float32 | float64](op string, a, b T) (v interface{}, ok bool) {
	switch op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		return a * b, true
	case "/":
		return a / b, true
	}
	return goCmp(op, a, b)
}

var binOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="}

type pairRunner struct {
	c    *C
	prog map[string]*expr.Program
	n    int
}

func (p *pairRunner) check(op string, a, b interface{}, want interface{}, ok bool) {
	p.n++
	r := expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(a), "B": expr.ValueOf(b)})
	var got interface{}
	var err error
	p.c.noPanic("EvalProgram", guard(func() { got, err = expr.EvalProgram(r, p.prog[op]) }))
	if ok != (err == nil) {
		p.c.Fail("%T(%v) %s %T(%v): got %v, error %v; Go gives %v", a, a, op, b, b, got, err, want)
	}
	if ok && !sameIface(got, want) {
		p.c.Fail("%T(%v) %s %T(%v) = %T(%v), Go gives %T(%v)", a, a, op, b, b, got, got, want, want)
	}
}

func sameIface(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && sameFloat(float64(x), float64(y))
	case float64:
		y, ok := b.(float64)
		return ok && sameFloat(x, y)
	}
	return a == b
}

func sweepInts[T ints](p *pairRunner, vals []T) {
	for _, a := range vals {
		for _, b := range vals {
			for _, op := range binOps {
				w, ok := goInt(op, a, b)
				p.check(op, a, b, w, ok)
			}
		}
	}
}

func corners[T ints]() []T {
	var v []T
	var z T
	max := ^z
	if max < 0 { // signed
		var m T = 1
		for m<<1 > 0 {
			m <<= 1
		}
		max = m - 1 + m
		v = append(v, -max-1, -max, z-1, z-2, z-7)
	}
	return append(v, 0, 1, 2, 3, 7, 8, 31, 63, 64, 65, 100, max, max-1, max/2, max/2+1, 85)
}

func sweepFloats[T float32 | float64](p *pairRunner, vals []T) {
	for _, a := range vals {
		for _, b := range vals {
			for _, op := range binOps {
				w, ok := goFloat(op, a, b)
				p.check(op, a, b, w, ok)
			}
		}
	}
}

// sweepC16 compares every operator with Go on corner values of every kind, and
// on all pairs of 8-bit values.
func sweepC16(c *C, thor bool) int {
	p := &pairRunner{c: c, prog: map[string]*expr.Program{}}
	for _, op := range binOps {
		op := op
		c.noPanic("ParseString", guard(func() { p.prog[op] = expr.ParseString("A " + op + " B") }))
	}
	sweepInts(p, corners[int]())
	sweepInts(p, corners[int8]())
	sweepInts(p, corners[int16]())
	sweepInts(p, corners[int32]())
	sweepInts(p, corners[int64]())
	sweepInts(p, corners[uint]())
	sweepInts(p, corners[uint8]())
	sweepInts(p, corners[uint16]())
	sweepInts(p, corners[uint32]())
	sweepInts(p, corners[uint64]())
	sweepInts(p, corners[uintptr]())
	f := []float64{0, math.Copysign(0, -1), 1, -1, 1.5, 0.1, 3, 1e10, 1e-10, 16777217, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	sweepFloats(p, f)
	var f32 []float32
	for _, x := range f {
		f32 = append(f32, float32(x))
	}
	sweepFloats(p, f32)
	step := 3
	if thor {
		step = 1
	}
	var i8 []int8
	var u8 []uint8
	for i := 0; i < 256; i += step {
		i8 = append(i8, int8(i))
		u8 = append(u8, uint8(i))
	}
	sweepInts(p, i8)
	sweepInts(p, u8)
	// unary operators on all 8-bit values
	for op, f := range map[string]func(int8) interface{}{"-": func(a int8) interface{} { return -a }, "^": func(a int8) interface{} { return ^a }, "+": func(a int8) interface{} { return a }} {
		p.prog[op] = expr.ParseString(op + "A")
		for i := 0; i < 256; i++ {
			p.check(op, int8(i), 0, f(int8(i)), true)
		}
	}
	for op, f := range map[string]func(uint8) interface{}{"-": func(a uint8) interface{} { return -a }, "^": func(a uint8) interface{} { return ^a }, "+": func(a uint8) interface{} { return a }} {
		p.prog[op] = expr.ParseString(op + "A")
		for i := 0; i < 256; i++ {
			p.check(op, uint8(i), 0, f(uint8(i)), true)
		}
	}
	// signed shift counts on every width
	return p.n
}

func runC17(c *C) {
	k := []MK{MInt64, MUint64, MInt, MInt32, MUint8}[c.Pick(6, 4, 2, 2, 2)]
	kinds := []MK{k}
	e := newEnv()
	long := "" // of names that differ at their end only
	if c.Chance(1, 30) {
		long = c.OneOf("a", "Bc", "é", "_")
		long = strings.Repeat(long, 1+c.OneOfInt(30, 120, 250, 1000)/len(long))
	}
	for i := 0; i < 5; i++ {
		v := genMV(c, k)
		if v.N == 0 || c.Chance(1, 2) {
			v = mInt(k, c.Draw(0)|1) // odd values: divisors
		}
		e.add(long+[]string{"a", "b1", "Cc", "d_", "é"}[i], v, false)
	}
	for i := 0; i < 4; i++ {
		e.add(long+[]string{"p", "q2", "R", "_s"}[i], genMV(c, MBool), false)
	}
	e.add("str", genMV(c, MString), false)
	e.add("f", genMV(c, MF64), false)
	// operands with members, elements and calls, so that postfix operators join in
	type rec struct {
		N, M int64
		S    []int64
		P    *int64
	}
	pv := int64(c.U64(64))
	rc := rec{N: int64(c.U64(64)), M: int64(c.Draw(0)) | 1, S: []int64{int64(c.U64(16)) | 1, -3, int64(c.Draw(0))}, P: &pv}
	fn := func(x, y int64) int64 { return x*3 ^ y }
	for _, x := range []struct {
		n string
		v interface{}
	}{{"rec", rc}, {"pr", &rc}, {"fn", fn}} {
		e.names = append(e.names, x.n)
		e.vals[x.n] = mFromReflect(reflect.ValueOf(x.v))
		e.goV[x.n] = x.v
	}
	if c.Chance(1, 4) { // literals right and wrong
		text := strangeLit(c)
		if c.Chance(1, 2) {
			text = strangeNum(c)
		}
		c.Note("%q", text)
		judge(c, e, e.mapResolver(), text)
	}
	g := &xgen{c: c, e: e, kinds: kinds, ops: map[string]int{}, lits: true}
	var x *Ex
	if c.Chance(1, 6) { // a literal by itself
		switch c.Int(4) {
		case 0:
			x = genIntLit(c, c.Range(1, 64), true)
		case 1:
			x = genFloatLit(c, true)
		case 2:
			x = genStrLit(c, true)
		default:
			x = genRuneLit(c, rune(c.OneOfInt('a', '\'', '"', '\\', 0, 7, 10, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x4e16)))
		}
		c.Class("single-literal")
	} else {
		d := c.Range(2, 5)
		if c.Chance(1, 2) {
			x = g.flat(k, d)
		} else if c.Chance(1, 3) {
			x = g.boolean(d)
		} else {
			x = g.typed(k, d)
		}
		if k == MInt64 {
			x = g.postfix(x)
		}
	}
	r := func() expr.Resolver {
		m := map[string]expr.Value{}
		for _, n := range e.names {
			m[n] = expr.ValueOf(e.goV[n])
		}
		return expr.NewMapResolver(m)
	}()
	n := c.Range(1, 3)
	for i := 0; i < n; i++ {
		text := exprTextRnd(c, x)
		if c.Chance(1, 4) {
			text = c.OneOf(" ", "\t", "  ") + text + c.OneOf("", " ", "\t\t")
		}
		goAgrees(c, text, x)
		c.Note("%s", text)
		if i == 0 {
			showEnv(c, e, x)
		}
		want, werr := checkEval(c, r, e.res, text, x)
		if werr == nil && i == 0 {
			c.Class("result " + want.K.String())
		}
		// a program evaluates the same every time
		if c.Chance(1, 6) {
			var p *expr.Program
			c.noPanic("ParseString("+text+")", guard(func() { p = expr.ParseString(text) }))
			for j := 0; j < 2; j++ {
				var got interface{}
				var err error
				c.noPanic("EvalProgram", guard(func() { got, err = expr.EvalProgram(r, p) }))
				checkResult(c, text, got, err, want, werr)
			}
		}
	}
	if len(g.ops) >= 2 || x.Op == "lit" {
		c.NonTrivial()
	}
	g.classes()
}

// flat makes long chains of operators of mixed precedence with leaf operands,
// where the grouping is all that decides the value.
func (g *xgen) flat(k MK, d int) *Ex {
	c := g.c
	ops := []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>"}
	leaf := func() *Ex {
		e := g.ref(k)
		if c.Chance(1, 6) {
			e = un(g.op(c.OneOf("-", "^", "+")), e)
		}
		return e
	}
	var num func(n int) *Ex
	num = func(n int) *Ex {
		if n <= 1 {
			return leaf()
		}
		op := g.op(ops[c.Int(len(ops))])
		j := c.Range(1, n-1)
		if op == "<<" || op == ">>" {
			return bin(op, num(n-1), ilit(c.Int(9)))
		}
		if op == "/" || op == "%" {
			return bin(op, num(n-1), g.ref(k))
		}
		return bin(op, num(j), num(n-j))
	}
	var boo func(n int) *Ex
	boo = func(n int) *Ex {
		if n <= 1 {
			if c.Chance(1, 4) {
				return un(g.op("!"), g.ref(MBool))
			}
			return g.ref(MBool)
		}
		j := c.Range(1, n-1)
		switch c.Pick(4, 3, 1) {
		case 1:
			return bin(g.op(c.OneOf("==", "!=", "<", "<=", ">", ">=")), num(j), num(n-j))
		case 2:
			return bin(g.op(c.OneOf("==", "!=")), boo(j), boo(n-j))
		}
		return bin(g.op(c.OneOf("&&", "||")), boo(j), boo(n-j))
	}
	var tern func(n int) *Ex
	tern = func(n int) *Ex {
		if n <= 0 {
			return num(c.Range(1, 4))
		}
		g.op("?:")
		return cond(boo(c.Range(1, 4)), tern(n-1-c.Int(n)), tern(n-1-c.Int(n)))
	}
	switch c.Pick(5, 4, 3) {
	case 1:
		return boo(c.Range(2, 2*d))
	case 2:
		return tern(c.Range(1, d))
	}
	return num(c.Range(2, 2*d))
}

// postfix replaces some int64 leaves by members, elements and calls.
func (g *xgen) postfix(x *Ex) *Ex {
	c := g.c
	if x.Op == "id" && x.T == MInt64 && c.Chance(1, 4) {
		b := id(c.OneOf("rec", "pr"), MComp)
		switch c.Int(5) {
		case 0:
			g.op(".")
			return dot(b, c.OneOf("N", "M"))
		case 1:
			g.op("[]")
			if c.Chance(1, 3) {
				return idx(dot(b, "S"), bin("-", ilit(2), ilit(c.Int(3))))
			}
			return idx(dot(b, "S"), ilit(c.Int(3)))
		case 2:
			g.op("deref")
			return un("*", dot(b, "P"))
		case 3:
			g.op("call")
			if c.Chance(1, 2) {
				return call(id("fn", MComp), cond(g.ref(MBool), x, x), dot(b, "M"))
			}
			return call(id("fn", MComp), x, dot(b, "M"))
		case 4:
			g.op("call")
			return call(id("fn", MComp), bin("+", x, ilit(1)), cond(g.ref(MBool), x, dot(b, "N")))
		}
	}
	if x.Op == "bin" && (x.S == "/" || x.S == "%") {
		return &Ex{Op: "bin", S: x.S, A: []*Ex{g.postfix(x.A[0]), x.A[1]}}
	}
	y := *x
	y.A = nil
	for _, a := range x.A {
		y.A = append(y.A, g.postfix(a))
	}
	return &y
}

func init() {
	register(&Prop{
		ID:    "C16",
		Tech:  "property-based testing: random well- and ill-typed operator trees against a reference evaluator, plus a sweep of every operator over corner and all 8-bit operand pairs against Go itself",
		Rule:  "a case is 1-4 expression trees over variables of one or two numeric kinds (plain and named types), bool and string; non-trivial if it uses at least one operator",
		Run:   runC16,
		Quick: 80000, Thor: 500000,
		Sweep:       sweepC16,
		Assumptions: []string{"untyped literals are chosen to fit the type of the other operand"},
	})
	register(&Prop{
		ID:    "C17",
		Tech:  "property-based testing: random trees printed with random spacing, redundant and minimal parentheses and literal notations; the text must evaluate to the value of the tree; grouping is confirmed by Go's own parser",
		Rule:  "a case is one tree printed 1-3 times, or one literal in a random notation; non-trivial if it has at least two different operators or is a literal",
		Run:   runC17,
		Quick: 80000, Thor: 500000,
	})
}
