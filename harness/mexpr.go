package main

// Reference semantics of the expression language: an expression tree with its
// own evaluator (Go semantics) and a printer. The text is only ever parsed by the
// code under test.

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
)

// MK is the kind of a model value.
type MK uint8

const (
	MNone MK = iota
	MBool
	MInt
	MInt8
	MInt16
	MInt32
	MInt64
	MUint
	MUint8
	MUint16
	MUint32
	MUint64
	MUintptr
	MF32
	MF64
	MString
	MUInt   // untyped integer literal
	MUFloat // untyped float literal
	MUBool  // untyped bool literal
	MNil
	MComp // composite: pointer, struct, array, slice, map, function
	MPkg  // package: P
)

var mkName = map[MK]string{MBool: "bool", MInt: "int", MInt8: "int8", MInt16: "int16", MInt32: "int32", MInt64: "int64",
	MUint: "uint", MUint8: "uint8", MUint16: "uint16", MUint32: "uint32", MUint64: "uint64", MUintptr: "uintptr",
	MF32: "float32", MF64: "float64", MString: "string", MUInt: "untyped int", MUFloat: "untyped float", MUBool: "untyped bool", MNil: "nil", MComp: "composite"}

func (k MK) String() string { return mkName[k] }

func (k MK) signed() bool   { return k >= MInt && k <= MInt64 }
func (k MK) unsigned() bool { return k >= MUint && k <= MUintptr }
func (k MK) integer() bool  { return k >= MInt && k <= MUintptr }
func (k MK) float() bool    { return k == MF32 || k == MF64 }

func (k MK) width() int {
	switch k {
	case MInt8, MUint8:
		return 8
	case MInt16, MUint16:
		return 16
	case MInt32, MUint32, MF32:
		return 32
	}
	return 64
}

// MV is a model value. Integers are kept sign- or zero-extended in N.
type MV struct {
	K MK
	N uint64
	F float64
	S string
	B bool
	R reflect.Value
	P map[string]MV
}

func wrap(k MK, n uint64) uint64 {
	w := uint(k.width())
	if w == 64 {
		return n
	}
	if k.signed() {
		return uint64(int64(n<<(64-w)) >> (64 - w))
	}
	return n << (64 - w) >> (64 - w)
}

func mInt(k MK, n uint64) MV { return MV{K: k, N: wrap(k, n)} }
func mBool(b bool) MV        { return MV{K: MBool, B: b} }

func mFloat(k MK, f float64) MV {
	if k == MF32 {
		f = float64(float32(f))
	}
	return MV{K: k, F: f}
}

var mkRT = map[MK]reflect.Type{
	MBool: reflect.TypeOf(false), MInt: reflect.TypeOf(int(0)), MInt8: reflect.TypeOf(int8(0)), MInt16: reflect.TypeOf(int16(0)),
	MInt32: reflect.TypeOf(int32(0)), MInt64: reflect.TypeOf(int64(0)), MUint: reflect.TypeOf(uint(0)), MUint8: reflect.TypeOf(uint8(0)),
	MUint16: reflect.TypeOf(uint16(0)), MUint32: reflect.TypeOf(uint32(0)), MUint64: reflect.TypeOf(uint64(0)), MUintptr: reflect.TypeOf(uintptr(0)),
	MF32: reflect.TypeOf(float32(0)), MF64: reflect.TypeOf(float64(0)), MString: reflect.TypeOf(""),
}

var kindMK = map[reflect.Kind]MK{
	reflect.Bool: MBool, reflect.Int: MInt, reflect.Int8: MInt8, reflect.Int16: MInt16, reflect.Int32: MInt32, reflect.Int64: MInt64,
	reflect.Uint: MUint, reflect.Uint8: MUint8, reflect.Uint16: MUint16, reflect.Uint32: MUint32, reflect.Uint64: MUint64, reflect.Uintptr: MUintptr,
	reflect.Float32: MF32, reflect.Float64: MF64, reflect.String: MString,
}

// mFromReflect reads a Go value (named types like their underlying type).
func mFromReflect(v reflect.Value) MV {
	if v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	k, ok := kindMK[v.Kind()]
	if !ok {
		return MV{K: MComp, R: v}
	}
	switch {
	case k == MBool:
		return mBool(v.Bool())
	case k.signed():
		return MV{K: k, N: uint64(v.Int())}
	case k.unsigned():
		return MV{K: k, N: v.Uint()}
	case k.float():
		return MV{K: k, F: v.Float()}
	}
	return MV{K: k, S: v.String()}
}

// goValue is the plain Go value of a typed model value.
func (m MV) goValue() interface{} {
	switch {
	case m.K == MBool || m.K == MUBool:
		return m.B
	case m.K.integer():
		return reflect.ValueOf(m.N).Convert(mkRT[m.K]).Interface()
	case m.K == MF32:
		return float32(m.F)
	case m.K == MF64 || m.K == MUFloat:
		return m.F
	case m.K == MString:
		return m.S
	case m.K == MComp:
		return m.R.Interface()
	case m.K == MUInt:
		return int64(m.N)
	}
	return nil
}

func (m MV) String() string {
	switch {
	case m.K == MBool || m.K == MUBool:
		return fmt.Sprint(m.B)
	case m.K.signed():
		return fmt.Sprintf("%s(%d)", m.K, int64(m.N))
	case m.K.integer() || m.K == MUInt:
		return fmt.Sprintf("%s(%d)", m.K, m.N)
	case m.K.float() || m.K == MUFloat:
		return fmt.Sprintf("%s(%v)", m.K, m.F)
	case m.K == MString:
		return fmt.Sprintf("%q", m.S)
	}
	return m.K.String()
}

// Ex is an expression tree.
type Ex struct {
	Op string // lit, id, bin, un, if, dot, idx, call, paren
	S  string // operator, identifier or member name, literal text
	A  []*Ex
	V  MV  // literal value
	T  MK  // static kind, where the generator knows it
	Z  int // depth (generator use)
}

func lit(text string, v MV) *Ex   { return &Ex{Op: "lit", S: text, V: v, T: v.K} }
func id(name string, t MK) *Ex    { return &Ex{Op: "id", S: name, T: t} }
func bin(op string, a, b *Ex) *Ex { return &Ex{Op: "bin", S: op, A: []*Ex{a, b}} }
func un(op string, a *Ex) *Ex     { return &Ex{Op: "un", S: op, A: []*Ex{a}} }
func cond(a, b, c *Ex) *Ex        { return &Ex{Op: "if", A: []*Ex{a, b, c}} }
func dot(a *Ex, name string) *Ex  { return &Ex{Op: "dot", S: name, A: []*Ex{a}} }
func idx(a, i *Ex) *Ex            { return &Ex{Op: "idx", A: []*Ex{a, i}} }
func call(f *Ex, args ...*Ex) *Ex { return &Ex{Op: "call", A: append([]*Ex{f}, args...)} }
func ilit(n int) *Ex {
	if n < 0 {
		return lit(fmt.Sprint(n), MV{K: MUInt, N: uint64(int64(n)), B: true})
	}
	return lit(fmt.Sprint(n), MV{K: MUInt, N: uint64(n)})
}

func slit(s string) *Ex {
	return lit("$'"+escapeStr(s, '\'')+"'", MV{K: MString, S: s})
}

func escapeStr(s string, quote byte) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == quote || ch == '\\':
			b.WriteByte('\\')
			b.WriteByte(ch)
		case ch >= 0x20 && ch < 0x7f:
			b.WriteByte(ch)
		default:
			fmt.Fprintf(&b, "\\x%02x", ch)
		}
	}
	return b.String()
}

var errModel = errors.New("model: expression has no value")

type mErr struct{ why string }

func (e mErr) Error() string { return "model: " + e.why }

// types tells if the operand types alone make it an error.
func (e mErr) types() bool {
	for _, s := range []string{"mismatched types", "operator ", "logical operand", "shift of", "not ordered", "ordered bools", "strings are"} {
		if strings.HasPrefix(e.why, s) {
			return true
		}
	}
	return false
}

func bad(why string) error { return mErr{why} }

// Resolver of the model: value of a name, or false.
type mres func(name string) (MV, bool)

func coerceM(a, b MV) (MV, MV, error) {
	if a.K == b.K {
		if a.K == MUInt {
			for _, x := range []MV{a, b} {
				if !x.B && int64(x.N) < 0 {
					litLoose = true
				}
			}
			return MV{K: MInt, N: a.N}, MV{K: MInt, N: b.N}, nil
		}
		if a.K == MComp && a.R.Type() != b.R.Type() {
			return a, b, bad("mismatched types")
		}
		return a, b, nil
	}
	if x, ok := convLit(a, b.K); ok {
		return x, b, nil
	}
	if x, ok := convLit(b, a.K); ok {
		return a, x, nil
	}
	return a, b, bad(fmt.Sprintf("mismatched types %s and %s", a.K, b.K))
}

// litLoose is set when an untyped literal did not fit where it was used (Go rejects
// that; the language does not say).
var litLoose bool

// litFloat is the value of an integer literal; B marks those that are signed.
func (m MV) litFloat() float64 {
	if m.B {
		return float64(int64(m.N))
	}
	return float64(m.N)
}

// convLit converts an untyped literal to the type of the other operand.
func convLit(a MV, k MK) (MV, bool) {
	switch a.K {
	case MUInt:
		switch {
		case k.integer():
			neg := a.B && int64(a.N) < 0
			if m := mInt(k, a.N); m.N != a.N || neg && k.unsigned() || !neg && k.signed() && int64(m.N) < 0 {
				litLoose = true
			}
			return mInt(k, a.N), true
		case k.float():
			return mFloat(k, a.litFloat()), true
		case k == MUFloat:
			return MV{K: MUFloat, F: a.litFloat()}, true
		}
	case MUFloat:
		if k.float() {
			m := mFloat(k, a.F)
			if math.IsInf(m.F, 0) && !math.IsInf(a.F, 0) {
				litLoose = true
			}
			return m, true
		}
	case MUBool:
		if k == MBool {
			return mBool(a.B), true
		}
	}
	return a, false
}

func arith(op string, a, b MV) (MV, error) {
	a, b, err := coerceM(a, b)
	if err != nil {
		return MV{}, err
	}
	k := a.K
	switch {
	case k.integer():
		x, y := a.N, b.N
		switch op {
		case "+":
			return mInt(k, x+y), nil
		case "-":
			return mInt(k, x-y), nil
		case "*":
			return mInt(k, x*y), nil
		case "/", "%":
			if y == 0 {
				return MV{}, bad("division by zero")
			}
			if k.signed() {
				if int64(y) == -1 { // wraps; also avoids the host's overflow case
					if op == "/" {
						return mInt(k, -x), nil
					}
					return mInt(k, 0), nil
				}
				if op == "/" {
					return mInt(k, uint64(int64(x)/int64(y))), nil
				}
				return mInt(k, uint64(int64(x)%int64(y))), nil
			}
			if op == "/" {
				return mInt(k, x/y), nil
			}
			return mInt(k, x%y), nil
		case "&":
			return mInt(k, x&y), nil
		case "|":
			return mInt(k, x|y), nil
		case "^":
			return mInt(k, x^y), nil
		case "&^":
			return mInt(k, x&^y), nil
		}
	case k.float() || k == MUFloat:
		rk := k
		if k == MUFloat {
			rk = MF64
		}
		x, y := a.F, b.F
		switch op {
		case "+":
			return mFloat(rk, x+y), nil
		case "-":
			return mFloat(rk, x-y), nil
		case "*":
			return mFloat(rk, x*y), nil
		case "/":
			return mFloat(rk, x/y), nil
		}
	case k == MString && op == "+":
		return MV{K: MString, S: a.S + b.S}, nil
	}
	return MV{}, bad("operator " + op + " not defined on " + k.String())
}

func compare(op string, a, b MV) (MV, error) {
	if a.K == MNil || b.K == MNil {
		o := a
		if a.K == MNil {
			o = b
		}
		if o.K == MNil || op != "==" && op != "!=" {
			return MV{}, bad("bad nil comparison")
		}
		if o.K != MComp {
			return MV{}, bad("bad nil comparison")
		}
		switch o.R.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func:
			return mBool(o.R.IsNil() == (op == "==")), nil
		}
		return MV{}, bad("bad nil comparison")
	}
	if (a.K == MBool || a.K == MUBool) && (b.K == MBool || b.K == MUBool) {
		switch op {
		case "==":
			return mBool(a.B == b.B), nil
		case "!=":
			return mBool(a.B != b.B), nil
		}
		return MV{}, bad("ordered bools")
	}
	a, b, err := coerceM(a, b)
	if err != nil {
		return MV{}, err
	}
	var lt, eq bool
	switch k := a.K; {
	case k.signed():
		lt, eq = int64(a.N) < int64(b.N), a.N == b.N
	case k.unsigned():
		lt, eq = a.N < b.N, a.N == b.N
	case k.float() || k == MUFloat:
		x, y := a.F, b.F
		switch op {
		case "==":
			return mBool(x == y), nil
		case "!=":
			return mBool(x != y), nil
		case "<":
			return mBool(x < y), nil
		case "<=":
			return mBool(x <= y), nil
		case ">":
			return mBool(x > y), nil
		case ">=":
			return mBool(x >= y), nil
		}
	case k == MString:
		if op != "==" && op != "!=" {
			return MV{}, bad("strings are not ordered")
		}
		eq = a.S == b.S
	case k == MComp && (op == "==" || op == "!="):
		if !a.R.Type().Comparable() {
			return MV{}, bad("not comparable")
		}
		return mBool((a.R.Interface() == b.R.Interface()) == (op == "==")), nil
	default:
		return MV{}, bad("not ordered: " + k.String())
	}
	switch op {
	case "==":
		return mBool(eq), nil
	case "!=":
		return mBool(!eq), nil
	case "<":
		return mBool(lt), nil
	case "<=":
		return mBool(lt || eq), nil
	case ">":
		return mBool(!lt && !eq), nil
	case ">=":
		return mBool(!lt), nil
	}
	return MV{}, errModel
}

func shift(op string, a, b MV) (MV, error) {
	if !(b.K.unsigned() || (b.K == MUInt || b.K.signed()) && int64(b.N) >= 0) {
		return MV{}, bad("shift count")
	}
	if a.K == MUInt {
		if !a.B && int64(a.N) < 0 {
			litLoose = true
		}
		a = MV{K: MInt, N: a.N}
	}
	if !a.K.integer() {
		return MV{}, bad("shift of non-integer")
	}
	s := b.N
	if op == "<<" {
		if s >= 64 {
			return mInt(a.K, 0), nil
		}
		return mInt(a.K, a.N<<s), nil
	}
	if a.K.signed() {
		if s > 63 {
			s = 63
		}
		return mInt(a.K, uint64(int64(a.N)>>s)), nil
	}
	if s >= 64 {
		return mInt(a.K, 0), nil
	}
	return mInt(a.K, a.N>>s), nil
}

func (m MV) boolean() (bool, bool) {
	return m.B, m.K == MBool || m.K == MUBool
}

// evalM evaluates the tree. An error means that Go has no value for it.
func evalM(e *Ex, r mres) (MV, error) {
	switch e.Op {
	case "lit":
		return e.V, nil
	case "paren":
		return evalM(e.A[0], r)
	case "id":
		v, ok := r(e.S)
		if !ok {
			return MV{}, bad("unknown name " + e.S)
		}
		return v, nil
	case "un":
		a, err := evalM(e.A[0], r)
		if err != nil {
			return a, err
		}
		switch e.S {
		case "+":
			if a.K.integer() || a.K.float() || a.K == MUInt || a.K == MUFloat {
				return a, nil
			}
		case "-":
			switch {
			case a.K == MUInt:
				if !a.B && a.N > 1<<63 || a.B && int64(a.N) == math.MinInt64 {
					litLoose = true
				}
				return MV{K: MUInt, N: -a.N, B: true}, nil
			case a.K.integer():
				return mInt(a.K, -a.N), nil
			case a.K.float() || a.K == MUFloat:
				return MV{K: a.K, F: -a.F}, nil
			}
		case "!":
			if b, ok := a.boolean(); ok {
				return mBool(!b), nil
			}
		case "^":
			switch {
			case a.K == MUInt:
				if !a.B && int64(a.N) < 0 {
					litLoose = true
				}
				return MV{K: MUInt, N: ^a.N, B: true}, nil
			case a.K.integer():
				return mInt(a.K, ^a.N), nil
			}
		case "*":
			if a.K == MComp && a.R.Kind() == reflect.Ptr {
				if a.R.IsNil() {
					return MV{}, bad("nil dereference")
				}
				return mFromReflect(a.R.Elem()), nil
			}
		}
		return MV{}, bad("unary " + e.S + " on " + a.K.String())
	case "if":
		a, err := evalM(e.A[0], r)
		if err != nil {
			return a, err
		}
		b, ok := a.boolean()
		if !ok {
			return MV{}, bad("condition is not boolean")
		}
		if b {
			return evalM(e.A[1], r)
		}
		return evalM(e.A[2], r)
	case "dot":
		a, err := evalM(e.A[0], r)
		if err != nil {
			return a, err
		}
		if a.K == MPkg {
			if v, ok := a.P[e.S]; ok {
				return v, nil
			}
			return MV{}, bad("no symbol " + e.S)
		}
		if a.K != MComp {
			return MV{}, bad("member of non-struct")
		}
		v := a.R
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return MV{}, bad("nil dereference")
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return MV{}, bad("member of non-struct")
		}
		f, err := fieldOf(v, e.S)
		if err != nil {
			return MV{}, err
		}
		return mFromReflect(f), nil
	case "idx":
		a, err := evalM(e.A[0], r)
		if err != nil {
			return a, err
		}
		i, err := evalM(e.A[1], r)
		if err != nil {
			return i, err
		}
		if a.K == MComp && a.R.Kind() == reflect.Map {
			kk, ok := kindMK[a.R.Type().Key().Kind()]
			if !ok {
				return MV{}, bad("map key")
			}
			if i.K != kk {
				if i, ok = convLit(i, kk); !ok {
					return MV{}, bad("map key type")
				}
			}
			x := a.R.MapIndex(reflect.ValueOf(i.goValue()).Convert(a.R.Type().Key()))
			if !x.IsValid() {
				return mFromReflect(reflect.Zero(a.R.Type().Elem())), nil
			}
			return mFromReflect(x), nil
		}
		if i.K != MInt && i.K != MUInt {
			return MV{}, bad("index type")
		}
		n := int64(i.N)
		if a.K == MString {
			if n < 0 || n >= int64(len(a.S)) {
				return MV{}, bad("index out of range")
			}
			return mInt(MUint8, uint64(a.S[n])), nil
		}
		if a.K == MComp && (a.R.Kind() == reflect.Slice || a.R.Kind() == reflect.Array) {
			if n < 0 || n >= int64(a.R.Len()) {
				return MV{}, bad("index out of range")
			}
			return mFromReflect(a.R.Index(int(n))), nil
		}
		return MV{}, bad("index of non-sequence")
	case "call":
		f, err := evalM(e.A[0], r)
		if err != nil {
			return f, err
		}
		var args []MV
		for _, x := range e.A[1:] {
			v, err := evalM(x, r)
			if err != nil {
				return v, err
			}
			args = append(args, v)
		}
		return callM(f, args)
	case "bin":
		a, err := evalM(e.A[0], r)
		if err != nil {
			return a, err
		}
		if e.S == "&&" || e.S == "||" {
			x, ok := a.boolean()
			if !ok {
				return MV{}, bad("logical operand")
			}
			if x == (e.S == "||") {
				return mBool(x), nil
			}
			b, err := evalM(e.A[1], r)
			if err != nil {
				return b, err
			}
			y, ok := b.boolean()
			if !ok {
				return MV{}, bad("logical operand")
			}
			return mBool(y), nil
		}
		b, err := evalM(e.A[1], r)
		if err != nil {
			return b, err
		}
		switch e.S {
		case "==", "!=", "<", "<=", ">", ">=":
			return compare(e.S, a, b)
		case "<<", ">>":
			return shift(e.S, a, b)
		}
		return arith(e.S, a, b)
	}
	return MV{}, errModel
}

// fieldOf reads a field as Go code in another package could.
func fieldOf(v reflect.Value, name string) (reflect.Value, error) {
	sf, ok := v.Type().FieldByName(name)
	if !ok || sf.PkgPath != "" {
		return v, bad("no member " + name)
	}
	for _, i := range sf.Index {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, bad("nil dereference")
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, nil
}

// callM calls a function value.
func callM(f MV, args []MV) (res MV, err error) {
	if f.K != MComp || f.R.Kind() != reflect.Func {
		return MV{}, bad("call of non-function")
	}
	t := f.R.Type()
	if t.NumIn() != len(args) || t.NumOut() != 1 || f.R.IsNil() {
		return MV{}, bad("wrong call")
	}
	var in []reflect.Value
	for i, v := range args {
		it := t.In(i)
		k, prim := kindMK[it.Kind()]
		switch {
		case v.K == MNil:
			switch it.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func:
				in = append(in, reflect.Zero(it))
				continue
			}
			return MV{}, bad("nil argument")
		case !prim:
			if v.K != MComp || v.R.Type() != it {
				return MV{}, bad("argument type")
			}
			in = append(in, v.R)
			continue
		case v.K != k:
			var ok bool
			if v, ok = convLit(v, k); !ok {
				return MV{}, bad("argument type")
			}
		}
		in = append(in, reflect.ValueOf(v.goValue()).Convert(it))
	}
	defer func() {
		if r := recover(); r != nil {
			res, err = MV{}, bad("the function panics")
		}
	}()
	return mFromReflect(f.R.Call(in)[0]), nil
}

var precOf = map[string]int{
	"*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5,
	"+": 4, "-": 4, "|": 4, "^": 4,
	"==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"&&": 2, "||": 1,
}

func exPrec(e *Ex) int {
	switch e.Op {
	case "bin":
		return precOf[e.S]
	case "if":
		return 0
	case "un":
		return 6
	case "lit":
		if strings.HasPrefix(e.S, "-") {
			return 6
		}
	}
	return 8
}

// tokens prints the tree as tokens with the parentheses Go needs; extra decides
// about redundant ones.
func tokens(e *Ex, min int, extra func() bool) []string {
	p := exPrec(e)
	par := p < min
	if extra != nil && extra() {
		par = true
	}
	var t []string
	sub := func(x *Ex, m int) { t = append(t, tokens(x, m, extra)...) }
	switch e.Op {
	case "lit", "id":
		t = append(t, e.S)
	case "paren":
		t = append(t, "(")
		sub(e.A[0], 0)
		t = append(t, ")")
	case "un":
		t = append(t, e.S)
		sub(e.A[0], 6)
	case "if":
		sub(e.A[0], 1)
		t = append(t, "?")
		sub(e.A[1], 0)
		t = append(t, ":")
		sub(e.A[2], 0)
	case "dot":
		sub(e.A[0], 7)
		t = append(t, ".", e.S)
	case "idx":
		sub(e.A[0], 7)
		t = append(t, "[")
		sub(e.A[1], 0)
		t = append(t, "]")
	case "call":
		sub(e.A[0], 7)
		t = append(t, "(")
		for i, x := range e.A[1:] {
			if i > 0 {
				t = append(t, ",")
			}
			sub(x, 0)
		}
		t = append(t, ")")
	case "bin":
		sub(e.A[0], p)
		t = append(t, e.S)
		sub(e.A[1], p+1)
	}
	if par {
		t = append(append([]string{"("}, t...), ")")
	}
	return t
}

func wordChar(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
}

// needSpace reports whether two adjacent tokens would be read as something else
// without a separator.
func needSpace(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if wordChar(x) && wordChar(y) {
		return true
	}
	if wordChar(x) && y == '.' && x >= '0' && x <= '9' && a[0] >= '0' && a[0] <= '9' {
		return true
	}
	switch string([]byte{x, y}) {
	case "&&", "&^", "||", "<<", ">>", "<=", ">=", "==", "!=":
		return true
	}
	if y >= '0' && y <= '9' && x == '.' {
		return true
	}
	if (x >= '0' && x <= '9' || x == '.') && y == '.' {
		return true
	}
	return false
}

// joinTokens joins with the given separator source.
func joinTokens(t []string, sp func(need bool) string) string {
	var b strings.Builder
	for i, s := range t {
		if i > 0 {
			b.WriteString(sp(needSpace(t[i-1], s)))
		}
		b.WriteString(s)
	}
	return b.String()
}

// exprText is the canonical text of a tree.
func exprText(e *Ex) string {
	t := tokens(e, 0, nil)
	s := joinTokens(t, func(bool) string { return " " })
	// canonical text has no spaces around . ( [
	r := strings.NewReplacer(" . ", ".", " ( ", "(", " [ ", "[", " ]", "]", " )", ")", " ,", ",")
	if !strings.ContainsAny(s, "'\"") {
		s = r.Replace(s)
	}
	return s
}

// exprTextRnd prints with random spacing and redundant parentheses.
func exprTextRnd(c *C, e *Ex) string {
	mode := c.Int(4)
	var extra func() bool
	if mode >= 2 {
		extra = func() bool { return c.Chance(1, 8) }
	}
	t := tokens(e, 0, extra)
	switch mode {
	case 0:
		return exprText(e)
	case 1: // as tight as possible
		return joinTokens(t, func(need bool) string {
			if need {
				return " "
			}
			return ""
		})
	default:
		return joinTokens(t, func(need bool) string {
			n := c.Int(3)
			if need && n == 0 {
				n = 1
			}
			s := ""
			for i := 0; i < n; i++ {
				s += c.OneOf(" ", " ", "\t")
			}
			return s
		})
	}
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

// sameGo compares a result of the code under test with a model value.
func sameGo(got interface{}, want MV) bool {
	switch {
	case want.K == MBool || want.K == MUBool:
		b, ok := got.(bool)
		return ok && b == want.B
	case want.K.integer():
		v := reflect.ValueOf(got)
		if !v.IsValid() || v.Type() != mkRT[want.K] {
			return false
		}
		return got == want.goValue()
	case want.K == MF32:
		f, ok := got.(float32)
		return ok && sameFloat(float64(f), want.F)
	case want.K == MF64 || want.K == MUFloat:
		f, ok := got.(float64)
		return ok && sameFloat(f, want.F)
	case want.K == MString:
		s, ok := got.(string)
		return ok && s == want.S
	case want.K == MUInt:
		switch n := got.(type) {
		case int64:
			return uint64(n) == want.N
		case uint64:
			return n == want.N
		case int:
			return uint64(n) == want.N
		}
		return false
	}
	return false
}
