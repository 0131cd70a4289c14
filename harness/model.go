package main

// Reference model of the binary layout: an independent decoder (that can also
// choose the bits it reads, which makes it a generator of inputs and values) and an
// independent encoder. Values are Go values of the generated types.

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync/atomic"
)

// modelErr is an outcome that the code under test must report as an error.
type modelErr struct{ why string }

func (e modelErr) Error() string { return e.why }

func merr(format string, a ...interface{}) { panic(modelErr{fmt.Sprintf(format, a...)}) }

var errEOF = modelErr{"unexpected end of input"}

// bits is a growing string of bits, most significant bit of each byte first.
type bitbuf struct {
	b []byte
	n int
}

func (w *bitbuf) put(x uint64, width int) {
	if w.n%8 == 0 && width%8 == 0 {
		for i := width - 8; i >= 0; i -= 8 {
			w.b = append(w.b, byte(x>>uint(i)))
		}
		w.n += width
		return
	}
	for i := width - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(x>>uint(i)&1) << uint(7-w.n%8)
		w.n++
	}
}

func getBits(b []byte, pos, width int) uint64 {
	var x uint64
	for i := 0; i < width; i++ {
		p := pos + i
		x = x<<1 | uint64(b[p/8]>>uint(7-p%8)&1)
	}
	return x
}

// pieces lists the bit groups of a value in the order they are stored: (shift, width).
func pieces(width int, ord binary.ByteOrder) [][2]int {
	if ord == binary.BigEndian || width <= 8 {
		return [][2]int{{0, width}}
	}
	var p [][2]int
	for s := 0; s < width; s += 8 {
		w := 8
		if width-s < 8 {
			w = width - s
		}
		p = append(p, [2]int{s, w})
	}
	return p
}

func (w *bitbuf) putOrd(x uint64, width int, ord binary.ByteOrder) {
	for _, p := range pieces(width, ord) {
		w.put(x>>uint(p[0]), p[1])
	}
}

func mask(x uint64, width int) uint64 {
	if width >= 64 {
		return x
	}
	return x & (1<<uint(width) - 1)
}

func sext(x uint64, width int) int64 {
	s := uint(64 - width)
	return int64(x<<s) >> s
}

// cntMark says where a counter is in the input.
type cntMark struct {
	at, width int
	ord       binary.ByteOrder
}

// dm is the model decoder. With c set it chooses the input as it goes.
type dm struct {
	c       *C
	in      []byte
	pos     int
	w       bitbuf
	sealed  bool // gen mode: the end of input was seen, nothing more may be read
	usedEOF bool
	loops   int
	many    int // gen mode: how often the input goes on, if often
	stack   []reflect.Value
	budget  int  // gen mode: bytes of payload left before lengths become short
	bug15   bool // reproduce the known finding for signed bit-fields over int8
	hit15   bool
	hostile func(f *Fd, width int) (uint64, bool) // gen mode: override of counters
	marks   []int                                 // gen mode: bit positions of field starts
	counts  []cntMark                             // gen mode: where counters are
	slices  int
	minimal bool // gen mode: lengths as short as possible
}

func (d *dm) at() int {
	if d.c != nil {
		return d.w.n
	}
	return d.pos
}

func (d *dm) raw(width int, ord binary.ByteOrder, gen func() uint64) uint64 {
	if d.c != nil {
		if d.sealed {
			d.c.Discard("data after end of input")
		}
		x := mask(gen(), width)
		d.w.putOrd(x, width, ord)
		d.budget -= (width + 7) / 8
		return x
	}
	if d.pos+width > 8*len(d.in) {
		panic(errEOF)
	}
	var x uint64
	for _, p := range pieces(width, ord) {
		x |= getBits(d.in, d.pos, p[1]) << uint(p[0])
		d.pos += p[1]
	}
	return x
}

func (d *dm) junk(n int) {
	if n < 0 {
		panic("harness: negative junk")
	}
	if d.c != nil {
		if n > 0 && d.sealed {
			d.c.Discard("data after end of input")
		}
		mode := d.c.Int(3)
		for n > 0 {
			w := n
			if w > 32 {
				w = 32
			}
			var x uint64
			switch mode {
			case 1:
				x = 0xffffffff
			case 2:
				x = d.c.Draw(1 << 32)
			}
			d.w.put(x, w)
			n -= w
		}
		return
	}
	if d.pos+n > 8*len(d.in) {
		panic(errEOF)
	}
	d.pos += n
}

// resolver of names for expressions over the current struct.
func (d *dm) res(name string) (MV, bool) {
	if name == "_eof" {
		d.usedEOF = true
		if d.c == nil {
			return mBool(d.pos == 8*len(d.in)), true
		}
		if d.sealed {
			return mBool(true), true
		}
		if d.w.n%8 != 0 {
			return mBool(false), true
		}
		if d.loops == 0 && !d.minimal && d.c.Chance(1, 250) {
			d.many = 1 + d.c.Int(bigLen(d.c))
			d.budget += 60000
		}
		d.loops++
		stop := d.loops > 12 || d.budget <= 0 || !d.c.Chance(3, 4)
		if d.many > 0 {
			stop = d.loops > d.many || d.budget <= 0
		}
		d.sealed = stop
		return mBool(stop), true
	}
	return resolveIn(d.stack, name)
}

func resolveIn(stack []reflect.Value, name string) (MV, bool) {
	if len(stack) == 0 {
		return MV{}, false
	}
	v, err := fieldOf(stack[len(stack)-1], name)
	if err != nil {
		if name == "bits" {
			return MV{K: MPkg, P: bitsPkg}, true
		}
		return MV{}, false
	}
	return mFromReflect(v), true
}

func evalOr(e *Ex, r mres) MV {
	atomic.AddInt64(&exprEvals, 1)
	v, err := evalM(e, r)
	if err != nil {
		merr("expression %s: %v", exprText(e), err)
	}
	return v
}

func evalBool(e *Ex, r mres) bool {
	b, ok := evalOr(e, r).boolean()
	if !ok {
		merr("not boolean: %s", exprText(e))
	}
	return b
}

func evalInt(e *Ex, r mres) int {
	v := evalOr(e, r)
	switch {
	case v.K.integer() || v.K == MUInt:
		return int(v.N)
	case v.K.float() || v.K == MUFloat:
		return int(v.F)
	}
	merr("not a number: %s", exprText(e))
	return 0
}

// Numbers of expressions that the model has evaluated, for C29: all of them, and
// (in the encoder) fields whose size depends on one.
var exprEvals, exprSizeEvals int64

// setAncestor sets a parent or root reference.
func setAncestor(f *Fd, fv reflect.Value, stack []reflect.Value) {
	if f.Root {
		p := stack[0].Addr()
		if p.Type().AssignableTo(fv.Type()) {
			fv.Set(p)
		}
		return
	}
	for i := len(stack) - 2; i >= 0; i-- {
		if p := stack[i].Addr(); p.Type().AssignableTo(fv.Type()) {
			fv.Set(p)
			return
		}
	}
}

func fieldIndex(st *St, name string) int {
	for i, f := range st.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// counterOf finds the field that counts f, or -1.
func counterOf(st *St, f *Fd) int {
	if f.SizeFrom != "" {
		return fieldIndex(st, f.SizeFrom)
	}
	for i, g := range st.Fields {
		if g.SizeOf != "" && g.SizeOf == f.Name && g.takesPart() && !f.Blank {
			return i
		}
	}
	return -1
}

// targetOf finds the field that f counts, or -1.
func targetOf(st *St, f *Fd) int {
	if f.Blank || !f.takesPart() {
		return -1
	}
	if f.SizeOf != "" {
		return fieldIndex(st, f.SizeOf)
	}
	for i, g := range st.Fields {
		if g.SizeFrom != "" && g.SizeFrom == f.Name && g.takesPart() {
			return i
		}
	}
	return -1
}

// trivialTy tells types whose values all have the same size; padding of another
// type occupies only its skip.
func trivialTy(t *Ty) bool {
	switch t.K {
	case KStr, KSlice, KPtr, KIface:
		return false
	case KArray:
		return trivialTy(t.Elem)
	case KStruct:
		for _, f := range t.St.Fields {
			if f.takesPart() && (f.Parent || f.Root || !trivialTy(f.bin())) {
				return false
			}
		}
	}
	return true
}

// padBits is the size of a padding field without its skip.
func padBits(f *Fd, stack []reflect.Value) int {
	if !trivialTy(f.T) {
		return 0
	}
	if f.Bits != 0 {
		return f.Bits
	}
	e := em{stack: stack}
	if f.BitsX != nil {
		n := evalInt(f.BitsX, e.res)
		if n < 0 || n > kWidth[f.T.K] {
			merr("width %d", n)
		}
		if n == 0 { // as for any other field
			n = kWidth[f.T.K]
		}
		return n
	}
	g := *f
	g.Blank, g.If, g.Skip, g.Name = false, nil, 0, "pad"
	if g.T.K == KStruct {
		for _, sf := range g.T.St.Fields {
			if sf.SizeOf != "" || sf.SizeFrom != "" {
				panic("harness: counter in padding")
			}
		}
	}
	e.field(&g, reflect.New(f.T.RT()).Elem(), nil, reflect.Value{}, binary.BigEndian)
	return e.w.n
}

func (d *dm) body(st *St, v reflect.Value, ord binary.ByteOrder) {
	d.stack = append(d.stack, v)
	for i, f := range st.Fields {
		if f.takesPart() {
			d.field(f, v.Field(i), st, v, ord)
		}
	}
	d.stack = d.stack[:len(d.stack)-1]
}

func (d *dm) field(f *Fd, fv reflect.Value, st *St, sv reflect.Value, ord binary.ByteOrder) {
	if d.c != nil {
		d.marks = append(d.marks, d.w.n)
	}
	if f.Parent || f.Root {
		setAncestor(f, fv, d.stack)
		return
	}
	if f.If != nil && !evalBool(f.If, d.res) {
		return
	}
	if f.Blank {
		d.junk(f.Skip * 8)
		d.junk(padBits(f, d.stack))
		return
	}
	if f.Order != nil {
		ord = f.Order
	}
	d.junk(f.Skip * 8)
	if f.Switch != nil {
		on := evalOr(f.Switch, d.res)
		for i := range f.T.St.Fields {
			if x := fv.Field(i); f.T.St.Fields[i].takesPart() && !f.T.St.Fields[i].Blank {
				x.Set(reflect.Zero(x.Type()))
			}
		}
		if i := selectCase(f.T.St, on, d.res); i >= 0 {
			d.field(f.T.St.Fields[i], fv.Field(i), f.T.St, fv, ord)
		}
		return
	}
	bits := 0
	if f.T.K != KCustom {
		bits = f.Bits
		if f.BitsX != nil {
			bits = evalInt(f.BitsX, d.res)
		}
	}
	count := 0
	if f.T.K != KCustom {
		if f.Size != nil {
			count = evalInt(f.Size, d.res)
		} else if st != nil {
			if ci := counterOf(st, f); ci >= 0 {
				cv := sv.Field(ci)
				if st.Fields[ci].bin().K.signed() {
					count = int(cv.Int())
				} else {
					count = int(cv.Uint())
				}
			}
		}
	}
	d.val(f, f.T, f.bin(), fv, ord, bits, count, st)
	if f.In != nil && f.T.K != KCustom {
		setMV(fv, evalOr(f.In, d.res))
	}
}

// setMV stores the result of an expression in a field.
func setMV(fv reflect.Value, v MV) {
	k := fv.Kind()
	switch {
	case v.K == MBool || v.K == MUBool:
		if k != reflect.Bool {
			merr("bool result for %s", fv.Type())
		}
		fv.SetBool(v.B)
	case v.K == MString:
		if k != reflect.String {
			merr("string result for %s", fv.Type())
		}
		fv.SetString(v.S)
	case v.K.integer() || v.K == MUInt || v.K.float() || v.K == MUFloat:
		if k < reflect.Int || k > reflect.Float64 {
			merr("numeric result for %s", fv.Type())
		}
		x := reflect.ValueOf(v.goValue())
		fv.Set(x.Convert(fv.Type()))
	case v.K == MComp && v.R.IsValid() && v.R.Type().AssignableTo(fv.Type()):
		fv.Set(v.R)
	default:
		merr("unsupported result")
	}
}

// selectCase finds the case of a switch that applies, or -1.
func selectCase(st *St, on MV, r mres) int {
	def := -1
	for i, f := range st.Fields {
		if !f.takesPart() {
			continue
		}
		if f.Default {
			def = i
			continue
		}
		cv := evalOr(f.Case, r)
		eq, err := compare("==", cv, on)
		if err != nil {
			merr("case: %v", err)
		}
		if eq.B {
			return i
		}
	}
	return def
}

func elemTy(t *Ty) *Ty {
	if t.K == KStr {
		return ty(KU8)
	}
	return t.Elem
}

func (d *dm) val(f *Fd, t, b *Ty, fv reflect.Value, ord binary.ByteOrder, bits, count int, st *St) {
	if t.K == KCustom {
		d.custom(t.Cu, fv, ord)
		return
	}
	switch b.K {
	case KPtr:
		fv.Set(reflect.New(fv.Type().Elem()))
		d.val(nil, t.Elem, b.Elem, fv.Elem(), ord, 0, 0, nil)
	case KStruct:
		d.body(b.St, fv, ord)
	case KArray:
		te, be := elemTy(t), elemTy(b)
		switch t.K {
		case KStr:
			buf := make([]byte, b.Len)
			d.strBytes(f, be, buf, true, ord)
			s := string(buf)
			if i := strings.IndexByte(s, 0); i >= 0 {
				s = s[:i]
			}
			fv.SetString(s)
			return
		case KSlice:
			fv.Set(reflect.MakeSlice(fv.Type(), b.Len, b.Len))
		}
		ef := f
		if f != nil && f.Max == 0 {
			ef = nil
		}
		for i := 0; i < b.Len; i++ {
			d.val(ef, te, be, fv.Index(i), ord, 0, 0, nil)
		}
	case KSlice, KStr:
		te, be := elemTy(t), elemTy(b)
		if f != nil && f.While != nil {
			s := reflect.MakeSlice(fv.Type(), 0, 0)
			fv.Set(s)
			for evalBool(f.While, d.res) {
				e := reflect.New(fv.Type().Elem()).Elem()
				d.val(nil, te, be, e, ord, 0, 0, nil)
				fv.Set(reflect.Append(fv, e))
				if fv.Len() > 1<<21 {
					panic(discard{"loop that the model cannot end"})
				}
			}
			return
		}
		if t.K == KArray {
			for i := 0; i < t.Len; i++ {
				d.val(nil, te, be, fv.Index(i), ord, 0, 0, nil)
			}
			return
		}
		if count < 0 {
			merr("negative length")
		}
		if d.c == nil && count > 8*len(d.in)+8 && !(t.K == KSlice && t.Elem.Void) {
			// More elements than bits: elements take at least one bit in the
			// domain of the properties.
			panic(errEOF)
		}
		if d.c != nil && count > 1<<18 {
			d.c.Discard("generated length is huge")
		}
		d.slices++
		if t.K == KStr {
			buf := make([]byte, count)
			d.strBytes(f, be, buf, false, ord)
			fv.SetString(string(buf))
			return
		}
		fv.Set(reflect.MakeSlice(fv.Type(), count, count))
		if te.K == KU8 && be.K == KU8 && d.c != nil {
			buf := make([]byte, count)
			d.strBytes(f, be, buf, false, ord)
			for i := range buf {
				fv.Index(i).SetUint(uint64(buf[i]))
			}
			return
		}
		for i := 0; i < count; i++ {
			d.val(nil, te, be, fv.Index(i), ord, 0, 0, nil)
		}
	case KIface:
	default:
		d.scalar(f, t, b, fv, ord, bits, st)
	}
}

// strBytes reads or chooses the bytes of a string.
func (d *dm) strBytes(f *Fd, be *Ty, buf []byte, fixed bool, ord binary.ByteOrder) {
	var gen []byte
	if d.c != nil {
		c := d.c
		if f != nil && len(f.SVals) > 0 {
			gen = make([]byte, len(buf))
			copy(gen, f.SVals[c.Int(len(f.SVals))])
		} else {
			gen = c.Bytes(len(buf))
			if fixed && len(buf) > 0 {
				switch c.Int(4) {
				case 0: // no terminator
					for i := range gen {
						if gen[i] == 0 {
							gen[i] = 0x41
						}
					}
				case 1: // canonical
					n := c.Int(len(buf) + 1)
					for i := range gen {
						if i >= n {
							gen[i] = 0
						} else if gen[i] == 0 {
							gen[i] = 0x42
						}
					}
				case 2: // first zero byte somewhere, garbage after
					gen[c.Int(len(buf))] = 0
				}
			}
		}
	}
	for i := range buf {
		buf[i] = byte(d.raw(kWidth[be.K], ord, func() uint64 { return uint64(gen[i]) }))
	}
}

func (d *dm) custom(cu *Cust, fv reflect.Value, ord binary.ByteOrder) {
	if d.at()%8 != 0 {
		if d.c != nil {
			d.c.Discard("custom codec off a byte boundary")
		}
		panic("harness: custom codec off a byte boundary")
	}
	if d.c != nil {
		if d.sealed {
			d.c.Discard("data after end of input")
		}
		x := cu.Gen(d.c)
		b, err := cu.Enc(x, ord)
		if err != nil {
			d.c.Discard("custom value does not encode")
		}
		for _, y := range b {
			d.w.put(uint64(y), 8)
		}
		d.budget -= len(b)
		// what decoding gives may differ from what was encoded
		y, _, err := cu.Dec(b, ord)
		if err != nil {
			d.c.Discard("custom value does not decode")
		}
		fv.Set(y)
		return
	}
	y, n, err := cu.Dec(d.in[d.pos/8:], ord)
	if err != nil {
		merr("custom codec: %v", err)
	}
	d.pos += 8 * n
	fv.Set(y)
}

func quiet32(x uint32) uint32 {
	if f := math.Float32frombits(x); f != f {
		x |= 1 << 22
	}
	return x
}

func (d *dm) genInt(f *Fd, t, b *Ty, width int, st *St) uint64 {
	c := d.c
	if f != nil {
		if st != nil {
			if ti := targetOf(st, f); ti >= 0 {
				if d.hostile != nil {
					if x, ok := d.hostile(f, width); ok {
						return x
					}
				}
				return d.inverse(f, uint64(d.genLen(f, st.Fields[ti], b, width)))
			}
		}
		if len(f.Vals) > 0 {
			return d.inverse(f, f.Vals[c.Int(len(f.Vals))])
		}
		if f.Max > 0 {
			return d.inverse(f, uint64(c.Int(f.Max+1)))
		}
	}
	nw := t.K.nativeWidth()
	if t.K == KBool || nw >= width {
		return c.U64(width)
	}
	x := c.U64(nw)
	if t.K.signed() {
		return uint64(sext(x, nw))
	}
	return x
}

// inverse is what to lay out so that the field's transform makes x of it.
func (d *dm) inverse(f *Fd, x uint64) uint64 {
	if f.In == nil || f.Out == nil {
		return x
	}
	fv := d.stack[len(d.stack)-1].FieldByName(f.Name)
	set := func(v reflect.Value, x uint64) {
		if v.Kind() >= reflect.Uint {
			v.SetUint(x)
		} else {
			v.SetInt(int64(x))
		}
	}
	set(fv, x)
	r := reflect.New(fv.Type()).Elem()
	setMV(r, evalOr(f.Out, d.res))
	set(fv, 0)
	if r.Kind() >= reflect.Uint {
		return r.Uint()
	}
	return uint64(r.Int())
}

// genLen chooses the length of a counted sequence.
func (d *dm) genLen(cf, tf *Fd, b *Ty, width int) int {
	max := 300
	if tf.LenMax > 0 {
		max = tf.LenMax
	}
	if n := cf.T.K.nativeWidth(); n < width {
		width = n
	}
	if b.K.signed() {
		width--
	}
	if width < 20 && max > 1<<uint(width)-1 {
		max = 1<<uint(width) - 1
	}
	if d.minimal || d.budget <= 0 {
		if max > 1 {
			max = 1
		}
	}
	if tf.Long {
		max = 70000
		if width < 20 {
			max = 1<<uint(width) - 1
		}
	}
	n := d.c.Len(max)
	if tf.Long && d.c.Chance(1, 2) {
		if n = bigLen(d.c); n > max {
			n = max
		}
		return n
	}
	if n > 8 && d.budget < n*4 {
		n %= 8
	}
	return n
}

func (d *dm) scalar(f *Fd, t, b *Ty, fv reflect.Value, ord binary.ByteOrder, bits int, st *St) {
	width := kWidth[b.K]
	if bits != 0 {
		width = bits
		if width < 0 || width > kWidth[b.K] {
			merr("width %d", bits)
		}
	}
	switch {
	case t.K == KBool:
		x := d.raw(width, ord, func() uint64 {
			switch d.c.Int(5) {
			case 0:
				return 0
			case 1:
				return 1
			case 2:
				return ^uint64(0)
			case 3:
				return 1 << uint(d.c.Int(width))
			}
			return d.c.U64(width)
		})
		r := x != 0
		if f != nil && f.Invert {
			r = !r
		}
		fv.SetBool(r)
	case b.K.intk():
		if d.c != nil && f != nil && st != nil && targetOf(st, f) >= 0 {
			d.counts = append(d.counts, cntMark{d.w.n, width, ord})
		}
		x := d.raw(width, ord, func() uint64 { return d.genInt(f, t, b, width, st) })
		if b.K.signed() {
			n := sext(x, width)
			if d.bug15 && b.K == KI8 && bits != 0 && bits < 8 {
				if want := bug15(x, bits); want != n {
					d.hit15 = true
					n = want
				}
			}
			fv.SetInt(n)
		} else {
			fv.SetUint(x)
		}
	case b.K == KF32:
		fv.SetFloat(float64(d.f32(ord)))
	case b.K == KF64:
		fv.SetFloat(d.f64(t.K == KF32, ord))
	case b.K == KC64:
		re := d.f32(ord)
		im := d.f32(ord)
		fv.SetComplex(complex(float64(re), float64(im)))
	case b.K == KC128:
		n := t.K == KC64
		re := d.f64(n, ord)
		im := d.f64(n, ord)
		fv.SetComplex(complex(re, im))
	default:
		panic(fmt.Sprintf("harness: scalar %d", b.K))
	}
}

// bug15 is what the code computes for signed bit-fields over int8 (known finding).
func bug15(x uint64, bits int) int64 {
	v := uint8(x)
	if v&1<<uint(bits-1) != 0 {
		v |= ^uint8(1<<uint(bits) - 1)
	}
	return int64(int8(v))
}

func (d *dm) f32(ord binary.ByteOrder) float32 {
	return math.Float32frombits(quiet32(uint32(d.raw(32, ord, func() uint64 { return uint64(quiet32(uint32(genF32(d.c)))) }))))
}

func (d *dm) f64(narrow bool, ord binary.ByteOrder) float64 {
	return math.Float64frombits(d.raw(64, ord, func() uint64 {
		if narrow {
			return math.Float64bits(float64(math.Float32frombits(quiet32(genF32(d.c)))))
		}
		return genF64(d.c)
	}))
}

var f32s = []float32{0, 1, -1, 0.5, 1.5, 2, 3.25, 100, 1e10, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}

func genF32(c *C) uint32 {
	switch c.Int(3) {
	case 0:
		return math.Float32bits(f32s[c.Int(len(f32s))])
	case 1:
		return math.Float32bits(float32(int64(c.Draw(1<<16)) - 1<<15))
	}
	return uint32(c.U64(32))
}

func genF64(c *C) uint64 {
	switch c.Int(3) {
	case 0:
		return math.Float64bits(float64(f32s[c.Int(len(f32s))]))
	case 1:
		return math.Float64bits(float64(int64(c.Draw(1<<16)) - 1<<15))
	}
	x := c.U64(64)
	if f := math.Float64frombits(x); f != f {
		x |= 1 << 51
	}
	return x
}

// em is the model encoder. It sets counters and references in the value it is given.
type em struct {
	w     bitbuf
	stack []reflect.Value
	log   []span // what each leaf field occupies
}

type span struct {
	name  string
	at, n int
}

func (e *em) res(name string) (MV, bool) { return resolveIn(e.stack, name) }

func (e *em) zeros(n int) {
	for n > 0 {
		w := n
		if w > 64 {
			w = 64
		}
		e.w.put(0, w)
		n -= w
	}
}

func (e *em) body(st *St, v reflect.Value, ord binary.ByteOrder) {
	e.stack = append(e.stack, v)
	for i, f := range st.Fields {
		if f.takesPart() {
			e.field(f, v.Field(i), st, v, ord)
		}
	}
	e.stack = e.stack[:len(e.stack)-1]
}

func (e *em) field(f *Fd, fv reflect.Value, st *St, sv reflect.Value, ord binary.ByteOrder) {
	if f.Parent || f.Root {
		setAncestor(f, fv, e.stack)
		return
	}
	if f.If != nil || f.Switch != nil || f.BitsX != nil && f.T.K != KCustom {
		atomic.AddInt64(&exprSizeEvals, 1)
	}
	if f.If != nil && !evalBool(f.If, e.res) {
		return
	}
	start := e.w.n
	if f.Blank {
		e.zeros(f.Skip * 8)
		e.zeros(padBits(f, e.stack))
		return
	}
	if f.Order != nil {
		ord = f.Order
	}
	e.zeros(f.Skip * 8)
	if f.Switch != nil {
		on := evalOr(f.Switch, e.res)
		if i := selectCase(f.T.St, on, e.res); i >= 0 {
			e.field(f.T.St.Fields[i], fv.Field(i), f.T.St, fv, ord)
		}
		return
	}
	bits := 0
	if f.T.K != KCustom {
		bits = f.Bits
		if f.BitsX != nil {
			bits = evalInt(f.BitsX, e.res)
		}
		if st != nil {
			if ti := targetOf(st, f); ti >= 0 {
				setCounter(f, fv, sv.Field(ti).Len(), bits)
			}
		}
	}
	src := fv
	if f.Out != nil && f.T.K != KCustom {
		r := evalOr(f.Out, e.res)
		src = reflect.New(f.T.RT()).Elem()
		setMV(src, r)
	}
	if f.Size != nil && f.T.K != KCustom {
		if n := evalInt(f.Size, e.res); n != src.Len() {
			merr("%s: length %d, size expression %d", f.Name, src.Len(), n)
		}
	}
	e.val(f, f.T, f.bin(), src, ord, bits)
	e.log = append(e.log, span{name: f.Name, at: start, n: e.w.n - start})
}

func setCounter(f *Fd, fv reflect.Value, n, bits int) {
	width := kWidth[f.bin().K]
	if bits != 0 {
		width = bits
	}
	if nw := f.T.K.nativeWidth(); nw < width {
		width = nw
	}
	if f.bin().K.signed() {
		if width < 64 && int64(n) > int64(1)<<uint(width-1)-1 {
			merr("%s: count %d does not fit", f.Name, n)
		}
		fv.SetInt(int64(n))
	} else {
		if width < 64 && uint64(n) > uint64(1)<<uint(width)-1 {
			merr("%s: count %d does not fit", f.Name, n)
		}
		fv.SetUint(uint64(n))
	}
}

func (e *em) val(f *Fd, t, b *Ty, v reflect.Value, ord binary.ByteOrder, bits int) {
	if t.K == KCustom {
		if e.w.n%8 != 0 {
			panic(discard{"custom codec off a byte boundary"})
		}
		out, err := t.Cu.Enc(v, ord)
		if err != nil {
			merr("custom codec: %v", err)
		}
		for _, x := range out {
			e.w.put(uint64(x), 8)
		}
		return
	}
	switch b.K {
	case KPtr:
		if !v.IsNil() {
			e.val(nil, t.Elem, b.Elem, v.Elem(), ord, 0)
		}
	case KStruct:
		e.body(b.St, v, ord)
	case KArray, KSlice, KStr:
		te, be := elemTy(t), elemTy(b)
		n := v.Len()
		if b.K == KArray && n > b.Len {
			name := "element"
			if f != nil {
				name = f.Name
			}
			merr("%s: %d elements for %d", name, n, b.Len)
		}
		if t.K == KStr {
			for i, s := 0, v.String(); i < n; i++ {
				e.w.putOrd(uint64(s[i]), kWidth[be.K], ord)
			}
		} else {
			for i := 0; i < n; i++ {
				e.val(nil, te, be, v.Index(i), ord, 0)
			}
		}
		if b.K == KArray {
			for i := n; i < b.Len; i++ {
				e.val(nil, te, be, reflect.New(te.RT()).Elem(), ord, 0)
			}
		}
	case KIface:
	default:
		e.scalar(f, t, b, v, ord, bits)
	}
}

func (e *em) scalar(f *Fd, t, b *Ty, v reflect.Value, ord binary.ByteOrder, bits int) {
	width := kWidth[b.K]
	if bits != 0 {
		width = bits
		if width < 0 || width > kWidth[b.K] {
			merr("width %d", bits)
		}
	}
	switch {
	case t.K == KBool:
		r := v.Bool()
		if f != nil && f.Invert {
			r = !r
		}
		x := uint64(0)
		if r {
			x = 1
			if f != nil && f.Variant {
				x = ^uint64(0)
			}
		}
		e.w.putOrd(mask(x, width), width, ord)
	case b.K.signed():
		e.w.putOrd(mask(uint64(v.Int()), width), width, ord)
	case b.K.uns():
		e.w.putOrd(mask(v.Uint(), width), width, ord)
	case b.K == KF32:
		e.w.putOrd(uint64(math.Float32bits(float32(v.Float()))), 32, ord)
	case b.K == KF64:
		e.w.putOrd(math.Float64bits(v.Float()), 64, ord)
	case b.K == KC64:
		x := v.Complex()
		e.w.putOrd(uint64(math.Float32bits(float32(real(x)))), 32, ord)
		e.w.putOrd(uint64(math.Float32bits(float32(imag(x)))), 32, ord)
	case b.K == KC128:
		x := v.Complex()
		e.w.putOrd(math.Float64bits(real(x)), 64, ord)
		e.w.putOrd(math.Float64bits(imag(x)), 64, ord)
	default:
		panic(fmt.Sprintf("harness: scalar %d", b.K))
	}
}

// catch runs f and returns the model error it ended with.
func catch(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(modelErr); ok {
				err = m
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func topFd(t *Ty) *Fd { return &Fd{Name: "top", T: t} }

// kindOf is an error without the names and numbers of the case.
func kindOf(err error) string {
	s := err.Error()
	if i := strings.LastIndex(s, "model: "); i >= 0 {
		s = s[i+len("model: "):]
	}
	for _, p := range []string{"no member", "unknown name", "out of range"} {
		if strings.Contains(s, p) {
			return p
		}
	}
	return s
}

// genInput chooses an input for the layout and the value it stands for.
func (l *Layout) genInput(c *C, opt ...func(*dm)) (data []byte, v reflect.Value, d *dm) {
	d = &dm{c: c, budget: 6000}
	for _, o := range opt {
		o(d)
	}
	v = reflect.New(l.Top.RT())
	err := catch(func() { d.field(topFd(l.Top), v.Elem(), nil, reflect.Value{}, l.Order) })
	if err != nil {
		c.Discard("generated input has no meaning: " + kindOf(err))
	}
	// bits that complete the last byte are not part of the layout
	if n := d.w.n % 8; n != 0 && c.Chance(1, 2) {
		d.w.put(c.Draw(256), 8-n)
		d.w.n -= 8 - n
	}
	return d.w.b, v, d
}

// decode is the reference meaning of data.
func (l *Layout) decode(data []byte, into reflect.Value, opt ...func(*dm)) (bits int, d *dm, err error) {
	d = &dm{in: data}
	for _, o := range opt {
		o(d)
	}
	err = catch(func() { d.field(topFd(l.Top), into.Elem(), nil, reflect.Value{}, l.Order) })
	return d.pos, d, err
}

// encode is the reference encoding; it sets counters and references in v (a pointer).
func (l *Layout) encode(v reflect.Value) (data []byte, bits int, err error) {
	e := em{}
	err = catch(func() { e.field(topFd(l.Top), v.Elem(), nil, reflect.Value{}, l.Order) })
	return e.w.b, e.w.n, err
}

func (l *Layout) encodeLog(v reflect.Value) (data []byte, bits int, log []span, err error) {
	e := em{}
	err = catch(func() { e.field(topFd(l.Top), v.Elem(), nil, reflect.Value{}, l.Order) })
	return e.w.b, e.w.n, e.log, err
}
