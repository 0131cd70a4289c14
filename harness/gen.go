package main

// Generator of layouts.

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
)

// Features a layout may use.
type Feat uint64

const (
	FCast Feat = 1 << iota
	FNarrow
	FNamed
	FBits
	FBitsX
	FSkip
	FOrder
	FPad
	FIgnored
	FStr
	FSlice
	FArr
	FPtr
	FStruct
	FCustom
	FIface
	FCount
	FSizeX
	FIf
	FSwitch
	FWhile
	FInOut
	FParent
	FBool
	FFloat
	FIntKind
	FEmbed
	FFlags // boolean flags
	FStatic
	FBig    // more fields, deeper
	FUnitEl // elements occupy whole bytes everywhere, at least one
	FEof    // while loops over the end of input
	FLeafTop
	FRndTag
	FZeroEl // sequences of elements that may occupy nothing

	FAll = FCast | FNamed | FBits | FBitsX | FSkip | FOrder | FPad | FIgnored | FStr | FSlice | FArr | FPtr | FStruct | FCustom | FIface |
		FCount | FSizeX | FIf | FSwitch | FWhile | FInOut | FParent | FBool | FFloat | FIntKind | FEmbed | FFlags | FStatic | FEof | FRndTag
	FExpr = FBitsX | FSizeX | FIf | FSwitch | FWhile | FInOut | FEof
)

// ctl is a field that expressions may use.
type ctl struct {
	path string // name, or Parent.name
	k    K
	f    *Fd
	max  int
	vals []string
	ptr  bool
	via  []*Fd // pointers on the way
}

type gen struct {
	c      *C
	ft     Feat
	must   Feat // features to favour
	left   int  // field budget
	depthM int
	used   Feat
	mul    int // how often the current place repeats
	roots  *[]ctl
	inner  map[*St][]ctl // what expressions may use inside struct types
	prefix string        // of the names of fields of embedded structs
	embeds int
	scale  int
	style  int // of field names
}

// Layouts that are large in one way.
const (
	scaleWide  = 1 + iota // many fields
	scaleLong             // long sequences and skips
	scaleDeep             // many levels
	scaleCases            // many cases
	scaleWrap             // everything many levels down
	nScales    = iota
)

// bigLen is a length around powers of two.
func bigLen(c *C) int {
	switch c.Pick(200, 20, 1) {
	case 1:
		return 1<<uint(c.Range(14, 17)) + c.Int(40) - 20
	case 2:
		return 1<<20 + c.Int(40) - 20
	}
	return 1<<uint(c.Range(9, 13)) + c.Int(40) - 20
}

func (g *gen) has(f Feat) bool { return g.ft&f != 0 }

// want decides about an optional feature; favoured ones are more likely.
func (g *gen) want(f Feat, num, den int) bool {
	if g.ft&f == 0 {
		return false
	}
	if g.must&f != 0 {
		num *= 3
	}
	if g.c.Chance(num, den) {
		g.used |= f
		return true
	}
	return false
}

// off is a bit offset: base is known modulo 8 or -1, delta likewise.
type off struct{ base, delta int }

func (o off) mod() int {
	if o.base < 0 || o.delta < 0 {
		return -1
	}
	return (o.base + o.delta) % 8
}

func (o *off) add(bits int) {
	if bits < 0 {
		o.delta = -1
	} else if o.delta >= 0 {
		o.delta = (o.delta + bits) % 8
	}
}

// swarm chooses a subset of features; must is always kept.
func swarm(c *C, all, must Feat) Feat {
	if c.Chance(1, 4) {
		return all | must
	}
	ft := must
	den := c.Range(2, 4)
	for b := Feat(1); b != 0 && b <= all; b <<= 1 {
		if all&b != 0 && !c.Chance(1, den) {
			ft |= b
		}
	}
	return ft
}

// newLayout generates a layout with the given features.
func newLayout(c *C, may, must Feat) (*Layout, *gen) {
	ft := swarm(c, may, must)
	g := &gen{c: c, ft: ft, must: must, mul: 1}
	switch c.Pick(6, 6, 3, 1) {
	case 0:
		g.left = 4
	case 1:
		g.left = 10
	case 2:
		g.left = 24
	default:
		g.left = 70
	}
	g.depthM = c.Range(1, 4)
	if c.Chance(1, 20) {
		g.depthM = 7
	}
	if c.Chance(1, 60) {
		g.scale = 1 + c.Int(nScales)
		switch g.scale {
		case scaleWide:
			g.left = c.Range(60, 300)
		case scaleDeep:
			g.left, g.depthM = 120, c.Range(8, 40)
			g.ft |= FStruct
		case scaleLong:
			g.ft |= FStr | FSlice | FArr | FSkip
		}
	}
	if c.Chance(1, 12) {
		g.style = 1 + c.Int(nStyles)
	}
	l := &Layout{Order: binary.LittleEndian}
	if c.Chance(1, 2) {
		l.Order = binary.BigEndian
	}
	if c.Chance(1, 6) {
		l.Pass = passOrder(c, l.Order)
	}
	if ft&FLeafTop != 0 && c.Chance(1, 5) {
		o := off{}
		l.Top = g.elem(0, &o, nil)
		return l, g
	}
	if ft&FStatic != 0 && c.Chance(1, 12) {
		l.Top = tySt(staticTops[c.Int(len(staticTops))])
		return l, g
	}
	o := off{}
	l.Top = tySt(g.st(0, &o, nil, true, false))
	if g.scale == scaleWrap && g.used&FParent == 0 {
		for n := c.Range(1, 24); n > 0; n-- {
			s := mkSt(fd("A", l.Top))
			switch {
			case c.Chance(1, 3):
				s.Fields = append([]*Fd{fd("H", ty(g.intKind()))}, s.Fields...)
			case g.has(FPtr) && c.Chance(1, 4):
				s.Fields[0].T = tyPtr(l.Top)
			case g.has(FSkip) && c.Chance(1, 4):
				s.Fields[0].Skip = c.Range(1, 3)
			}
			l.Top = tySt(g.finish(s))
		}
	}
	return l, g
}

var fieldNames = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}

func fname(i int) string {
	if i < len(fieldNames) {
		return fieldNames[i]
	}
	return fmt.Sprintf("%s%d", fieldNames[i%26], i/26)
}

const nStyles = 10

// styled writes a field name with the letters and digits that Go allows in names.
func (g *gen) styled(name string) string {
	switch g.style {
	case 1:
		return "Ω" + name
	case 2:
		return name + "_世界"
	case 3:
		return "Д" + name + "Ж"
	case 4:
		return name + "٣" // an Arabic digit
	case 5:
		return name + "_1x_"
	case 6:
		return name + strings.Repeat("_LongName", 12)
	case 7:
		return "If" + name + "Nil" // near the keywords of other notations
	case 8:
		return name + "𝒳é"
	case 9:
		return name + "_0123456789"
	case 10:
		return "Az" + name + "aZ_"
	}
	return name
}

type pending struct {
	name string
	kind int // 0 sizeof, 1 sizefrom
	from string
	ref  bool // expressions may use the count, so the sequence is always there
	when *Ex  // condition of the count, and of the sequence
}

// st generates a struct type. outer are fields of the enclosing struct.
func (g *gen) st(depth int, o *off, outer []ctl, tail, noRefs bool) *St {
	c := g.c
	s := &St{}
	var ctls []ctl
	n := 0
	prefix := g.prefix
	g.prefix = ""
	name := func() string { n++; return g.styled(prefix + fname(n-1)) }
	var pend []pending
	max := 1 + c.Int(6)
	if depth == 0 && c.Chance(1, 3) {
		max += c.Int(12)
	}
	if g.left > 40 && depth == 0 {
		max = c.Range(10, 60)
	}
	switch {
	case g.scale == scaleWide && depth == 0:
		max = c.Range(60, 300)
	case g.scale == scaleDeep:
		max = 1 + c.Int(3)
	}
	add := func(f *Fd) { s.Fields = append(s.Fields, f); g.left-- }
	start := *o
	if depth == 0 {
		g.roots = &ctls
	}
	refAt := -1
	if depth > 0 && !noRefs && g.want(FParent, 1, 3) {
		refAt = 0
		if c.Chance(1, 3) {
			refAt = c.Int(max)
		}
	}
	addRef := func() {
		refAt = -1
		if g.has(FIgnored) && c.Chance(1, 4) {
			add(g.ignored(name(), n))
		}
		f := &Fd{Name: "Parent", T: ty(KIface), Parent: true}
		if c.Chance(1, 4) {
			f.Parent, f.Root, f.Name = false, true, "Root"
			outer = nil
			if g.roots != nil {
				outer = *g.roots
			}
		}
		add(f)
		for _, x := range outer {
			x.path = f.Name + "." + x.path
			ctls = append(ctls, x)
		}
	}
	for i := 0; i < max || len(pend) > 0; i++ {
		if refAt >= 0 && i >= refAt {
			addRef()
		}
		if i >= max || len(pend) > 0 && (g.left <= 0 || c.Chance(1, 2)) {
			j := c.Int(len(pend))
			p := pend[j]
			pend = append(pend[:j:j], pend[j+1:]...)
			f := g.seq(p.name, depth, o, ctls)
			if p.kind == 1 {
				f.SizeFrom = p.from
			}
			keep := g.ft
			if p.ref || p.when != nil {
				// a count is rewritten to 0 when its sequence is not there
				g.ft &^= FIf
			}
			if p.when != nil {
				f.If = p.when
				o.add(-1)
			}
			g.decorate(f, o, ctls, depth, false)
			g.ft = keep
			if f.T.K == KStr && g.want(FInOut, 1, 5) {
				g.inout(f, ctls)
			}
			add(f)
			g.used |= FCount
			continue
		}
		if g.left <= 0 && i > 0 {
			break
		}
		// padding, ignored and unexported fields anywhere
		if g.want(FPad, 1, 8) {
			add(g.pad(o, ctls))
			continue
		}
		if g.want(FIgnored, 1, 8) {
			add(g.ignored(name(), n))
			continue
		}
		if len(pend) < 3 && (g.has(FSlice) || g.has(FStr)) && g.want(FCount, 1, 5) {
			cf := g.counter(name(), o, ctls)
			p := pending{name: name()}
			if c.Chance(1, 3) {
				p.kind, p.from = 1, cf.Name
			} else {
				cf.SizeOf = p.name
			}
			p.ref = c.Chance(1, 2)
			if len(ctls) > 0 && !g.has(FUnitEl) && g.want(FIf, 1, 6) {
				p.ref = false
				p.when = g.boolExpr(ctls, 0)
				cf.If = p.when
				o.add(-1)
			}
			pend = append(pend, p)
			add(cf)
			if p.ref {
				ctls = append(ctls, ctl{path: cf.Name, k: cf.T.K, f: cf, max: -1})
			}
			continue
		}
		if g.has(FExpr) && (len(ctls) == 0 && c.Chance(1, 2) || c.Chance(1, 10)) {
			f := g.control(name(), o)
			add(f)
			x := ctl{path: f.Name, k: f.T.K, f: f, max: f.Max, vals: f.SVals}
			switch x.k {
			case KPtr:
				x.k, x.ptr = f.T.Elem.K, true
			case KArray:
				x.k = f.T.Elem.K
				i := c.Int(f.T.Len)
				x.path = fmt.Sprintf("%s[%d]", f.Name, i)
				if i > 0 {
					y := x
					y.path = f.Name + "[0]"
					ctls = append(ctls, y)
				}
			}
			ctls = append(ctls, x)
			continue
		}
		f := g.field(name(), depth, o, ctls)
		add(f)
		if g.has(FExpr) {
			ctls = append(ctls, g.export(f)...)
		}
	}
	if g.inner == nil {
		g.inner = map[*St][]ctl{}
	}
	for _, x := range ctls {
		if !strings.HasPrefix(x.path, "Parent.") && !strings.HasPrefix(x.path, "Root.") {
			g.inner[s] = append(g.inner[s], x)
		}
	}
	if tail && o.mod() == 0 && g.has(FSlice) && g.want(FWhile, 1, 3) {
		add(g.while(name(), depth, o, ctls, g.has(FEof)))
		return g.finish(s)
	} else if g.must&FWhile != 0 && g.want(FWhile, 1, 6) {
		add(g.while(name(), depth, o, ctls, false))
	}
	if len(s.Fields) == 0 {
		add(&Fd{Name: name(), T: ty(KU8)})
	}
	// bring bit-fields back to a byte boundary most of the time
	if (o.delta != start.delta || o.delta < 0) && g.has(FBits) && o.delta >= 0 && (g.has(FUnitEl) || c.Chance(2, 3)) {
		d := (o.delta - start.delta + 8) % 8
		if start.delta >= 0 && d != 0 {
			f := &Fd{Name: name(), T: ty(KU8), Bits: 8 - d}
			add(f)
			o.add(8 - d)
		}
	}
	return g.finish(s)
}

// prefixed tells if a name has the prefix that makes it unique.
func prefixed(name string) bool {
	s := strings.TrimLeft(strings.TrimPrefix(name, "Q"), "0123456789")
	return strings.HasPrefix(name, "Q") && len(s) < len(name)-1 && s != "" && s[0] >= 'A' && s[0] <= 'Z'
}

// export finds what expressions may use inside a field.
func (g *gen) export(f *Fd) []ctl {
	if f.If != nil || f.Switch != nil || f.Size != nil || f.In != nil {
		return nil
	}
	path := f.Name
	t := f.T
	var via []*Fd
	ptrs := 0
	for t.K == KPtr || t.K == KArray {
		if t.K == KPtr {
			via = []*Fd{f}
			ptrs++
		} else {
			if t.Len == 0 {
				return nil
			}
			if ptrs > 0 { // pointers are not indexed
				return nil
			}
			path += fmt.Sprintf("[%d]", g.c.Int(t.Len))
		}
		t = t.Elem
	}
	if t.K != KStruct {
		return nil
	}
	xs := g.inner[t.St]
	var r []ctl
	for i := 0; i < 2 && len(xs) > 0; i++ {
		x := xs[g.c.Int(len(xs))]
		x.via = append(append([]*Fd{}, via...), x.via...)
		if f.Embed && prefixed(x.path) && g.c.Chance(2, 3) {
			// promoted; the name is not used anywhere else
		} else {
			x.path = path + "." + x.path
		}
		r = append(r, x)
	}
	return r
}

func (g *gen) finish(s *St) *St {
	if g.has(FRndTag) {
		for _, f := range s.Fields {
			if f.takesPart() {
				f.renderTag(g.c)
			}
		}
	}
	return s
}

var intKinds = []K{KU8, KI8, KU16, KI16, KU32, KI32, KU64, KI64, KUint, KInt}
var unsKinds = []K{KU8, KU16, KU32, KU64, KUint}
var sgnKinds = []K{KI8, KI16, KI32, KI64, KInt}

func (g *gen) intKind() K {
	n := 10
	if !g.has(FIntKind) {
		n = 8
	}
	return intKinds[g.c.Int(n)]
}

// castInt chooses a native kind for a binary integer kind: same signedness, at least
// as wide (or narrower if allowed).
func (g *gen) castInt(b K) K {
	ks := unsKinds
	if b.signed() {
		ks = sgnKinds
	}
	var ok []K
	for _, k := range ks {
		if k.nativeWidth() >= kWidth[b] || g.has(FNarrow) {
			if (k == KInt || k == KUint) && !g.has(FIntKind) {
				continue
			}
			ok = append(ok, k)
		}
	}
	return ok[g.c.Int(len(ok))]
}

func (g *gen) named(t *Ty) *Ty {
	if g.want(FNamed, 1, 6) {
		t.Named = true
	}
	return t
}

// scalarPair chooses Go type and binary type (nil if the same) of a scalar.
func (g *gen) scalarPair() (t, b *Ty) {
	c := g.c
	w := []int{8, 0, 0, 0}
	if g.has(FBool) {
		w[1] = 2
	}
	if g.has(FFloat) {
		w[2], w[3] = 2, 1
	}
	cast := g.want(FCast, 1, 3)
	switch c.Pick(w...) {
	case 1:
		t = ty(KBool)
		g.used |= FBool
		if cast {
			b = ty(g.intKind())
		}
	case 2:
		t = ty(KF32)
		if c.Chance(1, 2) {
			t = ty(KF64)
		}
		if cast {
			if t.K == KF64 {
				b = ty(KF32)
			} else if g.has(FNarrow) {
				b = ty(KF64)
			}
		}
	case 3:
		t = ty(KC64)
		if c.Chance(1, 2) {
			t = ty(KC128)
		}
		if cast {
			if t.K == KC128 {
				b = ty(KC64)
			} else if g.has(FNarrow) {
				b = ty(KC128)
			}
		}
	default:
		t = ty(g.intKind())
		if cast {
			b = ty(t.K)
			t = ty(g.castInt(b.K))
		}
	}
	return g.named(t), b
}

func bitsOf(t *Ty) int { return kWidth[t.K] }

// bitField chooses an integer or bool with a bit width.
func (g *gen) bitField(f *Fd, o *off) {
	c := g.c
	b := g.intKind()
	if b == KI8 {
		b = KU8
	}
	w := c.Range(1, kWidth[b]-1)
	if c.Chance(1, 3) {
		w = 1 + c.Int(7)
	}
	if c.Chance(1, 4) { // end on a byte boundary
		if m := o.mod(); m > 0 && 8-m < kWidth[b] {
			w = 8 - m
		}
	}
	f.Bits = w
	f.T, f.B = ty(b), nil
	if g.has(FBool) && c.Chance(1, 5) {
		f.B = ty(b)
		f.T = ty(KBool)
		g.used |= FBool
	} else if g.want(FCast, 1, 4) {
		f.B = ty(b)
		f.T = ty(g.castInt(b))
	}
	g.named(f.T)
	o.add(w)
	g.used |= FBits
}

// control makes a field that expressions can use.
func (g *gen) control(name string, o *off) *Fd {
	c := g.c
	f := &Fd{Name: name}
	switch c.Pick(12, 4, 2, 2, 2, 1, 2) {
	case 5:
		if g.has(FFloat) {
			f.T = g.named(ty([]K{KF32, KF64}[c.Int(2)]))
			break
		}
		f.T, f.Max = ty(g.intKind()), 2
	case 6:
		f.T, f.Max = ty(g.intKind()), 1+c.Int(8)
		if g.has(FArr) {
			f.T = tyArr(1+c.Int(3), g.named(f.T))
		}
	case 1:
		f.T = ty(KBool)
		f.Max = 1
	case 2:
		f.T, f.B = ty(KStr), tyArr(4, ty(KU8))
		f.SVals = []string{"abcd", "x", "it's", "\"q,)"}
		return f
	case 3:
		if g.has(FPtr) {
			f.T = tyPtr(ty(KU16))
			f.T.Elem.Named = false
			f.Max = 0
			f.LenMax = 0
			f.Vals = nil
			o.add(0)
			return f
		}
		fallthrough
	case 4:
		if g.has(FBits) {
			b := []K{KU8, KU16, KU32, KU64}[c.Int(4)]
			f.T = ty(b)
			f.Bits = c.Range(2, 7)
			f.Max = 1 + c.Int(1<<uint(f.Bits)-1)
			if f.Max > 12 {
				f.Max = 12
			}
			o.add(f.Bits)
			g.used |= FBits
			return f
		}
		fallthrough
	default:
		f.T = ty(g.intKind())
		f.Max = 1 + c.Int(8)
		if g.want(FCast, 1, 5) {
			f.B = ty(f.T.K)
			f.T = ty(g.castInt(f.B.K))
			if g.has(FNarrow) && f.T.K.nativeWidth() < 8 {
				f.T = f.B
			}
		}
		g.named(f.T)
		if g.exact(f) && g.want(FInOut, 1, 8) {
			g.inout(f, nil)
		}
	}
	if g.has(FOrder) && g.want(FOrder, 1, 8) {
		f.Order = g.order()
	}
	return f
}

func (g *gen) order() binary.ByteOrder {
	if g.c.Chance(1, 2) {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// counter makes the count of a sequence.
func (g *gen) counter(name string, o *off, ctls []ctl) *Fd {
	c := g.c
	f := &Fd{Name: name}
	f.T = ty(g.intKind())
	if g.want(FCast, 1, 4) {
		f.B = ty(f.T.K)
		f.T = ty(g.castInt(f.B.K))
	}
	if g.want(FBits, 1, 5) && f.B == nil && f.T.K != KInt && f.T.K != KUint && f.T.K != KI8 {
		f.Bits = c.Range(2, kWidth[f.T.K]-1)
		if c.Chance(1, 2) && f.Bits > 5 {
			f.Bits = c.Range(2, 5)
		}
		o.add(f.Bits)
	}
	g.named(f.T)
	if g.want(FOrder, 1, 6) {
		f.Order = g.order()
	}
	if g.want(FSkip, 1, 10) {
		f.Skip = 1 + c.Int(4)
	}
	switch {
	case f.B != nil || f.Bits != 0:
	case g.exact(f) && g.want(FInOut, 1, 6):
		g.inout(f, ctls)
	case f.T.K != KI8 && f.T.K != KU8 && g.exact(f) && usableWidth(ctls) >= 0 && !g.has(FUnitEl) && g.want(FBitsX, 1, 8):
		g.used |= FBitsX
		x := ctls[usableWidth(ctls)]
		f.BitsX = bin("+", x.ref(), ilit(2+c.Int(3)))
		o.add(-1)
	}
	return f
}

// exact tells integer fields that lose nothing between memory and layout, so that
// transforms that are inverse to each other stay so when they wrap around.
func (g *gen) exact(f *Fd) bool {
	return f.T.K.intk() && f.B == nil && f.Bits == 0 && f.T.K.nativeWidth() == kWidth[f.T.K]
}

// seq makes a slice or string without fixed length.
func (g *gen) seq(name string, depth int, o *off, ctls []ctl) *Fd {
	c := g.c
	f := &Fd{Name: name}
	f.Long = g.scale == scaleLong && g.mul == 1
	if !g.has(FSlice) || g.has(FStr) && c.Chance(1, 3) {
		f.T = g.named(ty(KStr))
		if g.want(FCast, 1, 4) {
			f.B = tySlice(g.strElem())
			if c.Chance(1, 3) {
				f.B = ty(KStr)
			}
		}
		g.used |= FStr
		return f
	}
	g.used |= FSlice
	if f.Long && c.Chance(2, 3) || g.want(FCast, 1, 6) {
		// element-wise cast
		t, b := g.scalarPair()
		f.T = tySlice(t)
		if b != nil {
			f.B = tySlice(b)
		} else if t.K == KU8 && !t.Named && c.Chance(1, 2) {
			f.B = ty(KStr)
		}
		return f
	}
	f.Long = false
	eo := off{-1, 0}
	if g.unit(o, depth) {
		eo.base = o.mod()
	}
	keep := g.ft
	if eo.base >= 0 {
		g.ft |= FUnitEl
	}
	mul := g.mul
	g.mul *= 4
	e := g.elem(depth+1, &eo, ctls)
	if !g.has(FZeroEl) {
		e = nonEmpty(e)
	}
	f.T = tySlice(e)
	g.mul = mul
	g.ft = keep
	if eo.delta != 0 {
		o.add(-1)
	}
	return f
}

// strElem chooses the binary type of the bytes of a string.
func (g *gen) strElem() *Ty {
	if g.has(FNarrow) && g.c.Chance(1, 6) {
		return ty([]K{KU16, KU32, KU64}[g.c.Int(3)])
	}
	return ty(KU8)
}

// bound keeps the number of repetitions of a place small.
func (g *gen) bound(n int) int {
	if g.mul*n > 1500 {
		return n % 3
	}
	return n
}

// mayBeEmpty tells types whose values may occupy nothing.
func mayBeEmpty(t *Ty) bool {
	switch t.K {
	case KIface, KStr, KSlice:
		return true
	case KArray:
		return t.Len == 0 || mayBeEmpty(t.Elem)
	case KPtr:
		return mayBeEmpty(t.Elem)
	case KCustom:
		return t.Cu == cuEmpty
	case KStruct:
		for _, f := range t.St.Fields {
			if !f.takesPart() || f.Parent || f.Root || f.If != nil || f.Switch != nil {
				continue
			}
			if f.Blank && f.Skip == 0 {
				switch f.T.K {
				case KSlice, KStr, KPtr, KIface: // padding of no constant size
					continue
				}
			}
			if f.Skip > 0 || f.Bits != 0 || f.BitsX != nil || !mayBeEmpty(f.bin()) && !(f.Blank && !trivialTy(f.T)) {
				return false
			}
		}
		return true
	}
	return false
}

// nonEmpty is t or a struct around it that occupies something.
func nonEmpty(t *Ty) *Ty {
	if mayBeEmpty(t) {
		if t.K == KStruct && t.rt == nil && !(len(t.St.Fields) > 0 && t.St.Fields[0].Embed) {
			// in place, so that references to parents keep their distance
			t.St.Fields = append([]*Fd{{Name: "Zz", T: ty(KU8)}}, t.St.Fields...)
			return t
		}
		return tySt(mkSt(&Fd{Name: "Zz", T: ty(KU8)}, &Fd{Name: "Zv", T: t}))
	}
	return t
}

// unit decides whether the elements of a sequence at o should take whole bytes.
func (g *gen) unit(o *off, depth int) bool {
	return g.has(FUnitEl) || o.mod() >= 0 && g.c.Chance(2, 3)
}

// elem is the type of an element: no tags apply to it.
func (g *gen) elem(depth int, o *off, outer []ctl) *Ty {
	c := g.c
	w := []int{10, 0, 0, 0, 0, 0}
	deep := depth >= g.depthM || g.left <= 0
	if g.has(FArr) && depth < g.depthM+2 {
		w[1] = 2
	}
	if g.has(FPtr) && depth < g.depthM+2 {
		w[2] = 2
	}
	if g.has(FStruct) && !deep {
		w[3] = 6
	}
	if g.has(FCustom) && o.mod() == 0 {
		w[4] = 3
	}
	switch c.Pick(w...) {
	case 1:
		n := c.Int(5)
		if c.Chance(1, 8) {
			n = c.Len(70)
		}
		n = g.bound(n)
		mul := g.mul
		g.mul *= n + 1
		defer func() { g.mul = mul }()
		if g.has(FUnitEl) && n == 0 {
			n = 1
		}
		eo := off{-1, 0}
		keep := g.ft
		if n < 2 {
			eo = *o
		} else if g.unit(o, depth) {
			eo.base = o.mod()
			g.ft |= FUnitEl
		}
		d0 := eo.delta
		e := g.elem(depth+1, &eo, nil)
		g.ft = keep
		switch {
		case n == 0:
		case eo.delta < 0:
			o.add(-1)
		default:
			d := (eo.delta - d0 + 8) % 8
			o.add(d * n)
		}
		g.used |= FArr
		return tyArr(n, e)
	case 2:
		g.used |= FPtr
		return tyPtr(g.elem(depth+1, o, outer))
	case 3:
		g.used |= FStruct
		so := *o
		s := g.st(depth, &so, outer, false, false)
		*o = so
		return tySt(s)
	case 4:
		g.used |= FCustom
		return tyCu(g.custom())
	}
	if g.want(FIface, 1, 40) && !g.has(FUnitEl) {
		return ty(KIface)
	}
	t, _ := g.scalarPairNoCast()
	return t
}

func (g *gen) custom() *Cust {
	if g.has(FUnitEl) {
		return customs[g.c.Int(len(customs)-1)]
	}
	return customs[g.c.Int(len(customs))]
}

func (g *gen) scalarPairNoCast() (*Ty, *Ty) {
	keep := g.ft
	g.ft &^= FCast
	t, b := g.scalarPair()
	g.ft = keep
	return t, b
}

// field makes an ordinary field.
func (g *gen) field(name string, depth int, o *off, ctls []ctl) *Fd {
	c := g.c
	f := &Fd{Name: name}
	w := make([]int, 11)
	w[0] = 8
	deep := depth >= g.depthM || g.left <= 0
	set := func(i int, ok bool, ft Feat, n int) {
		if ok && g.has(ft) {
			if g.must&ft != 0 {
				n *= 4
			}
			w[i] = n
		}
	}
	set(1, true, FBits, 4)
	set(2, true, FStr, 2)
	set(3, true, FSlice, 1) // fixed-length slice
	set(4, true, FArr, 2)
	set(5, depth < g.depthM+2, FPtr, 2)
	set(6, !deep, FStruct, 3)
	if g.scale == scaleDeep && !deep {
		w[6] += 40
	}
	set(7, o.mod() == 0, FCustom, 2)
	set(8, !deep && len(ctls) > 0, FSwitch, 3)
	if g.scale == scaleCases {
		w[8] *= 6
	}
	set(9, len(ctls) > 0 || c.Chance(1, 4), FSizeX, 2)
	set(10, usableWidth(ctls) >= 0 && !g.has(FUnitEl), FBitsX, 3)
	switch c.Pick(w...) {
	case 0:
		if g.want(FIface, 1, 25) {
			f.T = ty(KIface)
			break
		}
		f.T, f.B = g.scalarPair()
		if g.want(FInOut, 1, 4) {
			g.inout(f, ctls)
		}
	case 1:
		g.bitField(f, o)
		if g.want(FInOut, 1, 6) {
			g.inout(f, ctls)
		}
	case 2: // fixed-length string
		g.used |= FStr
		n := c.Int(10)
		if c.Chance(1, 8) {
			n = c.Len(300)
		}
		if g.scale == scaleLong && g.mul == 1 && c.Chance(1, 2) {
			n = bigLen(c)
		}
		if g.has(FUnitEl) && n == 0 {
			n = 1
		}
		f.T = g.named(ty(KStr))
		f.B = tyArr(n, g.strElem())
		if g.want(FInOut, 1, 5) && n >= 2 {
			g.inout(f, ctls)
		}
	case 3: // slice with fixed length
		g.used |= FSlice | FCast
		n := c.Int(6)
		if c.Chance(1, 10) {
			n = c.Len(100)
		}
		if g.scale == scaleLong && g.mul == 1 && c.Chance(1, 2) {
			n = bigLen(c)
		}
		if g.has(FUnitEl) && n == 0 {
			n = 1
		}
		t, b := g.scalarPair()
		f.T = tySlice(t)
		if b == nil {
			b = &Ty{K: t.K}
		}
		f.B = tyArr(n, b)
	case 4:
		g.used |= FArr
		if long := g.scale == scaleLong && g.mul == 1 && c.Chance(1, 2); long || g.want(FCast, 1, 4) {
			n := 1 + c.Int(5)
			if long {
				n = bigLen(c)
			}
			t, b := g.scalarPair()
			f.T = tyArr(n, t)
			if b != nil {
				f.B = tyArr(n, b)
			}
			if c.Chance(1, 4) { // the same as a slice or string of that length
				if b == nil {
					b = &Ty{K: t.K}
				}
				f.B = tySlice(b)
				if t.K == KU8 && b.K == KU8 && c.Chance(1, 2) {
					f.B = ty(KStr)
				}
			}
			break
		}
		for f.T == nil || f.T.K != KArray {
			n := c.Int(5)
			if c.Chance(1, 8) {
				n = c.Len(70)
			}
			n = g.bound(n)
			mul := g.mul
			g.mul *= n + 1
			if g.has(FUnitEl) && n == 0 {
				n = 1
			}
			eo := off{-1, 0}
			keep := g.ft
			if n < 2 {
				eo = off{o.mod(), 0}
			} else if g.unit(o, depth) {
				eo.base = o.mod()
				g.ft |= FUnitEl
			}
			e := g.elem(depth+1, &eo, ctls)
			g.ft = keep
			g.mul = mul
			if n > 0 {
				if eo.delta < 0 {
					o.add(-1)
				} else {
					o.add(eo.delta * n)
				}
			}
			f.T = tyArr(n, e)
		}
	case 5:
		g.used |= FPtr
		eo := off{o.mod(), 0}
		emb := g.want(FEmbed, 1, 6)
		if emb {
			g.embeds++
			g.prefix = fmt.Sprintf("Q%d", g.embeds)
		}
		f.T = tyPtr(g.elem(depth+1, &eo, ctls))
		g.prefix = ""
		f.Embed = emb && f.T.Elem.K == KStruct && f.T.Elem.St.Static == nil
		// nil pointers occupy nothing: the offset after it is only known for whole bytes
		if eo.delta != 0 {
			o.add(-1)
		}
	case 6:
		g.used |= FStruct
		if g.want(FEmbed, 1, 6) {
			f.Embed = true
			if c.Chance(2, 3) {
				g.embeds++
				g.prefix = fmt.Sprintf("Q%d", g.embeds)
			}
		}
		eo := off{o.mod(), 0}
		f.T = tySt(g.st(depth+1, &eo, ctls, false, f.Embed))
		o.add(eo.delta)
	case 7:
		g.used |= FCustom
		f.T = tyCu(g.custom())
	case 8:
		g.switc(f, depth, o, ctls)
	case 9: // length from an expression
		g.used |= FSizeX
		sf := g.seq(name, depth, o, ctls)
		*f = *sf
		f.Size = g.numExpr(ctls, 0)
		if f.Long {
			f.Size = bin("*", f.Size, ilit(100+c.Int(1000)))
		}
		if f.T.K == KStr && g.want(FInOut, 1, 5) {
			g.inout(f, ctls)
		}
	case 10: // computed width
		g.used |= FBitsX
		x := ctls[usableWidth(ctls)]
		var us []ctl
		for _, y := range ctls {
			if y.forWidth() {
				us = append(us, y)
			}
		}
		x = us[c.Int(len(us))]
		b := []K{KU16, KU32, KU64, KI16, KI32, KI64}[c.Int(6)]
		f.T = ty(b)
		if g.has(FBool) && c.Chance(1, 6) {
			f.T, f.B = ty(KBool), ty(b)
		}
		f.BitsX = bin("+", x.ref(), ilit(1+c.Int(3)))
		o.add(-1)
		if g.want(FInOut, 1, 6) {
			g.inout(f, ctls)
		}
	}
	g.decorate(f, o, ctls, depth, true)
	return f
}

// forWidth tells what can be the width of a bit-field.
func (x ctl) forWidth() bool { return x.max > 0 && x.max <= 12 && x.k.intk() && !x.ptr }

func usableWidth(ctls []ctl) int {
	for i, x := range ctls {
		if x.forWidth() {
			return i
		}
	}
	return -1
}

// decorate adds the tags any field may have.
func (g *gen) decorate(f *Fd, o *off, ctls []ctl, depth int, mayIf bool) {
	c := g.c
	if g.want(FOrder, 1, 6) {
		f.Order = g.order()
	}
	if g.want(FSkip, 1, 8) {
		f.Skip = 1 + c.Int(4)
		if c.Chance(1, 10) {
			f.Skip = c.Len(300)
		}
		if g.scale == scaleLong && g.mul == 1 {
			f.Skip = bigLen(c)
		}
	}
	if f.T.K == KBool && g.has(FFlags) {
		if g.want(FFlags, 1, 3) {
			f.Variant = true
		}
		if g.want(FFlags, 1, 3) {
			f.Invert = true
		}
	}
	if len(ctls) > 0 && f.If == nil && g.want(FIf, 1, 6) {
		if (f.SizeFrom != "" || !mayIf) && c.Chance(1, 2) {
			return
		}
		if !g.byteSized(f) {
			if g.has(FUnitEl) {
				return
			}
			// whether it is there is only known at run time
			o.add(-1)
		}
		f.If = g.boolExpr(ctls, 0)
	}
}

// byteSized is true for fields that surely occupy whole bytes.
func (g *gen) byteSized(f *Fd) bool {
	if f.Bits != 0 || f.BitsX != nil || f.Switch != nil {
		return false
	}
	return byteTy(f.bin())
}

func byteTy(t *Ty) bool {
	switch t.K {
	case KStr:
		return true
	case KSlice, KArray, KPtr:
		return byteTy(t.Elem)
	case KStruct:
		return false
	}
	return true
}

// pad makes a padding field.
func (g *gen) pad(o *off, ctls []ctl) *Fd {
	c := g.c
	f := &Fd{Blank: true, Name: "_"}
	switch c.Pick(5, 3, 2, 1, 1) {
	case 0:
		f.T, _ = g.scalarPairNoCast()
	case 1:
		t, _ := g.scalarPairNoCast()
		f.T = tyArr(c.Int(6), t)
		if g.mul == 1 && (g.scale == scaleLong || c.Chance(1, 200)) {
			f.T = tyArr(bigLen(c), t)
		}
	case 2:
		if g.has(FBits) {
			k := []K{KU8, KU16, KU32, KU64, KI16, KI32}[c.Int(6)]
			f.T = ty(k)
			if w := usableWidth(ctls); w >= 0 && k != KU8 && !g.has(FUnitEl) && g.want(FBitsX, 1, 4) {
				g.used |= FBitsX
				f.BitsX = bin("+", ctls[w].ref(), ilit(1+c.Int(3)))
				o.add(-1)
				break
			}
			f.Bits = c.Range(1, kWidth[k]-1)
			o.add(f.Bits)
			break
		}
		fallthrough
	case 3:
		in := mkSt(&Fd{Name: "A", T: ty(g.intKind())}, &Fd{Name: "_", Blank: true, T: tyArr(1+c.Int(3), ty(KU8))})
		if g.has(FBits) {
			in.Fields = append(in.Fields, &Fd{Name: "B", T: ty(KU8), Bits: 3}, &Fd{Name: "C", T: ty(KU16), Bits: 5 + 8*c.Int(2)})
		}
		if c.Chance(1, 3) {
			in.Fields[0].Skip = c.Int(3)
		}
		f.T = tySt(in)
	default: // not of constant size: only its skip counts
		f.T = []*Ty{tySlice(ty(KU16)), ty(KStr), tyPtr(ty(KU32)), ty(KIface)}[c.Int(4)]
		switch c.Int(6) {
		case 0:
			f.T = tySt(mkSt(fd("A", ty(g.intKind())), fd("B", f.T)))
		case 1:
			f.T = tyArr(1+c.Int(3), f.T)
		case 2:
			f.T = tySt(mkSt(fd("A", ty(KU8)), fd("B", tySt(mkSt(fd("C", f.T), fd("D", ty(KU32)))))))
		}
	}
	if c.Chance(1, 3) {
		f.Skip = c.Int(4)
	}
	if len(ctls) > 0 && g.want(FIf, 1, 6) {
		if f.Bits == 0 && f.BitsX == nil && f.T.K != KStruct {
			f.If = g.boolExpr(ctls, 0)
		} else if !g.has(FUnitEl) {
			f.If = g.boolExpr(ctls, 0)
			o.add(-1)
		}
	}
	g.used |= FPad
	return f
}

var oddTypes = []reflect.Type{
	reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((func())(nil)), reflect.TypeOf((*error)(nil)).Elem(),
	reflect.TypeOf(uintptr(0)), reflect.TypeOf([]string(nil)), reflect.TypeOf(uint32(0)), reflect.TypeOf(""), reflect.TypeOf(struct{ A, B int }{}),
	reflect.TypeOf((*int)(nil)), reflect.TypeOf([3]map[int]int{}),
}

// ignored makes a field the layout does not see.
func (g *gen) ignored(name string, n int) *Fd {
	c := g.c
	f := &Fd{Name: name, T: &Ty{K: KIface, rt: oddTypes[c.Int(len(oddTypes))]}}
	if c.Chance(1, 2) {
		f.Ignore = true
	} else {
		f.Unexp = true
		f.Name = fmt.Sprintf("x%d", n)
		switch c.Int(4) {
		case 1:
			f.tag = `struct:"skip=3"`
		case 2:
			f.tag = `struct:"uint8:3,little"`
		case 3:
			f.tag = `json:"x"`
		}
	}
	g.used |= FIgnored
	return f
}

func mkOf(k K) MK {
	if int(k) < len(plainRT) && plainRT[k] != nil {
		return kindMK[plainRT[k].Kind()]
	}
	return MNone
}

func (x ctl) ref() *Ex {
	x.f.refd = true
	for _, f := range x.via {
		f.refd = true
	}
	var e *Ex
	for _, p := range strings.Split(x.path, ".") {
		is := strings.Split(p, "[")
		if e == nil {
			e = id(is[0], 0)
		} else {
			e = dot(e, is[0])
		}
		for _, i := range is[1:] {
			n := 0
			fmt.Sscanf(i, "%d]", &n)
			e = idx(e, ilit(n))
		}
	}
	if x.ptr {
		e = un("*", e)
	}
	return e
}

// small is a literal below the maximum of a control field.
func (g *gen) small(x ctl) *Ex {
	m := x.max
	if m <= 0 {
		m = 3
	}
	return ilit(g.c.Int(m + 1))
}

// boolExpr makes a condition over control fields.
func (g *gen) boolExpr(ctls []ctl, depth int) *Ex {
	c := g.c
	if depth < 2 && c.Chance(1, 4) {
		switch c.Int(4) {
		case 0:
			return bin("&&", g.boolExpr(ctls, depth+1), g.boolExpr(ctls, depth+1))
		case 1:
			return bin("||", g.boolExpr(ctls, depth+1), g.boolExpr(ctls, depth+1))
		case 2:
			return un("!", g.boolExpr(ctls, depth+1))
		default:
			return cond(g.boolExpr(ctls, depth+1), g.boolExpr(ctls, depth+1), g.boolExpr(ctls, depth+1))
		}
	}
	x := ctls[c.Int(len(ctls))]
	switch {
	case x.k == KBool:
		return x.ref()
	case x.k == KStr:
		return bin(c.OneOf("==", "!="), x.ref(), slit(x.vals[c.Int(len(x.vals))]))
	case x.k == KF32 || x.k == KF64:
		n := ilit(c.Int(3))
		if c.Chance(1, 2) {
			n = lit("1.5", MV{K: MUFloat, F: 1.5})
		}
		return bin(c.OneOf("==", "!=", "<", ">", "<=", ">="), x.ref(), n)
	}
	switch c.Int(7) {
	case 5:
		var same []ctl
		for _, y := range ctls {
			if y.k == x.k && y.path != x.path {
				same = append(same, y)
			}
		}
		if len(same) > 0 {
			return bin(c.OneOf("==", "!=", "<", ">", "<=", ">="), x.ref(), same[c.Int(len(same))].ref())
		}
	case 6:
		if x.k.intk() {
			return bin(c.OneOf("==", "<", ">="), bin(c.OneOf("+", "-", "*", "^", "|", "&^", ">>", "/"), x.ref(), ilit(1+c.Int(4))), g.small(x))
		}
	case 0:
		return bin("!=", bin("&", x.ref(), ilit(1)), ilit(0))
	case 1:
		return bin(c.OneOf("==", "<", ">"), bin("%", x.ref(), ilit(2)), ilit(1))
	case 2: // literal first
		return bin(c.OneOf("==", "!=", "<", ">", "<=", ">="), g.small(x), x.ref())
	}
	return bin(c.OneOf("==", "!=", "<", ">", "<=", ">="), x.ref(), g.small(x))
}

// numExpr makes a small non-negative number.
func (g *gen) numExpr(ctls []ctl, depth int) *Ex {
	c := g.c
	var us []ctl
	for _, x := range ctls {
		if x.k.intk() && (x.max > 0 && x.max <= 12) {
			us = append(us, x)
		}
	}
	if len(us) == 0 || c.Chance(1, 10) {
		return ilit(c.Int(5))
	}
	x := us[c.Int(len(us))]
	switch c.Int(8) {
	case 7:
		if x.k.uns() && x.k != KUint {
			return call(dot(id("bits", MNone), c.OneOf("Len", "OnesCount")+fmt.Sprint(kWidth[x.k])), x.ref())
		}
	case 0:
		return bin("+", x.ref(), ilit(c.Int(4)))
	case 1:
		return bin("*", x.ref(), ilit(c.Int(4)))
	case 2:
		return bin("&", x.ref(), ilit(3))
	case 3:
		return cond(g.boolExpr(ctls, 2), x.ref(), ilit(c.Int(4)))
	case 4:
		return bin("<<", x.ref(), ilit(c.Int(2)))
	}
	return x.ref()
}

// switc turns f into a switch.
func (g *gen) switc(f *Fd, depth int, o *off, ctls []ctl) {
	c := g.c
	g.used |= FSwitch
	var us []ctl
	for _, x := range ctls {
		if x.max != 0 || x.k == KStr || x.ptr {
			us = append(us, x)
		}
	}
	if len(us) == 0 {
		us = ctls
	}
	x := us[c.Int(len(us))]
	f.Switch = x.ref()
	if x.k.intk() && c.Chance(1, 4) {
		f.Switch = bin(c.OneOf("+", "&"), f.Switch, ilit(1+c.Int(2)))
	}
	s := &St{}
	n := c.Range(1, 4)
	if g.scale == scaleCases {
		n = c.Range(4, 40)
	}
	def := -1
	if c.Chance(1, 2) {
		def = c.Int(n)
	}
	known := true
	d0 := -1
	for i := 0; i < n; i++ {
		eo := off{o.mod(), 0}
		var cf *Fd
		if g.want(FPad, 1, 12) {
			keep := g.ft
			if g.has(FUnitEl) {
				g.ft &^= FBits
			}
			cf = g.pad(&eo, ctls)
			g.ft = keep
		} else {
			cf = g.caseField(fname(i), depth+1, &eo, ctls)
		}
		if i == def {
			cf.Default = true
		} else {
			switch {
			case x.k == KBool:
				cf.Case = lit(c.OneOf("true", "false"), MV{K: MUBool})
				cf.Case.V.B = cf.Case.S == "true"
				if c.Chance(1, 4) {
					cf.Case = un("!", x.ref())
				}
			case x.k == KStr:
				cf.Case = slit(x.vals[c.Int(len(x.vals))])
			default:
				m := x.max + 3
				if x.max <= 0 {
					m = 4
				}
				if n > 4 { // so that late cases apply as well
					m += n
				}
				cf.Case = ilit(c.Int(m))
				switch c.Int(8) {
				case 0:
					cf.Case = bin("+", x.ref(), ilit(c.Int(2)))
				case 1:
					cf.Case = bin("+", ilit(0), cf.Case) // typed int: only matches int
					if x.k != KInt || x.ptr {
						cf.Case = cf.Case.A[1]
					}
				}
			}
		}
		if d0 == -1 {
			d0 = eo.delta
		}
		known = known && eo.delta >= 0 && eo.delta == d0
		s.Fields = append(s.Fields, cf)
		g.left--
		if g.want(FIgnored, 1, 12) {
			s.Fields = append(s.Fields, &Fd{Name: fmt.Sprintf("Ig%d", i), Ignore: true, T: ty(KU32)})
		}
	}
	if known && d0 == 0 {
		o.add(0)
	} else {
		o.add(-1)
	}
	if g.has(FRndTag) {
		for _, f := range s.Fields {
			f.renderTag(c)
		}
	}
	f.T = tySt(s)
}

// caseField makes a field of a switch.
func (g *gen) caseField(name string, depth int, o *off, ctls []ctl) *Fd {
	keep := g.ft
	// the name of a case is not in the scope of its expressions
	g.ft &^= FInOut
	if g.has(FUnitEl) {
		g.ft &^= FBits
	}
	f := g.field(name, depth, o, ctls)
	g.ft = keep
	return f
}

// while makes a slice read by a loop.
func (g *gen) while(name string, depth int, o *off, ctls []ctl, eof bool) *Fd {
	c := g.c
	g.used |= FWhile
	f := &Fd{Name: name}
	keep := g.ft
	g.ft |= FUnitEl
	g.ft &^= FParent
	eo := off{o.mod(), 0}
	e := g.elem(depth+1, &eo, nil)
	g.ft = keep
	f.T = tySlice(nonEmpty(e))
	if eo.delta != 0 {
		o.add(-1)
	}
	ne := un("!", id("_eof", MBool))
	switch {
	case !eof:
		if len(ctls) == 0 {
			f.While = lit("false", MV{K: MUBool})
		} else {
			b := g.boolExpr(ctls, 1)
			f.While = bin("&&", b, un("!", b))
		}
	case len(ctls) > 0 && c.Chance(1, 3):
		f.While = bin("&&", g.boolExpr(ctls, 1), ne)
	case c.Chance(1, 3):
		f.While = bin("==", id("_eof", MBool), lit("false", MV{K: MUBool}))
	default:
		f.While = ne
	}
	g.used |= FEof
	if g.want(FOrder, 1, 5) {
		f.Order = g.order()
	}
	if g.want(FSkip, 1, 8) {
		f.Skip = 1 + c.Int(3)
	}
	return f
}

// inout adds transforms that are inverse to each other.
func (g *gen) inout(f *Fd, ctls []ctl) {
	c := g.c
	g.used |= FInOut
	me := id(f.Name, 0)
	k := f.T.K
	switch {
	case k == KBool:
		f.In, f.Out = un("!", me), un("!", me)
	case k.intk():
		n := ilit(1 + c.Int(5))
		if c.Chance(1, 4) {
			n = ilit(100)
		}
		var same []ctl
		for _, x := range ctls {
			if x.k == k && x.max > 0 && !x.ptr {
				same = append(same, x)
			}
		}
		if len(same) > 0 && c.Chance(1, 2) {
			n = same[c.Int(len(same))].ref()
		}
		switch c.Int(4) {
		case 0:
			f.In, f.Out = bin("+", me, n), bin("-", me, n)
		case 1:
			f.In, f.Out = bin("-", me, n), bin("+", me, n)
		case 2:
			f.In, f.Out = bin("^", me, n), bin("^", me, n)
		default:
			f.In, f.Out = bin("-", n, me), bin("-", n, me)
		}
	case k == KF32 || k == KF64:
		// powers of two: exact except at the ends of the range
		f.In, f.Out = un("-", me), un("-", me)
	case k == KStr:
		x, y := "ab", "cd"
		if f.B != nil && f.B.K == KArray { // always of one size in the layout
			switch {
			case c.Chance(1, 3):
				x = ""
			case f.B.Len >= 4 && c.Chance(1, 2):
				x = "efgh"
			}
		}
		swap := func() *Ex {
			return cond(bin("==", me, slit(x)), slit(y), cond(bin("==", me, slit(y)), slit(x), me))
		}
		f.In, f.Out = swap(), swap()
		f.SVals = []string{x, y, "", "a"}
	}
}
