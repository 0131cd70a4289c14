package main

// Hand-written types for what generated types cannot express (recursion, typed
// parent and root references, promoted fields of named embedded types, methods), with
// their description for the model.

import (
	"encoding/binary"
	"fmt"
	"reflect"
)

// SNode: a linked list.
type SNode struct {
	V    uint16
	More uint8
	Next *SNode `struct-if:"More == 1"`
}

// STree: a tree with references upwards.
type STree struct {
	Root   *STree `struct:"root"`
	Parent *STree `struct:"parent"`
	N      uint8  `struct:"uint8,sizeof=Kids"`
	Flag   uint8
	Tag    uint16 `struct:"if=Root.Flag > 3"`
	Deep   uint32 `struct:"if=Parent != nil && Parent.Flag == 1,little"`
	Kids   []*STree
}

// SVTree: the same by value.
type SVTree struct {
	Parent *SVTree `struct:"parent"`
	N      int8
	F      bool     `struct:"uint8:3"`
	G      uint8    `struct:"uint8:5"`
	X      uint16   `struct:"if=Parent != nil && Parent.F"`
	Kids   []SVTree `struct:"sizefrom=N"`
}

// SOuter, SMid and SInner: several candidate ancestors.
type SOuter struct {
	Mode  uint8
	N     int16 `struct:"int16,sizeof=List"`
	One   SInner
	List  []SMid
	Arr   [2]SInner
	P     **SInner
	Sw    SSwitch `struct:"switch=Mode"`
	After uint16
}

// SSwitch is a switch over its parent's mode.
type SSwitch struct {
	Zero SInner `struct:"case=0"`
	One  SMid   `struct-case:"1" struct:"little"`
	Rest []byte `struct:"default,size=N"`
}

// SMid stands between outer and inner.
type SMid struct {
	Up    *SOuter `struct:"parent"`
	Top   *SOuter `struct:"root"`
	Kind  uint8
	Inner []*SInner `struct:"size=Kind & 3"`
	Last  uint16    `struct:"if=Up.Mode == Top.Mode,big"`
}

// SInner refers to every level.
type SInner struct {
	Mid   *SMid       `struct:"parent"`
	Outer *SOuter     `struct:"parent"`
	Any   interface{} `struct:"parent"`
	Root  *SOuter     `struct:"root"`
	K     uint8       `struct-if:"Mid == nil || Mid.Kind > 2"`
	D     []byte      `struct-size:"Outer.Mode & 7"`
	E     int32       `struct-if:"Root.Mode != 0"`
}

// SBase and SEmb: embedded named types.
type SBase struct {
	Len  uint8
	Kind uint8
}

// SDeepBase embeds another.
type SDeepBase struct {
	SBase
	Extra uint16
}

// SEmb uses promoted fields.
type SEmb struct {
	SDeepBase
	Data []byte  `struct:"size=Len"`
	Num  uint32  `struct:"if=Kind == 1,big"`
	Ex   float32 `struct:"if=Extra > 255"`
}

// SMutual refers to itself through other types.
type SMutual struct {
	A    uint8
	List []SOther `struct:"size=A & 1"`
}

// SOther is the other half.
type SOther struct {
	B uint8
	P *SMutual       `struct:"if=B < 200"`
	Q [1]SInnerPlain `struct:"if=B == 7"`
}

// SG0 to SG6: a chain of types with references over every distance.
type SG0 struct {
	K uint8
	N SG1
	X uint16
}

// SG1 is in SG0.
type SG1 struct {
	A *SG0 `struct:"parent"`
	K uint8
	N [2]SG2
}

// SG2 is in SG1.
type SG2 struct {
	A *SG0 `struct:"parent"`
	K uint8
	N *SG3 `struct:"if=K & 1 == 0"`
}

// SG3 is in SG2.
type SG3 struct {
	B *SG1  `struct:"parent"`
	A *SG0  `struct:"parent"`
	N []SG4 `struct-size:"A.K & 1 + B.K & 1"`
}

// SG4 is in SG3.
type SG4 struct {
	A *SG0 `struct:"parent"`
	D *SG3 `struct:"parent"`
	K uint8
	N SGS `struct-switch:"K & 1"`
}

// SGS is a switch.
type SGS struct {
	One SG5    `struct-case:"1"`
	Two []byte `struct:"default,size=2"`
}

// SG5 is in SG4.
type SG5 struct {
	A *SG0 `struct:"parent"`
	N SG6
	K uint8 `struct-if:"A.K > 2"`
}

// SG6 is at the end of the chain.
type SG6 struct {
	F *SG5        `struct:"parent"`
	A *SG0        `struct:"parent"`
	C *SG2        `struct:"parent"`
	E *SG4        `struct:"parent"`
	D *SG3        `struct:"parent"`
	B *SG1        `struct:"parent"`
	I interface{} `struct:"parent"`
	R interface{} `struct:"root"`
	K uint8       `struct-if:"A.K == B.K"`
	L uint16      `struct-if:"C.K != E.K"`
}

// SChain and SLink: a list below a head.
type SChain struct {
	Kind uint8
	Any  interface{} `struct:"root"`
	Next *SLink
}

// SLink is any number of levels below its head.
type SLink struct {
	Head *SChain `struct:"parent"`
	Top  *SChain `struct:"root"`
	Prev *SLink  `struct:"parent"`
	More uint8
	X    uint8   `struct-if:"Head.Kind > 1"`
	Next *SLink  `struct-if:"More != 0"`
	Y    [2]byte `struct-if:"Top.Kind == 1"`
}

// SInnerPlain has ignored and unexported parts of odd types.
type SInnerPlain struct {
	X    uint8
	Y    map[string]int `struct:"-"`
	z    chan int
	Z    uint16
	_    [3]byte
	next *SInnerPlain
	W    uint8
}

func sfd(name string, t *Ty, mods ...func(*Fd)) *Fd {
	f := fd(name, t)
	for _, m := range mods {
		m(f)
	}
	return f
}

func mIf(e *Ex) func(*Fd)          { return func(f *Fd) { f.If = e } }
func mSize(e *Ex) func(*Fd)        { return func(f *Fd) { f.Size = e } }
func mParent(f *Fd)                { f.Parent = true }
func mRoot(f *Fd)                  { f.Root = true }
func mMax(n int) func(*Fd)         { return func(f *Fd) { f.Max = n; f.refd = true } }
func mVals(v ...uint64) func(*Fd)  { return func(f *Fd) { f.Vals = v; f.refd = true } }
func mOrd(o bool) func(*Fd)        { return func(f *Fd) { f.Order = ordOf(o) } }
func mSizeOf(n string) func(*Fd)   { return func(f *Fd) { f.SizeOf = n } }
func mSizeFrom(n string) func(*Fd) { return func(f *Fd) { f.SizeFrom = n } }
func mLen(n int) func(*Fd)         { return func(f *Fd) { f.LenMax = n } }
func mBits(n int, b K) func(*Fd)   { return func(f *Fd) { f.Bits = n; f.B = ty(b) } }
func ref(t reflect.Type) *Ty       { return &Ty{K: KIface, rt: t} }
func static(x interface{}) *St     { return &St{Static: reflect.TypeOf(x)} }
func mem(path ...string) (e *Ex) {
	e = id(path[0], 0)
	for _, p := range path[1:] {
		e = dot(e, p)
	}
	return
}

var (
	stNode   = static(SNode{})
	stTree   = static(STree{})
	stVTree  = static(SVTree{})
	stOuter  = static(SOuter{})
	stMid    = static(SMid{})
	stInner  = static(SInner{})
	stEmb    = static(SEmb{})
	stMutual = static(SMutual{})
	stPlain  = static(SInnerPlain{})

	stG0 = static(SG0{})

	stChain = static(SChain{})

	staticTops = []*St{stNode, stTree, stVTree, stOuter, stEmb, stMutual, stPlain, stG0, stChain}
	parentTops = []*St{stTree, stVTree, stOuter, stG0, stChain}
)

func init() {
	eq := func(a *Ex, n int) *Ex { return bin("==", a, ilit(n)) }
	gt := func(a *Ex, n int) *Ex { return bin(">", a, ilit(n)) }
	nilE := func() *Ex { return lit("nil", MV{K: MNil}) }

	stNode.Fields = []*Fd{
		sfd("V", ty(KU16)), sfd("More", ty(KU8), mVals(0, 1, 1, 1, 2)),
		sfd("Next", tyPtr(tySt(stNode)), mIf(eq(id("More", 0), 1))),
	}

	tp := reflect.TypeOf((*STree)(nil))
	stTree.Fields = []*Fd{
		sfd("Root", ref(tp), mRoot), sfd("Parent", ref(tp), mParent),
		sfd("N", ty(KU8), func(f *Fd) { f.B = ty(KU8) }, mSizeOf("Kids")),
		sfd("Flag", ty(KU8), mMax(6)),
		sfd("Tag", ty(KU16), mIf(gt(mem("Root", "Flag"), 3))),
		sfd("Deep", ty(KU32), mOrd(false), mIf(bin("&&", bin("!=", id("Parent", 0), nilE()), eq(mem("Parent", "Flag"), 1)))),
		sfd("Kids", tySlice(tyPtr(tySt(stTree))), mLen(2)),
	}

	vp := reflect.TypeOf((*SVTree)(nil))
	stVTree.Fields = []*Fd{
		sfd("Parent", ref(vp), mParent), sfd("N", ty(KI8)),
		sfd("F", ty(KBool), mBits(3, KU8), func(f *Fd) { f.refd = true }), sfd("G", ty(KU8), mBits(5, KU8)),
		sfd("X", ty(KU16), mIf(bin("&&", bin("!=", id("Parent", 0), nilE()), mem("Parent", "F")))),
		sfd("Kids", tySlice(tySt(stVTree)), mSizeFrom("N"), mLen(2)),
	}

	op := reflect.TypeOf((*SOuter)(nil))
	mp := reflect.TypeOf((*SMid)(nil))
	stInner.Fields = []*Fd{
		sfd("Mid", ref(mp), mParent), sfd("Outer", ref(op), mParent), sfd("Any", ty(KIface), mParent), sfd("Root", ref(op), mRoot),
		sfd("K", ty(KU8), mIf(bin("||", bin("==", id("Mid", 0), nilE()), gt(mem("Mid", "Kind"), 2)))),
		sfd("D", tySlice(ty(KU8)), mSize(bin("&", mem("Outer", "Mode"), ilit(7)))),
		sfd("E", ty(KI32), mIf(bin("!=", mem("Root", "Mode"), ilit(0)))),
	}
	stMid.Fields = []*Fd{
		sfd("Up", ref(op), mParent), sfd("Top", ref(op), mRoot), sfd("Kind", ty(KU8), mMax(9)),
		sfd("Inner", tySlice(tyPtr(tySt(stInner))), mSize(bin("&", id("Kind", 0), ilit(3)))),
		sfd("Last", ty(KU16), mOrd(true), mIf(bin("==", mem("Up", "Mode"), mem("Top", "Mode")))),
	}
	sw := static(SSwitch{})
	sw.Fields = []*Fd{
		sfd("Zero", tySt(stInner), func(f *Fd) { f.Case = ilit(0) }),
		sfd("One", tySt(stMid), mOrd(false), func(f *Fd) { f.Case = ilit(1) }),
		sfd("Rest", tySlice(ty(KU8)), func(f *Fd) { f.Default = true }, mSize(id("N", 0))),
	}
	stOuter.Fields = []*Fd{
		sfd("Mode", ty(KU8), mVals(0, 1, 2, 3, 7)),
		sfd("N", ty(KI16), func(f *Fd) { f.B = ty(KI16) }, mSizeOf("List"), func(f *Fd) { f.refd = true }),
		sfd("One", tySt(stInner)),
		sfd("List", tySlice(tySt(stMid)), mLen(4)),
		sfd("Arr", tyArr(2, tySt(stInner))),
		sfd("P", tyPtr(tyPtr(tySt(stInner)))),
		sfd("Sw", tySt(sw), func(f *Fd) { f.Switch = id("Mode", 0) }),
		sfd("After", ty(KU16)),
	}

	par := func(name string, x interface{}) *Fd { return sfd(name, ref(reflect.TypeOf(x)), mParent) }
	g6 := static(SG6{})
	g6.Fields = []*Fd{
		par("F", (*SG5)(nil)), par("A", (*SG0)(nil)), par("C", (*SG2)(nil)), par("E", (*SG4)(nil)), par("D", (*SG3)(nil)), par("B", (*SG1)(nil)),
		sfd("I", ty(KIface), mParent), sfd("R", ty(KIface), mRoot),
		sfd("K", ty(KU8), mIf(bin("==", mem("A", "K"), mem("B", "K")))), sfd("L", ty(KU16), mIf(bin("!=", mem("C", "K"), mem("E", "K")))),
	}
	g5 := static(SG5{})
	g5.Fields = []*Fd{par("A", (*SG0)(nil)), sfd("N", tySt(g6)), sfd("K", ty(KU8), mIf(gt(mem("A", "K"), 2)))}
	gs := static(SGS{})
	gs.Fields = []*Fd{
		sfd("One", tySt(g5), func(f *Fd) { f.Case = ilit(1) }),
		sfd("Two", tySlice(ty(KU8)), func(f *Fd) { f.Default = true }, mSize(ilit(2))),
	}
	g4 := static(SG4{})
	g4.Fields = []*Fd{
		par("A", (*SG0)(nil)), par("D", (*SG3)(nil)), sfd("K", ty(KU8), mVals(1, 1, 1, 3, 0)),
		sfd("N", tySt(gs), func(f *Fd) { f.Switch = bin("&", id("K", 0), ilit(1)) }),
	}
	g3 := static(SG3{})
	g3.Fields = []*Fd{
		par("B", (*SG1)(nil)), par("A", (*SG0)(nil)),
		sfd("N", tySlice(tySt(g4)), mSize(bin("+", bin("&", mem("A", "K"), ilit(1)), bin("&", mem("B", "K"), ilit(1))))),
	}
	g2 := static(SG2{})
	g2.Fields = []*Fd{
		par("A", (*SG0)(nil)), sfd("K", ty(KU8), mVals(0, 2, 4, 6, 1)),
		sfd("N", tyPtr(tySt(g3)), mIf(eq(bin("&", id("K", 0), ilit(1)), 0))),
	}
	g1 := static(SG1{})
	g1.Fields = []*Fd{par("A", (*SG0)(nil)), sfd("K", ty(KU8), mVals(1, 1, 3, 2)), sfd("N", tyArr(2, tySt(g2)))}
	stG0.Fields = []*Fd{sfd("K", ty(KU8), mVals(1, 1, 3, 2)), sfd("N", tySt(g1)), sfd("X", ty(KU16))}
	statics = []*St{g1, g2, g3, g4, gs, g5, g6}

	link := static(SLink{})
	link.Fields = []*Fd{
		par("Head", (*SChain)(nil)), sfd("Top", ref(reflect.TypeOf((*SChain)(nil))), mRoot), par("Prev", (*SLink)(nil)),
		sfd("More", ty(KU8), mVals(1, 2, 255, 7, 1, 3, 4, 5, 6, 0)), sfd("X", ty(KU8), mIf(gt(mem("Head", "Kind"), 1))),
		sfd("Next", tyPtr(tySt(link)), mIf(bin("!=", id("More", 0), ilit(0)))), sfd("Y", tyArr(2, ty(KU8)), mIf(eq(mem("Top", "Kind"), 1))),
	}
	stChain.Fields = []*Fd{sfd("Kind", ty(KU8), mMax(3)), sfd("Any", ty(KIface), mRoot), sfd("Next", tyPtr(tySt(link)))}
	statics = append(statics, link)

	base := static(SBase{})
	base.Fields = []*Fd{sfd("Len", ty(KU8), mMax(5)), sfd("Kind", ty(KU8), mMax(2))}
	deep := static(SDeepBase{})
	deep.Fields = []*Fd{sfd("SBase", tySt(base)), sfd("Extra", ty(KU16), mVals(0, 255, 256, 1000))}
	stEmb.Fields = []*Fd{
		sfd("SDeepBase", tySt(deep)), sfd("Data", tySlice(ty(KU8)), mSize(id("Len", 0))),
		sfd("Num", ty(KU32), mOrd(true), mIf(eq(id("Kind", 0), 1))),
		sfd("Ex", ty(KF32), mIf(gt(id("Extra", 0), 255))),
	}

	stPlain.Fields = []*Fd{
		sfd("X", ty(KU8)), sfd("Y", ref(reflect.TypeOf(map[string]int{})), func(f *Fd) { f.Ignore = true }),
		sfd("z", ref(reflect.TypeOf((chan int)(nil))), func(f *Fd) { f.Unexp = true }), sfd("Z", ty(KU16)),
		sfd("_", tyArr(3, ty(KU8)), func(f *Fd) { f.Blank = true }),
		sfd("next", ref(reflect.TypeOf((*SInnerPlain)(nil))), func(f *Fd) { f.Unexp = true }), sfd("W", ty(KU8)),
	}
	other := static(SOther{})
	other.Fields = []*Fd{
		sfd("B", ty(KU8), mVals(7, 100, 200, 255, 199)), sfd("P", tyPtr(tySt(stMutual)), mIf(bin("<", id("B", 0), ilit(200)))),
		sfd("Q", tyArr(1, tySt(stPlain)), mIf(eq(id("B", 0), 7))),
	}
	stMutual.Fields = []*Fd{sfd("A", ty(KU8), func(f *Fd) { f.refd = true }), sfd("List", tySlice(tySt(other)), mSize(bin("&", id("A", 0), ilit(1))))}
	checkStatics()
}

var statics []*St

// checkStatics makes sure that the descriptions match the Go types.
func checkStatics() {
	for _, s := range append(statics, stNode, stTree, stVTree, stOuter, stMid, stInner, stEmb, stMutual, stPlain, stG0, stChain) {
		if s.Static.NumField() != len(s.Fields) {
			panic(fmt.Sprintf("harness: %s: %d fields described", s.Static, len(s.Fields)))
		}
		for i, f := range s.Fields {
			sf := s.Static.Field(i)
			if sf.Name != f.Name || sf.Type != f.T.RT() {
				panic(fmt.Sprintf("harness: %s.%s is described as %s %s", s.Static, sf.Name, f.Name, f.T.RT()))
			}
		}
	}
}

func ordOf(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}
