package main

// The choice-sequence engine. A property is a function of *C; every random
// decision is a draw from C. Draw 0 is always the simplest alternative, so a
// shorter or smaller draw sequence is a simpler case.

import (
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
)

// failure is what a property panics with when its oracle disagrees.
type failure struct{ msg string }

// discard is what a property panics with when a case is outside its domain.
type discard struct{ why string }

// pcg is a small deterministic generator (splitmix64).
type pcg struct{ s uint64 }

func (p *pcg) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(a ...uint64) uint64 {
	h := uint64(0x1234567)
	for _, x := range a {
		p := pcg{h ^ x}
		h = p.next()
	}
	return h
}

// C is one case being generated and executed.
type C struct {
	rng     pcg
	replay  []uint64
	isRep   bool
	log     []uint64
	classes []string
	triv    bool // set when the case is trivial by the property's rule
	nontriv bool
	notes   []string
	verbose bool
	known   []string // known findings hit
	thor    bool     // thorough tier: larger regimes allowed
	evals   int      // library calls made (informational)
}

// Draw returns a value in [0,n). n==0 means the full 64-bit range.
func (c *C) Draw(n uint64) uint64 {
	var v uint64
	if c.isRep {
		if len(c.log) < len(c.replay) {
			v = c.replay[len(c.log)]
		}
		if n != 0 && v >= n {
			v = n - 1
		}
	} else {
		v = c.rng.next()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	c.log = append(c.log, v)
	if len(c.log) > 4000000 {
		panic(discard{"too many draws"})
	}
	return v
}

// Int returns a value in [0,n).
func (c *C) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.Draw(uint64(n)))
}

// Range returns a value in [lo,hi].
func (c *C) Range(lo, hi int) int { return lo + c.Int(hi-lo+1) }

// Chance is true with probability num/den; false is simplest.
func (c *C) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	if num >= den {
		return true
	}
	return int(c.Draw(uint64(den))) >= den-num
}

// Pick chooses an index by weight.
func (c *C) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	r := c.Int(t)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return len(w) - 1
}

// OneOf chooses one of the strings.
func (c *C) OneOf(s ...string) string { return s[c.Int(len(s))] }

// U64 returns a corner-biased value of the given width in bits.
func (c *C) U64(width int) uint64 {
	mask := ^uint64(0)
	if width < 64 {
		mask = 1<<uint(width) - 1
	}
	switch c.Pick(3, 3, 2, 2, 2, 2, 6) {
	case 0:
		return uint64(c.Int(4)) & mask
	case 1:
		return uint64(c.Int(256)) & mask
	case 2:
		return mask - uint64(c.Int(4))&mask
	case 3: // around the sign bit
		return (1<<uint(width-1) + uint64(c.Int(5)) - 2) & mask
	case 4: // one bit or a run of bits
		return (1 << uint(c.Int(width)) << uint(c.Int(2))) & mask
	case 5: // byte counting patterns: make byte swaps visible
		return 0x0102030405060708 >> uint(64-((width+7)/8*8)) & mask
	default:
		return c.Draw(0) & mask
	}
}

// Len returns a length with a wide size regime: mostly small, sometimes at the
// widths and buffer boundaries, rarely large.
func (c *C) Len(max int) int {
	n := 0
	switch c.Pick(12, 10, 4, 2, 1) {
	case 0:
		n = c.Int(4)
	case 1:
		n = c.Int(10)
	case 2:
		n = []int{7, 8, 9, 15, 16, 17, 31, 32, 33}[c.Int(9)]
	case 3:
		n = []int{63, 64, 65, 127, 128, 129, 200, 255, 256, 257}[c.Int(10)]
	case 4:
		n = []int{300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}[c.Int(14)]
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

// Bytes returns n bytes with a pattern.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	if n <= 8 {
		for i := range b {
			b[i] = byte(c.Draw(256))
		}
		return b
	}
	p := c.Pick(1, 4, 1, 1)
	seed := c.Draw(1 << 32)
	g := pcg{seed}
	for i := range b {
		switch p {
		case 0:
			b[i] = byte(i + 1)
		case 1:
			b[i] = byte(g.next() >> 56)
		case 2:
			b[i] = 0xff
		case 3:
			b[i] = byte("aZ09 \x00\xc3\xa9"[g.next()>>61])
		}
	}
	return b
}

// Class counts the case under a label.
func (c *C) Class(s string) {
	for _, x := range c.classes {
		if x == s {
			return
		}
	}
	c.classes = append(c.classes, s)
}

// ClassIf counts the case under a label if b.
func (c *C) ClassIf(b bool, s string) {
	if b {
		c.Class(s)
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *C) NonTrivial() { c.nontriv = true }

// Note records a line for replay files and samples.
func (c *C) Note(format string, a ...interface{}) {
	if c.verbose {
		s := fmt.Sprintf(format, a...)
		if len(s) > 6000 {
			s = s[:6000] + "..."
		}
		c.notes = append(c.notes, s)
	}
}

// Fail reports a disagreement with the oracle.
func (c *C) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Discard drops the case.
func (c *C) Discard(why string) { panic(discard{why}) }

// Known records that a listed known finding was hit.
// One that is not listed is a violation.
func (c *C) Known(id, text string) {
	if knownIDs == nil {
		knownIDs = map[string]bool{}
		for id := range knownFindings(verifHome(), "") {
			knownIDs[id] = true
		}
	}
	if !knownIDs[id] {
		c.Fail("%s", text)
	}
	c.known = append(c.known, id)
}

var knownIDs map[string]bool

func verifHome() string {
	if s := os.Getenv("VERIF_HOME"); s != "" {
		return s
	}
	return "/verif"
}

func (c *C) sig() uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, v := range c.log {
		for i := range b {
			b[i] = byte(v >> uint(8*i))
		}
		h.Write(b[:])
	}
	return h.Sum64()
}

type outcome struct {
	status string // ok, fail, discard, harness
	msg    string
}

// shapeless tells panics that come from using a result that is not what it
// has to be (nil, or of another type), rather than from the model.
func shapeless(r interface{}) bool {
	switch x := r.(type) {
	case *reflect.ValueError, *runtime.TypeAssertionError:
		return true
	case runtime.Error:
		return strings.Contains(x.Error(), "nil pointer")
	case string:
		return strings.HasPrefix(x, "reflect")
	}
	return false
}

func runCase(p *Prop, c *C) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				o = outcome{"fail", x.msg}
			case discard:
				o = outcome{"discard", x.why}
			default:
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				o = outcome{"harness", fmt.Sprintf("%v\n%s", r, buf)}
				if shapeless(r) {
					o.status = "fail"
					o.msg = "the result does not have the shape that it must have: " + o.msg
				}
			}
		}
	}()
	p.Run(c)
	return outcome{"ok", ""}
}

func newSeeded(seed uint64, thor bool) *C { return &C{rng: pcg{seed}, thor: thor} }

func newReplay(draws []uint64, thor bool) *C {
	return &C{replay: draws, isRep: true, thor: thor}
}

// shrink minimises a failing draw sequence within a budget of executions.
func shrink(p *Prop, draws []uint64, thor bool, budget int, tick func()) []uint64 {
	return shrinkBy(draws, budget, tick, func(d []uint64) (bool, []uint64) {
		c := newReplay(d, thor)
		o := runCase(p, c)
		return o.status == "fail", c.log
	})
}

// shrinkBy is shrink with any way of running a case; run tells whether the case
// fails and which draws it made.
func shrinkBy(draws []uint64, budget int, tick func(), run func(d []uint64) (bool, []uint64)) []uint64 {
	best := append([]uint64(nil), draws...)
	n := 0
	try := func(d []uint64) bool {
		if n >= budget {
			return false
		}
		n++
		tick()
		failed, l := run(d)
		if !failed {
			return false
		}
		// drop a tail of zeros: replay supplies zeros anyway
		for len(l) > 0 && l[len(l)-1] == 0 {
			l = l[:len(l)-1]
		}
		if less(l, best) {
			best = append([]uint64(nil), l...)
			return true
		}
		return false
	}
	try(best)
	for improved := true; improved && n < budget; {
		improved = false
		for k := len(best); k >= 1; k /= 2 {
			for i := 0; i+k <= len(best) && n < budget; {
				d := append(append([]uint64(nil), best[:i]...), best[i+k:]...)
				if try(d) {
					improved = true
				} else {
					i += k
				}
			}
		}
		for k := 16; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best) && n < budget; i += k {
				d := append([]uint64(nil), best...)
				z := true
				for j := i; j < i+k; j++ {
					z = z && d[j] == 0
					d[j] = 0
				}
				if !z && try(d) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best) && n < budget; i++ {
			for i < len(best) && best[i] > 0 && n < budget {
				d := append([]uint64(nil), best...)
				d[i] = best[i] / 2
				if try(d) {
					improved = true
					continue
				}
				d = append([]uint64(nil), best...)
				d[i] = best[i] - 1
				if try(d) {
					improved = true
					continue
				}
				break
			}
		}
	}
	return best
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func sortedKeys(m map[string]int) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Prop is a property: its generator and oracle in one function.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(c *C)
	Quick int // cases per shard in the quick tier
	Thor  int // cases per shard in the thorough tier
	// Sweep, if set, runs once per check in shard 0 (exhaustive parts);
	// it returns how many cases it executed.
	Sweep func(c *C, thor bool) int
	// Shards, if set, overrides the number of worker processes (one case each is enough).
	Shards      int // number of worker processes (0: default)
	Assumptions []string
	NoExpr      bool // do not enable expressions in the worker
	Race        bool
	Tech        string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		fmt.Fprintln(os.Stderr, "duplicate property", p.ID)
		os.Exit(2)
	}
	props[p.ID] = p
}

func indent(lines []string) string { return strings.Join(lines, "\n") }
