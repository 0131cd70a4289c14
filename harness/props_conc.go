package main

// C20: many goroutines use the library at once; every call gives what it gives alone.
// The expectations are computed first, by the model only, so that the types of a case
// are new to the library when the goroutines start.

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
)

// job is one call and its expectation; it returns what is wrong or "".
type job struct {
	name string
	mk   func() func() string // prepares private arguments
}

func panicText(r interface{}) string { return fmt.Sprintf("panicked: %v", r) }

func safely(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = panicText(r)
		}
	}()
	return f()
}

// layoutJobs are the calls on one layout.
func layoutJobs(c *C, l *Layout, g *gen) (jobs []job) {
	data, v, dm := l.genInput(c)
	in := data
	if !dm.usedEOF && c.Chance(1, 2) {
		in = append(in[:len(in):len(in)], c.Bytes(3)...)
	}
	unpack := func(in []byte) {
		want := l.fresh()
		_, _, werr := l.decode(in, want)
		jobs = append(jobs, job{"Unpack", func() func() string {
			t := l.fresh()
			return func() string {
				err := restruct.Unpack(in, l.order(), t.Interface())
				if (err != nil) != (werr != nil) {
					return fmt.Sprintf("Unpack of %s into %s: %v; alone: %v", hexs(in), l.Top, err, werr)
				}
				if err == nil {
					if d := diff(t.Elem(), want.Elem()); d != "" {
						return fmt.Sprintf("Unpack of %s into %s: %s", hexs(in), l.Top, d)
					}
				}
				return ""
			}
		}})
	}
	unpack(in)
	if len(data) > 0 {
		unpack(data[:c.Int(len(data))])
	}
	n := c.Range(1, 2)
	for i := 0; i < n; i++ {
		v := clone(v)
		if i > 0 {
			c.vary(l, v, []int{vAll, vMisfit}[c.Int(2)])
		}
		want := clone(v)
		wdata, bits, werr := l.encode(want)
		byValue := l.Top.K == KStruct && c.Chance(1, 3)
		arg := func() interface{} {
			x := clone(v)
			if byValue {
				return x.Elem().Interface()
			}
			return x.Interface()
		}
		pack := func(a interface{}) string {
			d, err := restruct.Pack(l.order(), a)
			if (err != nil) != (werr != nil) || !bytes.Equal(d, wdata) && err == nil {
				return fmt.Sprintf("Pack of %s: %s, %v; alone: %s, %v", show(v), hexs(d), err, hexs(wdata), werr)
			}
			return ""
		}
		jobs = append(jobs, job{"Pack", func() func() string {
			a := arg()
			return func() string { return pack(a) }
		}})
		if werr != nil {
			continue
		}
		size := func(a interface{}) string {
			if n, err := restruct.BitSize(a); err != nil || n != bits {
				return fmt.Sprintf("BitSize of %s: %d, %v; alone: %d", show(v), n, err, bits)
			}
			if n, err := restruct.SizeOf(a); err != nil || n != (bits+7)/8 {
				return fmt.Sprintf("SizeOf of %s: %d, %v; alone: %d bits", show(v), n, err, bits)
			}
			return ""
		}
		jobs = append(jobs, job{"sizes", func() func() string {
			a := arg()
			return func() string { return size(a) }
		}})
		if g.used&(FCount|FParent|FStatic) == 0 && l.Top.K == KStruct && l.Top.St.Static == nil && !refersTo(l.Top) {
			// nothing is written to this value, so it may be shared
			shared := clone(v).Interface()
			jobs = append(jobs, job{"Pack shared", func() func() string { return func() string { return pack(shared) } }},
				job{"sizes shared", func() func() string { return func() string { return size(shared) } }})
		}
	}
	return jobs
}

// exprJobs evaluate expressions over an environment.
func exprJobs(c *C) (jobs []job) {
	e := genEnv(c, []MK{MUint16, MBool, MString})
	g := &xgen{c: c, e: e, kinds: []MK{MUint16}, ops: map[string]int{}}
	shared := e.resolver(c)
	for i := 0; i < 2; i++ {
		x := g.typed([]MK{MUint16, MBool, MString}[c.Int(3)], 3)
		text := exprText(x)
		want, werr := evalM(x, e.res)
		judge := func(got interface{}, err error) string {
			if (err != nil) != (werr != nil) {
				return fmt.Sprintf("%s: error %v; alone: %v", text, err, werr)
			}
			if err == nil && !sameResult(got, want) {
				return fmt.Sprintf("%s = %v; alone: %s", text, got, want)
			}
			return ""
		}
		jobs = append(jobs, job{"Eval", func() func() string {
			return func() string { return judge(expr.Eval(shared, text)) }
		}})
		prog, err := func() (p *expr.Program, err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%v", r)
				}
			}()
			return expr.ParseString(text), nil
		}()
		if err == nil {
			jobs = append(jobs, job{"EvalProgram", func() func() string {
				return func() string { return judge(expr.EvalProgram(shared, prog)) }
			}})
		}
	}
	return jobs
}

// typeJobs look up members of a new struct type through a resolver.
func typeJobs(c *C, l *Layout, v reflect.Value) (jobs []job) {
	if l.Top.K != KStruct || l.Top.St.Static != nil {
		return nil
	}
	type path struct {
		text string
		want uint64
	}
	var ps []path
	var walk func(t *Ty, v reflect.Value, pre string)
	walk = func(t *Ty, v reflect.Value, pre string) {
		for i, f := range t.St.Fields {
			if f.Blank || f.Unexp || f.Ignore || f.Embed {
				continue
			}
			n := pre + f.Name
			switch {
			case f.T.K.intk():
				w := reflect.ValueOf(uint64(0)).Type()
				ps = append(ps, path{n, v.Field(i).Convert(w).Uint()})
			case f.T.K == KStruct && f.T.St.Static == nil:
				walk(f.T, v.Field(i), n+".")
			}
		}
	}
	walk(l.Top, v.Elem(), "")
	if len(ps) == 0 {
		return nil
	}
	for i := 0; i < 3; i++ {
		p := ps[c.Int(len(ps))]
		direct := c.Chance(1, 2)
		jobs = append(jobs, job{"struct resolver", func() func() string {
			return func() string {
				var r expr.Resolver
				text := p.text
				if direct {
					r = expr.NewStructResolver(v.Elem())
				} else {
					r = expr.NewMapResolver(map[string]expr.Value{"V": expr.ValueOf(v.Interface())})
					text = "(*V)." + text
				}
				got, err := expr.Eval(r, text)
				if err != nil {
					return fmt.Sprintf("%s: %v", text, err)
				}
				x := reflect.ValueOf(got)
				if !x.CanConvert(reflect.TypeOf(uint64(0))) || x.Convert(reflect.TypeOf(uint64(0))).Uint() != p.want {
					return fmt.Sprintf("%s = %v; alone: %d", text, got, p.want)
				}
				return ""
			}
		}}, job{"TypeOf", func() func() string {
			return func() string {
				a, b := expr.TypeOf(v.Interface()), expr.TypeOf(v.Interface())
				if !expr.TypeEqual(a, b) {
					return "TypeOf is not the same type twice"
				}
				return ""
			}
		}})
	}
	return jobs
}

func runC20(c *C) {
	nl := c.Range(1, 4)
	var jobs []job
	for i := 0; i < nl; i++ {
		l, g := newLayout(c, FAll|FLeafTop|FNarrow, 0)
		if l.Top.K == KStruct && l.Top.St.Static == nil {
			// an ignored field makes the type a new one
			l.Top.St.Fields = append(l.Top.St.Fields, &Fd{Name: fmt.Sprintf("New%d", c.Draw(1<<40)), Ignore: true, T: ty(KBool)})
		}
		c.noteLayout(l)
		jobs = append(jobs, layoutJobs(c, l, g)...)
		if c.Chance(1, 3) {
			_, v, _ := l.genInput(c)
			jobs = append(jobs, typeJobs(c, l, v)...)
		}
		c.classLayout(l, g)
	}
	if c.Chance(1, 2) {
		jobs = append(jobs, exprJobs(c)...)
		c.Class("expressions")
	}
	n := c.Range(2, 16)
	if c.thor && c.Chance(1, 10) {
		n = 64
	}
	rounds := c.Range(1, 3)
	type plan struct {
		names []string
		f     []func() string
		spin  int
	}
	plans := make([]plan, n)
	same := c.Chance(1, 2) // every goroutine starts with the same call
	for i := range plans {
		k := c.Range(1, 5)
		for j := 0; j < k; j++ {
			x := jobs[c.Int(len(jobs))]
			if same && j == 0 {
				x = jobs[0]
			}
			plans[i].names = append(plans[i].names, x.name)
			for r := 0; r < rounds; r++ {
				plans[i].f = append(plans[i].f, x.mk())
			}
		}
		plans[i].spin = c.Int(3)
	}
	if c.verbose {
		for i, p := range plans {
			c.Note("goroutine %d: %v", i, p.names)
		}
	}
	errs := make([]string, n)
	var ready, done sync.WaitGroup
	start := make(chan bool)
	ready.Add(n)
	done.Add(n)
	for i := range plans {
		go func(i int) {
			defer done.Done()
			p := plans[i]
			ready.Done()
			<-start
			for j := 0; j < p.spin*200; j++ {
				runtime.Gosched()
			}
			for _, f := range p.f {
				if s := safely(f); s != "" && errs[i] == "" {
					errs[i] = s
				}
			}
		}(i)
	}
	ready.Wait()
	close(start)
	fin := make(chan bool)
	go func() { done.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(30 * time.Second):
		c.Fail("goroutines have not finished after 30 s (deadlock)")
	}
	for _, s := range errs {
		if s != "" {
			c.Fail("with %d goroutines: %s", n, s)
		}
	}
	c.ClassIf(n >= 8, "8 or more goroutines")
	c.ClassIf(same, "same first call everywhere")
	if n >= 2 && len(jobs) >= 2 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{ID: "C20", Run: runC20, Quick: 1500, Thor: 40000, Race: true,
		Rule:        "1 to 4 types that no call has seen before are generated (a unique ignored field makes them new), with packing, unpacking (whole and truncated), sizes, evaluations through shared resolvers and shared programs; 2 to 16 goroutines (64 in the thorough tier) start together and run random selections of these calls on private values, or on a shared value nothing writes to; every result is compared with what the reference model says for the call alone, in a build with the race detector; non-trivial: two or more different calls",
		Assumptions: []string{"interleavings are those the Go scheduler produces on this machine; the race detector sees races between accesses that happened in the run"},
		Tech:        "property-based testing under the race detector: generated calls on new types from many goroutines, differential against a reference codec"})
}
