package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"
)

// randomCalls calls functions of any number of parameters and any types, which
// record what they are given and return one of their arguments.
func randomCalls(c *C) {
	if !c.Chance(1, 2) {
		return
	}
	g := &tygen{c: c}
	m := map[string]expr.Value{}
	n := c.OneOfInt(0, 1, 2, 3, 4, c.Int(13))
	if c.Chance(1, 40) {
		n = c.Range(13, 50)
	}
	var in []reflect.Type
	var args, want []interface{}
	var texts []string
	for i := 0; i < n; i++ {
		g.n = 30
		t := g.typ(2)
		for t.Kind() == reflect.Interface {
			t = g.typ(2)
		}
		v := reflect.New(t).Elem()
		g.fill(v, 1)
		name := fmt.Sprintf("arg%d", i)
		m[name] = expr.ValueOf(v.Interface())
		text := name
		k, scalar := kindMK[t.Kind()]
		switch {
		case scalar && c.Chance(1, 3):
			l := (&xgen{c: c}).lit(k)
			x, ok := convLit(l.V, k)
			if ok || l.V.K == k {
				text = l.S
				if l.V.K == k {
					x = l.V
				}
				v = reflect.ValueOf(x.goValue()).Convert(t)
			}
		case scalar && c.Chance(1, 3):
			// a type with the same underlying type
			o := reflect.New(xNamed[k]).Elem()
			if t == xNamed[k] {
				o = reflect.New(mkRT[k]).Elem()
			}
			o.Set(v.Convert(o.Type()))
			m[name] = expr.ValueOf(o.Interface())
		case (t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map) && c.Chance(1, 3):
			text = "nil"
			v = reflect.Zero(t)
		case c.Chance(1, 4):
			text = c.OneOf(name, "true ? "+name+" : "+name, "1 > 2 || false ? "+name+" : "+name,
				"false ? "+name+" : true && 3 > 2 ? "+name+" : "+name, "true ? false ? "+name+" : "+name+" : "+name)
			if c.Chance(1, 2) {
				text = "(" + text + ")"
			}
		}
		in = append(in, t)
		texts = append(texts, text)
		want = append(want, v.Interface())
	}
	res := c.Int(n + 1)
	out := reflect.TypeOf(0)
	if res < n {
		out = in[res]
	}
	fn := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{out}, false), func(a []reflect.Value) []reflect.Value {
		args = nil
		for _, x := range a {
			args = append(args, x.Interface())
		}
		if res < n {
			return a[res : res+1]
		}
		return []reflect.Value{reflect.ValueOf(len(a))}
	})
	m["fn"] = expr.ValueOf(fn.Interface())
	text := "fn(" + strings.Join(texts, c.OneOf(",", ", ", " , ")) + ")"
	got, err := c.Eval(expr.NewMapResolver(m), text)
	if err != nil {
		c.Fail("%s with %v: error %v", text, fn.Type(), err)
	}
	c.Class(fmt.Sprintf("call with %d arguments", n))
	if len(args) != n {
		c.Fail("%s with %v was given %d arguments", text, fn.Type(), len(args))
	}
	for i := range args {
		if !sameAny(args[i], want[i]) {
			c.Fail("%s with %v was given %T(%v) as argument %d instead of %T(%v)", text, fn.Type(), args[i], args[i], i, want[i], want[i])
		}
	}
	if res < n {
		if !sameAny(got, want[res]) && !sameReached(got, want[res]) {
			c.Fail("%s with %v = %T(%v), the function returned %T(%v)", text, fn.Type(), got, got, want[res], want[res])
		}
	} else if got != n {
		c.Fail("%s with %v = %T(%v), the function returned %d", text, fn.Type(), got, got, n)
	}
	// another number of arguments
	if c.Chance(1, 3) {
		bad := append(append([]string{}, texts...), c.OneOf("1", "nil", "arg0", "fn"))
		if n > 0 && c.Chance(1, 2) {
			bad = texts[:n-1]
		}
		text = "fn(" + strings.Join(bad, ", ") + ")"
		if got, err := c.Eval(expr.NewMapResolver(m), text); err == nil {
			c.Fail("%s with %v = %v", text, fn.Type(), got)
		}
	}
}

// sameAny compares values of any type; NaN is like NaN.
func sameAny(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || reflect.TypeOf(a) == reflect.TypeOf(b) && fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// Types of the same name.
var nameTwins = []interface{}{
	func() interface{} {
		type T struct{ A int8 }
		type U struct{ T T }
		return U{T{1}}
	}(),
	func() interface{} {
		type T struct{ B, A string }
		type U struct{ T *T }
		return U{&T{"b", "a"}}
	}(),
	func() interface{} {
		type T struct{ C, D, A []uint16 }
		type U struct{ X, T T }
		return U{T: T{A: []uint16{5}}}
	}(),
	func() interface{} {
		type T map[string]float32
		type U struct{ T T }
		return U{T{"A": 2}}
	}(),
	func() interface{} {
		type T [3]bool
		type U struct{ T T }
		return U{T{true}}
	}(),
	func() interface{} {
		type T uint8
		type U struct{ T T }
		return U{4}
	}(),
}

// namesakeFields reads values of different types that have the same names.
func namesakeFields(c *C) {
	if !c.Chance(1, 4) {
		return
	}
	c.Class("types of the same name")
	m := map[string]expr.Value{}
	for i, v := range nameTwins {
		m[fmt.Sprintf("v%d", i)] = expr.ValueOf(v)
	}
	r := expr.NewMapResolver(m)
	texts := []struct {
		s    string
		want interface{}
	}{
		{"v0.T.A", int8(1)}, {"v1.T.A", "a"}, {"v1.T.B", "b"}, {"v2.T.A[0]", uint16(5)}, {"v3.T[\"A\"]", float32(2)}, {"v4.T[0]", true}, {"v5.T", uint8(4)},
		{"v0.T.B", nil}, {"v0.T.C", nil}, {"v0.X", nil}, {"v1.T.C", nil}, {"v2.T.B", nil}, {"v5.T.A", nil}, {"v5.T[0]", nil}, {"v3.T.A", nil},
		{"v0.T.A + 1", int8(2)}, {"v5.T + v5.T", uint8(8)}, {"v1.T.A + v1.T.B", "ab"}, {"v0.T.A == v5.T", nil},
	}
	for i := 0; i < 5; i++ {
		t := texts[c.Int(len(texts))]
		got, err := c.Eval(r, t.s)
		if (err != nil) != (t.want == nil) || err == nil && !sameReached(got, t.want) {
			c.Fail("%s = %T(%v), %v; want %T(%v)", t.s, got, got, err, t.want, t.want)
		}
		// the same through a resolver for the struct
		if strings.Count(t.s, "v") == 1 {
			v := nameTwins[t.s[1]-'0']
			s := t.s[3:]
			got, err := c.Eval(expr.NewStructResolver(reflect.ValueOf(v)), s)
			if (err != nil) != (t.want == nil) || err == nil && !sameReached(got, t.want) {
				c.Fail("%s in %T = %T(%v), %v; want %T(%v)", s, v, got, got, err, t.want, t.want)
			}
		}
	}
	i := c.Int(len(nameTwins))
	v := nameTwins[i]
	checkType(c, expr.NewStructTypeResolver(v).TypeResolve("T"), reflect.TypeOf(v).Field(reflect.TypeOf(v).NumField()-1).Type, 0)
	checkType(c, expr.TypeOf(v), reflect.TypeOf(v), 0)
}

// manyResolvers combines up to a dozen resolvers that know some of the names.
func manyResolvers(c *C) {
	if !c.Chance(1, 3) {
		return
	}
	names := []string{"A", "B", "C", "D", "E"}
	first := map[string]interface{}{}
	mr, mt := expr.NewMetaResolver(), expr.NewMetaTypeResolver()
	n, rare := c.Range(0, 12), 4
	if c.Chance(1, 10) {
		n, rare = c.Range(12, 120), 60
	}
	var add func(k, depth int, mr *expr.MetaResolver, mt *expr.MetaTypeResolver)
	add = func(k, depth int, mr *expr.MetaResolver, mt *expr.MetaTypeResolver) {
		for i := 0; i < k; i++ {
			if depth > 0 && c.Chance(1, 5) { // combined resolvers combine too
				mr2, mt2 := expr.NewMetaResolver(), expr.NewMetaTypeResolver()
				mr.AddResolver(mr2)
				mt.AddResolver(mt2)
				add(c.Int(4), depth-1, mr2, mt2)
				continue
			}
			vals, types := map[string]expr.Value{}, map[string]expr.Type{}
			for _, s := range names {
				if !c.Chance(1, rare) {
					continue
				}
				x := []interface{}{c.Int(1000), int8(c.U64(7)), fmt.Sprint("s", c.Int(100)), c.Chance(1, 2), float64(c.Int(100)) / 4}[c.Int(5)]
				vals[s] = expr.ValueOf(x)
				types[s] = vals[s].Type()
				if _, ok := first[s]; !ok {
					first[s] = x
				}
			}
			mr.AddResolver(expr.NewMapResolver(vals))
			mt.AddResolver(expr.NewMapTypeResolver(types))
		}
	}
	add(n, 2, mr, mt)
	c.Class(fmt.Sprintf("combined resolvers: %d", n))
	for _, s := range names {
		got, err := c.Eval(mr, s)
		t := mt.TypeResolve(s)
		want, ok := first[s]
		if !ok {
			if err == nil || t != nil {
				c.Fail("%s is known to none of %d resolvers, but is %v of type %v", s, n, got, t)
			}
			continue
		}
		if err != nil || !sameReached(got, want) {
			c.Fail("%s = %T(%v), %v; the first of %d resolvers that knows it has %T(%v)", s, got, got, err, n, want, want)
		}
		if t == nil {
			c.Fail("%s has no type in %d combined resolvers", s, n)
		}
		checkType(c, t, reflect.TypeOf(want), 0)
	}
}
