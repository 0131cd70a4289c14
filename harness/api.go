package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
)

// All calls into the code under test go through these wrappers, so that a panic
// of the library is told from a defect of the harness.

type panicked struct {
	val   interface{}
	stack string
}

func guard(f func()) (p *panicked) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			p = &panicked{r, string(buf)}
		}
	}()
	f()
	return nil
}

func (c *C) noPanic(what string, p *panicked) {
	if p != nil {
		c.Fail("%s panicked: %v\n%s", what, p.val, p.stack)
	}
}

func (c *C) Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
	c.evals++
	c.noPanic("Pack", guard(func() { data, err = restruct.Pack(order, v) }))
	if err != nil && data != nil {
		c.Fail("Pack returned both an error (%v) and %d bytes", err, len(data))
	}
	return
}

func (c *C) Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
	c.evals++
	c.noPanic("Unpack", guard(func() { err = restruct.Unpack(data, order, v) }))
	return
}

func (c *C) SizeOf(v interface{}) (n int, err error) {
	c.evals++
	c.noPanic("SizeOf", guard(func() { n, err = restruct.SizeOf(v) }))
	return
}

func (c *C) BitSize(v interface{}) (n int, err error) {
	c.evals++
	c.noPanic("BitSize", guard(func() { n, err = restruct.BitSize(v) }))
	return
}

func (c *C) Eval(r expr.Resolver, src string) (v interface{}, err error) {
	c.evals++
	if n := len(src); n > 0 && n < 2000 {
		// Some texts are parsed first, from any reader, and then evaluated twice.
		switch n += int(src[n/2]); n % 5 {
		case 2:
			p, perr := c.Parse(src, nil)
			if perr != nil {
				return nil, perr
			}
			var w expr.Value
			c.noPanic(fmt.Sprintf("EvalProgramValue(%q)", src), guard(func() { w, err = expr.EvalProgramValue(r, p) }))
			if err != nil {
				return nil, err
			}
			if p := guard(func() { v = w.RawValue() }); p != nil {
				return nil, errors.New("no value")
			}
			return
		case 3, 4:
			p, perr := c.Parse(src, nil)
			if perr != nil {
				return nil, perr
			}
			for i := 0; i < 1+n%2; i++ {
				c.noPanic(fmt.Sprintf("EvalProgram(%q)", src), guard(func() { v, err = expr.EvalProgram(r, p) }))
			}
			return
		}
	}
	c.noPanic(fmt.Sprintf("Eval(%q)", src), guard(func() { v, err = expr.Eval(r, src) }))
	return
}

// brokenReader fails in place of the end of the text.
type brokenReader struct {
	*strings.Reader
	err error
}

func (r *brokenReader) ReadRune() (rune, int, error) {
	c, n, err := r.Reader.ReadRune()
	if err != nil {
		err = r.err
	}
	return c, n, err
}

// Parse parses a text, read in one of several ways. That it does not parse is reported
// by a panic, as the library documents no other way, and turned into an error here.
func (c *C) Parse(src string, fail error) (p *expr.Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			p, err = nil, fmt.Errorf("%v", r)
		}
	}()
	switch {
	case fail != nil:
		return expr.Parse(&brokenReader{strings.NewReader(src), fail}), nil
	case len(src)%3 == 0:
		return expr.Parse(strings.NewReader(src)), nil
	case len(src)%3 == 1:
		return expr.Parse(bufio.NewReaderSize(strings.NewReader(src), 16)), nil
	}
	return expr.ParseString(src), nil
}

func orderName(o binary.ByteOrder) string {
	if o == nil {
		return "-"
	}
	return o.String()
}
