package main

// A reference reader for expression texts, written from the language's
// documentation (Go's grammar plus the conditional operator and $'' strings). It
// says whether a text is an expression, and if so, which.

import (
	"errors"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type rtok struct {
	kind byte // i identifier, l literal, k keyword that is no operand, o operator
	s    string
	v    MV
}

var errMalformed = errors.New("malformed")

// refReader collects whether the text uses something that the documentation
// leaves open.
type refReader struct {
	open string
	t    []rtok
	p    int
}

const decD = `[0-9](_?[0-9])*`
const hexD = `[0-9a-fA-F](_?[0-9a-fA-F])*`

var reInt = regexp.MustCompile(`^(0|[1-9](_?[0-9])*|0(_?[0-7])+|0[xX](_?[0-9a-fA-F])+|0[oO](_?[0-7])+|0[bB](_?[01])+)$`)
var reFloat = regexp.MustCompile(`^(` + decD + `\.(` + decD + `)?([eE][+-]?` + decD + `)?|` + decD + `[eE][+-]?` + decD + `|\.` + decD + `([eE][+-]?` + decD + `)?)$`)
var reHexFloat = regexp.MustCompile(`^0[xX](_?` + hexD + `\.(` + hexD + `)?|_?` + hexD + `|\.` + hexD + `)[pP][+-]?` + decD + `$`)

var typeWords = map[string]bool{"bool": true, "byte": true, "float32": true, "float64": true, "int": true, "int8": true, "int16": true,
	"int32": true, "int64": true, "uint": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true, "uintptr": true}

func isLetter(r rune) bool {
	return r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80 && unicode.IsLetter(r)
}

func isDigit(r rune) bool { return r >= '0' && r <= '9' || r >= 0x80 && unicode.IsDigit(r) }

var ops2 = []string{"&&", "&^", "||", "<<", ">>", "<=", ">=", "==", "!="}

func (rr *refReader) lex(s string) error {
	i := 0
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == ' ' || r == '\t':
			i++
		case r == '\n' || r == '\r':
			rr.open = "line break"
			i++
		case isLetter(r):
			j := i
			for j < len(s) {
				r, n := utf8.DecodeRuneInString(s[j:])
				if !isLetter(r) && !isDigit(r) {
					break
				}
				j += n
			}
			w := s[i:j]
			switch {
			case w == "true" || w == "false":
				rr.t = append(rr.t, rtok{'l', w, MV{K: MUBool, B: w == "true"}})
			case w == "nil":
				rr.t = append(rr.t, rtok{'l', w, MV{K: MNil}})
			case typeWords[w]:
				rr.t = append(rr.t, rtok{kind: 'k', s: w})
			default:
				rr.t = append(rr.t, rtok{kind: 'i', s: w})
			}
			i = j
		case isDigit(r) || r == '.' && i+1 < len(s) && func() bool { q, _ := utf8.DecodeRuneInString(s[i+1:]); return isDigit(q) }():
			j := i
			for j < len(s) {
				r, n := utf8.DecodeRuneInString(s[j:])
				if isDigit(r) || strings.ContainsRune("abcdefABCDEFxXoOpP._", r) {
					j += n
					continue
				}
				if (r == '+' || r == '-') && j > i {
					w := strings.ToLower(s[i:j])
					if strings.HasPrefix(w, "0x") && strings.HasSuffix(w, "p") || !strings.HasPrefix(w, "0x") && strings.HasSuffix(w, "e") {
						j++
						continue
					}
				}
				break
			}
			w := s[i:j]
			plain := strings.ReplaceAll(w, "_", "")
			switch {
			case reInt.MatchString(w):
				v, err := strconv.ParseUint(plain, 0, 64)
				if err != nil {
					rr.open = "literal out of range"
				}
				rr.t = append(rr.t, rtok{'l', w, MV{K: MUInt, N: v}})
			case reFloat.MatchString(w) || reHexFloat.MatchString(w):
				v, err := strconv.ParseFloat(plain, 64)
				if err != nil {
					rr.open = "literal out of range"
				}
				rr.t = append(rr.t, rtok{'l', w, MV{K: MUFloat, F: v}})
			default:
				return errMalformed
			}
			i = j
		case r == '"' || r == '$':
			j := i + 1
			q := byte('"')
			if r == '$' {
				if j >= len(s) || s[j] != '\'' {
					return errMalformed
				}
				j, q = j+1, '\''
			}
			var b []byte
			for {
				if j >= len(s) {
					return errMalformed
				}
				if s[j] == q {
					j++
					break
				}
				x, k, err := rr.char(s[j:], q)
				if err != nil {
					return err
				}
				b = append(b, x...)
				j += k
			}
			rr.t = append(rr.t, rtok{'l', s[i:j], MV{K: MString, S: string(b)}})
			i = j
		case r == '\'':
			j := i + 1
			if j >= len(s) {
				return errMalformed
			}
			if s[j] == '\'' {
				if strings.HasPrefix(s[j:], "''") {
					rr.open = "unescaped quote as rune"
					rr.t = append(rr.t, rtok{'l', "'''", MV{K: MUInt, N: '\''}})
					i = j + 2
					continue
				}
				return errMalformed
			}
			x, k, err := rr.char(s[j:], '\'')
			if err != nil {
				return err
			}
			if j+k >= len(s) || s[j+k] != '\'' {
				return errMalformed
			}
			v := uint64(x[0])
			if len(x) > 1 {
				r, _ := utf8.DecodeRune(x)
				v = uint64(r)
			}
			j += k + 1
			rr.t = append(rr.t, rtok{'l', s[i:j], MV{K: MUInt, N: v}})
			i = j
		default:
			if i+1 < len(s) && inList(s[i:i+2], ops2) {
				rr.t = append(rr.t, rtok{kind: 'o', s: s[i : i+2]})
				i += 2
				continue
			}
			if r < 0x80 && strings.ContainsRune("+-*/%&|^<>!()[],.:?", r) {
				rr.t = append(rr.t, rtok{kind: 'o', s: s[i : i+1]})
				i += n
				continue
			}
			return errMalformed
		}
	}
	return nil
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// char reads one character or escape sequence of a literal.
func (rr *refReader) char(s string, q byte) ([]byte, int, error) {
	if s[0] != '\\' {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n <= 1 {
			rr.open = "invalid UTF-8"
		}
		if r == '\n' || r == '\r' {
			rr.open = "line break"
		}
		return []byte(s[:n]), n, nil
	}
	if len(s) < 2 {
		return nil, 0, errMalformed
	}
	if k := strings.IndexByte("abfnrtv\\", s[1]); k >= 0 {
		return []byte{"\a\b\f\n\r\t\v\\"[k]}, 2, nil
	}
	if s[1] == q {
		return []byte{q}, 2, nil
	}
	num := func(from, n, base, bits int) (uint64, error) {
		if len(s) < from+n {
			return 0, errMalformed
		}
		for _, ch := range []byte(s[from : from+n]) {
			if !hexDigit(ch) {
				return 0, errMalformed
			}
		}
		v, err := strconv.ParseUint(s[from:from+n], base, bits)
		if err != nil {
			return 0, errMalformed
		}
		return v, nil
	}
	switch {
	case s[1] >= '0' && s[1] <= '7':
		v, err := num(1, 3, 8, 8)
		return []byte{byte(v)}, 4, err
	case s[1] == 'x':
		v, err := num(2, 2, 16, 8)
		return []byte{byte(v)}, 4, err
	case s[1] == 'u' || s[1] == 'U':
		n := 4
		if s[1] == 'U' {
			n = 8
		}
		v, err := num(2, n, 16, 32)
		if err == nil && (v > 0x10ffff || v >= 0xd800 && v < 0xe000) {
			err = errMalformed
		}
		return []byte(string(rune(v))), 2 + n, err
	}
	return nil, 0, errMalformed
}

func (rr *refReader) peek(ops ...string) string {
	if rr.p < len(rr.t) && rr.t[rr.p].kind == 'o' && inList(rr.t[rr.p].s, ops) {
		return rr.t[rr.p].s
	}
	return ""
}

func (rr *refReader) eat(op string) bool {
	if rr.peek(op) != "" {
		rr.p++
		return true
	}
	return false
}

func (rr *refReader) must(op string) {
	if !rr.eat(op) {
		panic(errMalformed)
	}
}

var levels = [][]string{{"||"}, {"&&"}, {"==", "!=", "<", "<=", ">", ">="}, {"+", "-", "|", "^"}, {"*", "/", "%", "<<", ">>", "&", "&^"}}

func (rr *refReader) expr() *Ex {
	a := rr.binary(0)
	if rr.eat("?") {
		b := rr.expr()
		rr.must(":")
		return cond(a, b, rr.expr())
	}
	return a
}

func (rr *refReader) binary(l int) *Ex {
	if l == len(levels) {
		return rr.unary()
	}
	a := rr.binary(l + 1)
	for {
		op := rr.peek(levels[l]...)
		if op == "" {
			return a
		}
		rr.p++
		a = bin(op, a, rr.binary(l+1))
	}
}

func (rr *refReader) unary() *Ex {
	if op := rr.peek("+", "-", "!", "^", "*", "&"); op != "" {
		rr.p++
		if op == "&" {
			rr.open = "address operator"
		}
		return un(op, rr.unary())
	}
	return rr.primary()
}

func (rr *refReader) primary() *Ex {
	var e *Ex
	if rr.p >= len(rr.t) {
		panic(errMalformed)
	}
	t := rr.t[rr.p]
	rr.p++
	switch {
	case t.kind == 'i':
		e = id(t.s, MNone)
	case t.kind == 'l':
		e = lit(t.s, t.v)
	case t.kind == 'o' && t.s == "(":
		e = &Ex{Op: "paren", A: []*Ex{rr.expr()}}
		rr.must(")")
	default:
		panic(errMalformed)
	}
	for {
		switch {
		case rr.eat("."):
			if rr.p >= len(rr.t) {
				panic(errMalformed)
			}
			t := rr.t[rr.p]
			rr.p++
			if t.kind == 'k' || t.kind == 'l' && (t.s == "true" || t.s == "false" || t.s == "nil") {
				rr.open = "keyword as member"
			} else if t.kind != 'i' {
				panic(errMalformed)
			}
			e = dot(e, t.s)
		case rr.eat("["):
			i := rr.expr()
			rr.must("]")
			e = idx(e, i)
		case rr.eat("("):
			var a []*Ex
			for !rr.eat(")") {
				a = append(a, rr.expr())
				if rr.eat(",") {
					if rr.peek(")") != "" {
						rr.open = "trailing comma"
					}
					continue
				}
				rr.must(")")
				break
			}
			e = call(e, a...)
		default:
			return e
		}
	}
}

// refParse reads a text. open names what the documentation leaves open, if anything.
func refParse(s string) (e *Ex, open string, err error) {
	rr := &refReader{}
	if err := rr.lex(s); err != nil {
		return nil, rr.open, err
	}
	defer func() {
		if r := recover(); r != nil {
			if r == errMalformed {
				e, open, err = nil, rr.open, errMalformed
				return
			}
			panic(r)
		}
	}()
	e = rr.expr()
	if rr.p != len(rr.t) {
		return nil, rr.open, errMalformed
	}
	return e, rr.open, nil
}
