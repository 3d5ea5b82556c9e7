// Package lua is a small interpreter for the part of Lua 5.1 that redis scripts
// use.  It exists because no redis server is available in the sandbox; the
// scripts under test are executed by it exactly as the client sends them.
package lua

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Value is nil, bool, float64, string, *Table or Func.
type Value interface{}

// Func is a callable value.
type Func func(args []Value) ([]Value, error)

// Table is a Lua table.
type Table struct {
	arr  []Value // 1..n
	hash map[Value]Value
	keys []Value // insertion order of hash
}

func NewTable() *Table { return &Table{hash: map[Value]Value{}} }

func (t *Table) Get(k Value) Value {
	if f, ok := k.(float64); ok {
		if i := int(f); float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	return t.hash[k]
}

func (t *Table) Set(k, v Value) error {
	if k == nil {
		return errors.New("table index is nil")
	}
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 {
			if i <= len(t.arr) {
				t.arr[i-1] = v
				if v == nil && i == len(t.arr) {
					n := len(t.arr) - 1
					for n > 0 && t.arr[n-1] == nil {
						n--
					}
					t.arr = t.arr[:n]
				}
				return nil
			}
			if i == len(t.arr)+1 {
				if v == nil {
					delete(t.hash, k)
					return nil
				}
				t.del(k)
				t.arr = append(t.arr, v)
				for {
					nk := float64(len(t.arr) + 1)
					nv, ok := t.hash[nk]
					if !ok {
						break
					}
					t.del(nk)
					t.arr = append(t.arr, nv)
				}
				return nil
			}
		}
	}
	if v == nil {
		t.del(k)
		return nil
	}
	if _, ok := t.hash[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.hash[k] = v
	return nil
}

func (t *Table) del(k Value) {
	if _, ok := t.hash[k]; ok {
		delete(t.hash, k)
		for i, x := range t.keys {
			if x == k {
				t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
				break
			}
		}
	}
}

// Len is the border of the array part.
func (t *Table) Len() int { return len(t.arr) }

// Append adds to the array part.
func (t *Table) Append(v Value) { t.Set(float64(len(t.arr)+1), v) }

func (t *Table) next(k Value) (Value, Value, error) {
	i := 0
	if k != nil {
		if f, ok := k.(float64); ok && f >= 1 && int(f) <= len(t.arr) && float64(int(f)) == f {
			i = int(f)
		} else {
			i = -1
			for j, x := range t.keys {
				if x == k {
					i = len(t.arr) + j + 1
				}
			}
			if i < 0 {
				return nil, nil, errors.New("invalid key to 'next'")
			}
		}
	}
	for ; i < len(t.arr); i++ {
		if t.arr[i] != nil {
			return float64(i + 1), t.arr[i], nil
		}
	}
	if j := i - len(t.arr); j < len(t.keys) {
		return t.keys[j], t.hash[t.keys[j]], nil
	}
	return nil, nil, nil
}

// ---------------------------------------------------------------- lexer

type token struct {
	kind string // name, string, number, op, eof
	s    string
	n    float64
	line int
}

var keywords = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true,
	"function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true,
	"true": true, "until": true, "while": true}

func lex(src string) ([]token, error) {
	var out []token
	line := 1
	i := 0
	isA := func(b byte) bool { return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
	isD := func(b byte) bool { return b >= '0' && b <= '9' }
	longOpen := func(i int) int {
		if i >= len(src) || src[i] != '[' {
			return -1
		}
		j := i + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j < len(src) && src[j] == '[' {
			return j - i - 1
		}
		return -1
	}
	long := func(lvl int) (string, error) {
		i += lvl + 2
		cl := "]" + strings.Repeat("=", lvl) + "]"
		k := strings.Index(src[i:], cl)
		if k < 0 {
			return "", errors.New("unfinished long string")
		}
		s := src[i : i+k]
		line += strings.Count(s, "\n")
		i += k + len(cl)
		s = strings.TrimPrefix(s, "\r")
		s = strings.TrimPrefix(s, "\n")
		return s, nil
	}
	for i < len(src) {
		b := src[i]
		switch {
		case b == '\n':
			line++
			i++
		case b == ' ' || b == '\t' || b == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if lvl := longOpen(i); lvl >= 0 {
				if _, err := long(lvl); err != nil {
					return nil, err
				}
			} else {
				for i < len(src) && src[i] != '\n' {
					i++
				}
			}
		case isA(b):
			j := i
			for j < len(src) && (isA(src[j]) || isD(src[j])) {
				j++
			}
			w := src[i:j]
			k := "name"
			if keywords[w] {
				k = "op"
			}
			out = append(out, token{kind: k, s: w, line: line})
			i = j
		case isD(b) || b == '.' && i+1 < len(src) && isD(src[i+1]):
			j := i
			if b == '0' && j+1 < len(src) && (src[j+1] == 'x' || src[j+1] == 'X') {
				j += 2
				for j < len(src) && (isD(src[j]) || isA(src[j])) {
					j++
				}
				n, err := strconv.ParseUint(src[i+2:j], 16, 64)
				if err != nil {
					return nil, fmt.Errorf("malformed number near '%s'", src[i:j])
				}
				out = append(out, token{kind: "number", n: float64(n), line: line})
				i = j
				continue
			}
			for j < len(src) && (isD(src[j]) || src[j] == '.' || src[j] == 'e' || src[j] == 'E' ||
				(src[j] == '+' || src[j] == '-') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			n, err := strconv.ParseFloat(src[i:j], 64)
			if err != nil {
				return nil, fmt.Errorf("malformed number near '%s'", src[i:j])
			}
			out = append(out, token{kind: "number", n: n, line: line})
			i = j
		case b == '"' || b == '\'':
			i++
			var sb strings.Builder
			for {
				if i >= len(src) || src[i] == '\n' {
					return nil, errors.New("unfinished string")
				}
				if src[i] == b {
					i++
					break
				}
				if src[i] == '\\' {
					i++
					if i >= len(src) {
						return nil, errors.New("unfinished string")
					}
					switch e := src[i]; {
					case e == 'n':
						sb.WriteByte('\n')
					case e == 't':
						sb.WriteByte('\t')
					case e == 'r':
						sb.WriteByte('\r')
					case e == 'a':
						sb.WriteByte(7)
					case e == 'b':
						sb.WriteByte(8)
					case e == 'f':
						sb.WriteByte(12)
					case e == 'v':
						sb.WriteByte(11)
					case isD(e):
						n := 0
						k := 0
						for k < 3 && i < len(src) && isD(src[i]) {
							n = n*10 + int(src[i]-'0')
							i++
							k++
						}
						i--
						sb.WriteByte(byte(n))
					default:
						sb.WriteByte(e)
					}
					i++
					continue
				}
				sb.WriteByte(src[i])
				i++
			}
			out = append(out, token{kind: "string", s: sb.String(), line: line})
		case b == '[' && longOpen(i) >= 0:
			s, err := long(longOpen(i))
			if err != nil {
				return nil, err
			}
			out = append(out, token{kind: "string", s: s, line: line})
		default:
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, fmt.Errorf("unexpected symbol near '%c'", b)
			}
			out = append(out, token{kind: "op", s: op, line: line})
			i += len(op)
		}
	}
	return append(out, token{kind: "eof", line: line}), nil
}

// ---------------------------------------------------------------- AST

type expr interface{}
type stmt interface{}

type (
	eConst struct{ v Value }
	eName  struct{ n string }
	eVar   struct{}
	eIndex struct{ o, k expr }
	eCall  struct {
		f    expr
		args []expr
		line int
	}
	eMeth struct {
		o    expr
		n    string
		args []expr
		line int
	}
	eFunc struct {
		params []string
		vararg bool
		body   []stmt
	}
	eBin struct {
		op   string
		a, b expr
		line int
	}
	eUn struct {
		op string
		a  expr
	}
	eTable struct {
		arr  []expr
		keys []expr
		vals []expr
	}
	eParen struct{ a expr }

	sLocal struct {
		names []string
		vals  []expr
	}
	sAssign struct {
		lhs []expr
		rhs []expr
	}
	sCall struct{ c expr }
	sDo   struct{ b []stmt }
	sIf   struct {
		conds  []expr
		blocks [][]stmt
		els    []stmt
	}
	sWhile struct {
		c expr
		b []stmt
	}
	sRepeat struct {
		b []stmt
		c expr
	}
	sFor struct {
		n          string
		a, b, step expr
		body       []stmt
	}
	sForIn struct {
		names []string
		exprs []expr
		body  []stmt
	}
	sReturn    struct{ vals []expr }
	sBreak     struct{}
	sLocalFunc struct {
		n string
		f expr
	}
)

type parser struct {
	t []token
	p int
}

func (p *parser) peek() token { return p.t[p.p] }
func (p *parser) is(s string) bool {
	return p.t[p.p].kind == "op" && p.t[p.p].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("'" + s + "' expected near '" + p.peek().s + "'")
	}
}
func (p *parser) fail(m string) { panic(fmt.Errorf("line %d: %s", p.peek().line, m)) }
func (p *parser) name() string {
	t := p.peek()
	if t.kind != "name" {
		p.fail("<name> expected near '" + t.s + "'")
	}
	p.p++
	return t.s
}

func (p *parser) blockEnd() bool {
	t := p.peek()
	return t.kind == "eof" || t.kind == "op" && (t.s == "end" || t.s == "else" || t.s == "elseif" || t.s == "until")
}

func (p *parser) block() []stmt {
	var out []stmt
	for !p.blockEnd() {
		if p.is("return") {
			p.p++
			var v []expr
			if !p.blockEnd() && !p.is(";") {
				v = p.exprs()
			}
			p.accept(";")
			out = append(out, sReturn{v})
			if !p.blockEnd() {
				p.fail("'<eof>' expected near '" + p.peek().s + "'")
			}
			break
		}
		if p.accept("break") {
			p.accept(";")
			out = append(out, sBreak{})
			break
		}
		out = append(out, p.stmt())
		p.accept(";")
	}
	return out
}

func (p *parser) stmt() stmt {
	switch {
	case p.accept("do"):
		b := p.block()
		p.expect("end")
		return sDo{b}
	case p.accept("if"):
		s := sIf{}
		s.conds = append(s.conds, p.expr(0))
		p.expect("then")
		s.blocks = append(s.blocks, p.block())
		for {
			if p.accept("elseif") {
				s.conds = append(s.conds, p.expr(0))
				p.expect("then")
				s.blocks = append(s.blocks, p.block())
				continue
			}
			if p.accept("else") {
				s.els = p.block()
			}
			p.expect("end")
			return s
		}
	case p.accept("while"):
		c := p.expr(0)
		p.expect("do")
		b := p.block()
		p.expect("end")
		return sWhile{c, b}
	case p.accept("repeat"):
		b := p.block()
		p.expect("until")
		return sRepeat{b, p.expr(0)}
	case p.accept("for"):
		n := p.name()
		if p.accept("=") {
			a := p.expr(0)
			p.expect(",")
			b := p.expr(0)
			var st expr = eConst{1.0}
			if p.accept(",") {
				st = p.expr(0)
			}
			p.expect("do")
			body := p.block()
			p.expect("end")
			return sFor{n, a, b, st, body}
		}
		names := []string{n}
		for p.accept(",") {
			names = append(names, p.name())
		}
		p.expect("in")
		ex := p.exprs()
		p.expect("do")
		body := p.block()
		p.expect("end")
		return sForIn{names, ex, body}
	case p.accept("function"):
		var target expr = eName{p.name()}
		self := false
		for p.is(".") || p.is(":") {
			m := p.is(":")
			p.p++
			target = eIndex{target, eConst{p.name()}}
			if m {
				self = true
				break
			}
		}
		f := p.funcBody()
		if self {
			f.params = append([]string{"self"}, f.params...)
		}
		return sAssign{[]expr{target}, []expr{f}}
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			return sLocalFunc{n, p.funcBody()}
		}
		names := []string{p.name()}
		for p.accept(",") {
			names = append(names, p.name())
		}
		var v []expr
		if p.accept("=") {
			v = p.exprs()
		}
		return sLocal{names, v}
	}
	e := p.suffixed()
	if p.is("=") || p.is(",") {
		l := []expr{e}
		for p.accept(",") {
			l = append(l, p.suffixed())
		}
		p.expect("=")
		return sAssign{l, p.exprs()}
	}
	switch e.(type) {
	case eCall, eMeth:
		return sCall{e}
	}
	p.fail("syntax error near '" + p.peek().s + "'")
	return nil
}

func (p *parser) exprs() []expr {
	out := []expr{p.expr(0)}
	for p.accept(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func (p *parser) funcBody() eFunc {
	f := eFunc{}
	p.expect("(")
	for !p.is(")") {
		if p.accept("...") {
			f.vararg = true
			break
		}
		f.params = append(f.params, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	f.body = p.block()
	p.expect("end")
	return f
}

var prio = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *parser) expr(min int) expr {
	var l expr
	t := p.peek()
	if t.kind == "op" && (t.s == "not" || t.s == "-" || t.s == "#") {
		p.p++
		l = eUn{t.s, p.expr(8)}
	} else {
		l = p.simple()
	}
	for {
		t := p.peek()
		if t.kind != "op" {
			return l
		}
		pr, ok := prio[t.s]
		if !ok || pr[0] <= min {
			return l
		}
		p.p++
		r := p.expr(pr[1])
		l = eBin{t.s, l, r, t.line}
	}
}

func (p *parser) simple() expr {
	t := p.peek()
	switch t.kind {
	case "number":
		p.p++
		return eConst{t.n}
	case "string":
		p.p++
		return eConst{t.s}
	case "op":
		switch t.s {
		case "nil":
			p.p++
			return eConst{nil}
		case "true":
			p.p++
			return eConst{true}
		case "false":
			p.p++
			return eConst{false}
		case "...":
			p.p++
			return eVar{}
		case "{":
			return p.table()
		case "function":
			p.p++
			return p.funcBody()
		}
	}
	return p.suffixed()
}

func (p *parser) table() expr {
	p.expect("{")
	t := eTable{}
	for !p.is("}") {
		if p.accept("[") {
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			t.keys = append(t.keys, k)
			t.vals = append(t.vals, p.expr(0))
		} else if p.peek().kind == "name" && p.t[p.p+1].kind == "op" && p.t[p.p+1].s == "=" {
			k := p.name()
			p.expect("=")
			t.keys = append(t.keys, eConst{k})
			t.vals = append(t.vals, p.expr(0))
		} else {
			t.arr = append(t.arr, p.expr(0))
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	p.expect("}")
	return t
}

func (p *parser) suffixed() expr {
	var e expr
	if p.accept("(") {
		e = eParen{p.expr(0)}
		p.expect(")")
	} else {
		e = eName{p.name()}
	}
	for {
		t := p.peek()
		switch {
		case t.kind == "op" && t.s == ".":
			p.p++
			e = eIndex{e, eConst{p.name()}}
		case t.kind == "op" && t.s == "[":
			p.p++
			k := p.expr(0)
			p.expect("]")
			e = eIndex{e, k}
		case t.kind == "op" && t.s == ":":
			p.p++
			n := p.name()
			e = eMeth{e, n, p.args(), t.line}
		case t.kind == "string" || t.kind == "op" && (t.s == "(" || t.s == "{"):
			e = eCall{e, p.args(), t.line}
		default:
			return e
		}
	}
}

func (p *parser) args() []expr {
	t := p.peek()
	if t.kind == "string" {
		p.p++
		return []expr{eConst{t.s}}
	}
	if p.is("{") {
		return []expr{p.table()}
	}
	p.expect("(")
	var a []expr
	if !p.is(")") {
		a = p.exprs()
	}
	p.expect(")")
	return a
}

// ---------------------------------------------------------------- evaluation

type scope struct {
	vars map[string]*Value
	up   *scope
	va   []Value
	fn   bool
}

func (s *scope) find(n string) *Value {
	for x := s; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v
		}
	}
	return nil
}

func (s *scope) declare(n string, v Value) { s.vars[n] = &v }

func sub(s *scope) *scope { return &scope{vars: map[string]*Value{}, up: s} }

type interp struct {
	globals *Table
	steps   int
}

// ErrVal is an error raised with error() or redis.call.
type ErrVal struct{ V Value }

func (e ErrVal) Error() string { return ToString(e.V) }

type ctl int

const (
	next ctl = iota
	brk
	ret
)

// parsed keeps the syntax trees of scripts already seen.
var parsed sync.Map

// Run executes a script with the given globals.
func Run(src string, globals map[string]Value) (out []Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	var body []stmt
	if b, ok := parsed.Load(src); ok {
		body = b.([]stmt)
	} else {
		toks, err := lex(src)
		if err != nil {
			return nil, err
		}
		p := &parser{t: toks}
		body = p.block()
		if p.peek().kind != "eof" {
			p.fail("'<eof>' expected near '" + p.peek().s + "'")
		}
		parsed.Store(src, body)
	}
	in := &interp{globals: NewTable()}
	in.stdlib()
	for k, v := range globals {
		in.globals.Set(k, v)
	}
	c, vals, err := in.block(body, sub(nil))
	if err != nil {
		return nil, err
	}
	if c == ret {
		return vals, nil
	}
	return nil, nil
}

// Check compiles only.
func Check(src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = r.(error)
		}
	}()
	toks, err := lex(src)
	if err != nil {
		return err
	}
	p := &parser{t: toks}
	p.block()
	if p.peek().kind != "eof" {
		p.fail("'<eof>' expected near '" + p.peek().s + "'")
	}
	return nil
}

func truth(v Value) bool { return v != nil && v != false }

func (in *interp) block(b []stmt, s *scope) (ctl, []Value, error) {
	for _, st := range b {
		in.steps++
		if in.steps > 5000000 {
			return next, nil, errors.New("script killed: too many steps")
		}
		c, v, err := in.exec(st, s)
		if err != nil || c != next {
			return c, v, err
		}
	}
	return next, nil, nil
}

func (in *interp) exec(st stmt, s *scope) (ctl, []Value, error) {
	switch x := st.(type) {
	case sLocal:
		v, err := in.multi(x.vals, s)
		if err != nil {
			return next, nil, err
		}
		for i, n := range x.names {
			var w Value
			if i < len(v) {
				w = v[i]
			}
			s.declare(n, w)
		}
	case sLocalFunc:
		s.declare(x.n, nil)
		f, err := in.eval(x.f, s)
		if err != nil {
			return next, nil, err
		}
		*s.find(x.n) = f
	case sAssign:
		v, err := in.multi(x.rhs, s)
		if err != nil {
			return next, nil, err
		}
		for i, l := range x.lhs {
			var w Value
			if i < len(v) {
				w = v[i]
			}
			if err := in.assign(l, w, s); err != nil {
				return next, nil, err
			}
		}
	case sCall:
		_, err := in.multi([]expr{x.c}, s)
		return next, nil, err
	case sDo:
		return in.block(x.b, sub(s))
	case sIf:
		for i, c := range x.conds {
			v, err := in.eval(c, s)
			if err != nil {
				return next, nil, err
			}
			if truth(v) {
				return in.block(x.blocks[i], sub(s))
			}
		}
		return in.block(x.els, sub(s))
	case sWhile:
		for {
			v, err := in.eval(x.c, s)
			if err != nil {
				return next, nil, err
			}
			if !truth(v) {
				return next, nil, nil
			}
			c, r, err := in.block(x.b, sub(s))
			if err != nil || c == ret {
				return c, r, err
			}
			if c == brk {
				return next, nil, nil
			}
			if in.steps++; in.steps > 5000000 {
				return next, nil, errors.New("script killed: too many steps")
			}
		}
	case sRepeat:
		for {
			bs := sub(s)
			c, r, err := in.block(x.b, bs)
			if err != nil || c == ret {
				return c, r, err
			}
			if c == brk {
				return next, nil, nil
			}
			v, err := in.eval(x.c, bs)
			if err != nil {
				return next, nil, err
			}
			if truth(v) {
				return next, nil, nil
			}
			if in.steps++; in.steps > 5000000 {
				return next, nil, errors.New("script killed: too many steps")
			}
		}
	case sFor:
		var lim [3]float64
		for i, e := range []expr{x.a, x.b, x.step} {
			v, err := in.eval(e, s)
			if err != nil {
				return next, nil, err
			}
			f, ok := ToNumber(v)
			if !ok {
				return next, nil, errors.New("'for' limits must be numbers")
			}
			lim[i] = f
		}
		for i := lim[0]; lim[2] > 0 && i <= lim[1] || lim[2] <= 0 && i >= lim[1]; i += lim[2] {
			bs := sub(s)
			bs.declare(x.n, i)
			c, r, err := in.block(x.body, bs)
			if err != nil || c == ret {
				return c, r, err
			}
			if c == brk {
				break
			}
			if in.steps++; in.steps > 5000000 {
				return next, nil, errors.New("script killed: too many steps")
			}
		}
	case sForIn:
		v, err := in.multi(x.exprs, s)
		if err != nil {
			return next, nil, err
		}
		for len(v) < 3 {
			v = append(v, nil)
		}
		f, st, ctlv := v[0], v[1], v[2]
		for {
			r, err := in.call(f, []Value{st, ctlv})
			if err != nil {
				return next, nil, err
			}
			if len(r) == 0 || r[0] == nil {
				return next, nil, nil
			}
			ctlv = r[0]
			bs := sub(s)
			for i, n := range x.names {
				var w Value
				if i < len(r) {
					w = r[i]
				}
				bs.declare(n, w)
			}
			c, rv, err := in.block(x.body, bs)
			if err != nil || c == ret {
				return c, rv, err
			}
			if c == brk {
				return next, nil, nil
			}
		}
	case sReturn:
		v, err := in.multi(x.vals, s)
		return ret, v, err
	case sBreak:
		return brk, nil, nil
	}
	return next, nil, nil
}

func (in *interp) assign(l expr, v Value, s *scope) error {
	switch x := l.(type) {
	case eName:
		if p := s.find(x.n); p != nil {
			*p = v
			return nil
		}
		return fmt.Errorf("Script attempted to create global variable '%s'", x.n)
	case eIndex:
		o, err := in.eval(x.o, s)
		if err != nil {
			return err
		}
		k, err := in.eval(x.k, s)
		if err != nil {
			return err
		}
		t, ok := o.(*Table)
		if !ok {
			return fmt.Errorf("attempt to index a %s value", TypeOf(o))
		}
		return t.Set(k, v)
	}
	return errors.New("cannot assign")
}

func (in *interp) multi(es []expr, s *scope) ([]Value, error) {
	var out []Value
	for i, e := range es {
		switch x := e.(type) {
		case eCall, eMeth, eVar:
			v, err := in.evalMulti(x, s)
			if err != nil {
				return nil, err
			}
			if i == len(es)-1 {
				out = append(out, v...)
			} else if len(v) > 0 {
				out = append(out, v[0])
			} else {
				out = append(out, nil)
			}
		default:
			v, err := in.eval(e, s)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
	}
	return out, nil
}

func (in *interp) evalMulti(e expr, s *scope) ([]Value, error) {
	switch x := e.(type) {
	case eVar:
		for sc := s; sc != nil; sc = sc.up {
			if sc.fn {
				return sc.va, nil
			}
		}
		return nil, nil
	case eCall:
		f, err := in.eval(x.f, s)
		if err != nil {
			return nil, err
		}
		a, err := in.multi(x.args, s)
		if err != nil {
			return nil, err
		}
		return in.call(f, a)
	case eMeth:
		o, err := in.eval(x.o, s)
		if err != nil {
			return nil, err
		}
		f, err := in.index(o, x.n)
		if err != nil {
			return nil, err
		}
		a, err := in.multi(x.args, s)
		if err != nil {
			return nil, err
		}
		return in.call(f, append([]Value{o}, a...))
	}
	return nil, errors.New("not a call")
}

func (in *interp) call(f Value, a []Value) ([]Value, error) {
	fn, ok := f.(*fnVal)
	if !ok {
		return nil, fmt.Errorf("attempt to call a %s value", TypeOf(f))
	}
	return fn.f(a)
}

type fnVal struct{ f Func }

// Fn wraps a Go function as a Lua value.
func Fn(f Func) Value { return &fnVal{f} }

func (in *interp) index(o, k Value) (Value, error) {
	switch x := o.(type) {
	case *Table:
		return x.Get(k), nil
	case string:
		t, _ := in.globals.Get("string").(*Table)
		return t.Get(k), nil
	}
	return nil, fmt.Errorf("attempt to index a %s value", TypeOf(o))
}

func (in *interp) eval(e expr, s *scope) (Value, error) {
	switch x := e.(type) {
	case eConst:
		return x.v, nil
	case eParen:
		return in.eval(x.a, s)
	case eName:
		if p := s.find(x.n); p != nil {
			return *p, nil
		}
		v := in.globals.Get(x.n)
		if v == nil {
			return nil, fmt.Errorf("Script attempted to access nonexistent global variable '%s'", x.n)
		}
		return v, nil
	case eVar, eCall, eMeth:
		v, err := in.evalMulti(x, s)
		if err != nil || len(v) == 0 {
			return nil, err
		}
		return v[0], nil
	case eIndex:
		o, err := in.eval(x.o, s)
		if err != nil {
			return nil, err
		}
		k, err := in.eval(x.k, s)
		if err != nil {
			return nil, err
		}
		return in.index(o, k)
	case eFunc:
		return Fn(func(a []Value) ([]Value, error) {
			fs := sub(s)
			fs.fn = true
			for i, n := range x.params {
				var v Value
				if i < len(a) {
					v = a[i]
				}
				fs.declare(n, v)
			}
			if x.vararg && len(a) > len(x.params) {
				fs.va = a[len(x.params):]
			}
			c, v, err := in.block(x.body, fs)
			if err != nil || c != ret {
				return nil, err
			}
			return v, nil
		}), nil
	case eTable:
		t := NewTable()
		for i, k := range x.keys {
			kv, err := in.eval(k, s)
			if err != nil {
				return nil, err
			}
			v, err := in.eval(x.vals[i], s)
			if err != nil {
				return nil, err
			}
			if err := t.Set(kv, v); err != nil {
				return nil, err
			}
		}
		v, err := in.multi(x.arr, s)
		if err != nil {
			return nil, err
		}
		// positional values, keeping holes as redis would see them
		t.arr = v
		for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
			t.arr = t.arr[:len(t.arr)-1]
		}
		return t, nil
	case eUn:
		v, err := in.eval(x.a, s)
		if err != nil {
			return nil, err
		}
		switch x.op {
		case "not":
			return !truth(v), nil
		case "-":
			f, ok := ToNumber(v)
			if !ok {
				return nil, fmt.Errorf("attempt to perform arithmetic on a %s value", TypeOf(v))
			}
			return -f, nil
		default:
			switch y := v.(type) {
			case string:
				return float64(len(y)), nil
			case *Table:
				return float64(y.Len()), nil
			}
			return nil, fmt.Errorf("attempt to get length of a %s value", TypeOf(v))
		}
	case eBin:
		a, err := in.eval(x.a, s)
		if err != nil {
			return nil, err
		}
		if x.op == "and" {
			if !truth(a) {
				return a, nil
			}
			return in.eval(x.b, s)
		}
		if x.op == "or" {
			if truth(a) {
				return a, nil
			}
			return in.eval(x.b, s)
		}
		b, err := in.eval(x.b, s)
		if err != nil {
			return nil, err
		}
		return binop(x.op, a, b)
	}
	return nil, fmt.Errorf("cannot evaluate %T", e)
}

func binop(op string, a, b Value) (Value, error) {
	switch op {
	case "==":
		return a == b, nil
	case "~=":
		return a != b, nil
	case "..":
		as, ok1 := concatStr(a)
		bs, ok2 := concatStr(b)
		if !ok1 || !ok2 {
			bad := a
			if ok1 {
				bad = b
			}
			return nil, fmt.Errorf("attempt to concatenate a %s value", TypeOf(bad))
		}
		return as + bs, nil
	case "<", ">", "<=", ">=":
		if op == ">" {
			return binop("<", b, a)
		}
		if op == ">=" {
			return binop("<=", b, a)
		}
		if x, ok := a.(float64); ok {
			if y, ok := b.(float64); ok {
				if op == "<" {
					return x < y, nil
				}
				return x <= y, nil
			}
		}
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok {
				if op == "<" {
					return x < y, nil
				}
				return x <= y, nil
			}
		}
		return nil, fmt.Errorf("attempt to compare %s with %s", TypeOf(a), TypeOf(b))
	}
	x, ok1 := ToNumber(a)
	y, ok2 := ToNumber(b)
	if !ok1 || !ok2 {
		bad := a
		if ok1 {
			bad = b
		}
		return nil, fmt.Errorf("attempt to perform arithmetic on a %s value", TypeOf(bad))
	}
	switch op {
	case "+":
		return x + y, nil
	case "-":
		return x - y, nil
	case "*":
		return x * y, nil
	case "/":
		return x / y, nil
	case "%":
		return x - math.Floor(x/y)*y, nil
	case "^":
		return math.Pow(x, y), nil
	}
	return nil, errors.New("bad operator " + op)
}

func concatStr(v Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case float64:
		return FormatNumber(x), true
	}
	return "", false
}

// TypeOf is Lua's type().
func TypeOf(v Value) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *Table:
		return "table"
	}
	return "function"
}

// FormatNumber is %.14g.
func FormatNumber(f float64) string {
	if math.IsInf(f, 1) {
		return "inf"
	}
	if math.IsInf(f, -1) {
		return "-inf"
	}
	if math.IsNaN(f) {
		return "nan"
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	s := strconv.FormatFloat(f, 'g', 14, 64)
	return s
}

// ToString is tostring().
func ToString(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return FormatNumber(x)
	case string:
		return x
	case *Table:
		if e, ok := x.Get("err").(string); ok {
			return e
		}
		return fmt.Sprintf("table: %p", x)
	}
	return "function"
}

// ToNumber converts as arithmetic does.
func ToNumber(v Value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		s := strings.TrimSpace(x)
		if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
			n, err := strconv.ParseUint(s[2:], 16, 64)
			return float64(n), err == nil
		}
		if strings.ContainsAny(s, "_xXpPnNiI") {
			return 0, false
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return 0, false
		}
		return f, true
	}
	return 0, false
}

func arg(a []Value, i int) Value {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func (in *interp) stdlib() {
	g := in.globals
	g.Set("_VERSION", "Lua 5.1")
	g.Set("tonumber", Fn(func(a []Value) ([]Value, error) {
		if len(a) > 1 && a[1] != nil {
			base, _ := ToNumber(a[1])
			if base != 10 {
				n, err := strconv.ParseInt(strings.TrimSpace(ToString(a[0])), int(base), 64)
				if err != nil {
					return []Value{nil}, nil
				}
				return []Value{float64(n)}, nil
			}
		}
		f, ok := ToNumber(arg(a, 0))
		if !ok {
			return []Value{nil}, nil
		}
		return []Value{f}, nil
	}))
	g.Set("tostring", Fn(func(a []Value) ([]Value, error) { return []Value{ToString(arg(a, 0))}, nil }))
	g.Set("type", Fn(func(a []Value) ([]Value, error) { return []Value{TypeOf(arg(a, 0))}, nil }))
	g.Set("error", Fn(func(a []Value) ([]Value, error) { return nil, ErrVal{arg(a, 0)} }))
	g.Set("assert", Fn(func(a []Value) ([]Value, error) {
		if !truth(arg(a, 0)) {
			if len(a) > 1 {
				return nil, ErrVal{a[1]}
			}
			return nil, errors.New("assertion failed!")
		}
		return a, nil
	}))
	g.Set("pcall", Fn(func(a []Value) ([]Value, error) {
		r, err := in.call(arg(a, 0), a[1:])
		if err != nil {
			if e, ok := err.(ErrVal); ok {
				return []Value{false, e.V}, nil
			}
			return []Value{false, err.Error()}, nil
		}
		return append([]Value{true}, r...), nil
	}))
	nextF := Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'next' (table expected)")
		}
		k, v, err := t.next(arg(a, 1))
		if k == nil {
			return []Value{nil}, err
		}
		return []Value{k, v}, err
	})
	g.Set("next", nextF)
	g.Set("pairs", Fn(func(a []Value) ([]Value, error) {
		if _, ok := arg(a, 0).(*Table); !ok {
			return nil, errors.New("bad argument #1 to 'pairs' (table expected)")
		}
		return []Value{nextF, a[0], nil}, nil
	}))
	g.Set("ipairs", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'ipairs' (table expected)")
		}
		return []Value{Fn(func(b []Value) ([]Value, error) {
			i := b[1].(float64) + 1
			v := t.Get(i)
			if v == nil {
				return []Value{nil}, nil
			}
			return []Value{i, v}, nil
		}), t, 0.0}, nil
	}))
	unpack := Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'unpack'")
		}
		i, j := 1.0, float64(t.Len())
		if f, ok := ToNumber(arg(a, 1)); ok {
			i = f
		}
		if f, ok := ToNumber(arg(a, 2)); ok {
			j = f
		}
		var out []Value
		for ; i <= j; i++ {
			out = append(out, t.Get(i))
		}
		return out, nil
	})
	g.Set("unpack", unpack)
	g.Set("select", Fn(func(a []Value) ([]Value, error) {
		if arg(a, 0) == "#" {
			return []Value{float64(len(a) - 1)}, nil
		}
		n, ok := ToNumber(arg(a, 0))
		if !ok || n < 1 {
			return nil, errors.New("bad argument #1 to 'select'")
		}
		if int(n) >= len(a) {
			return nil, nil
		}
		return a[int(n):], nil
	}))
	m := NewTable()
	g.Set("math", m)
	m.Set("huge", math.Inf(1))
	m.Set("pi", math.Pi)
	for n, f := range map[string]func(float64) float64{"floor": math.Floor, "ceil": math.Ceil, "abs": math.Abs, "sqrt": math.Sqrt, "exp": math.Exp, "log": math.Log} {
		f, n := f, n
		m.Set(n, Fn(func(a []Value) ([]Value, error) {
			x, ok := ToNumber(arg(a, 0))
			if !ok {
				return nil, errors.New("bad argument #1 to '" + n + "' (number expected)")
			}
			return []Value{f(x)}, nil
		}))
	}
	pick := func(n string, better func(a, b float64) bool) {
		m.Set(n, Fn(func(a []Value) ([]Value, error) {
			var r float64
			for i, v := range a {
				x, ok := ToNumber(v)
				if !ok {
					return nil, errors.New("bad argument to '" + n + "' (number expected)")
				}
				if i == 0 || better(x, r) {
					r = x
				}
			}
			if len(a) == 0 {
				return nil, errors.New("bad argument #1 to '" + n + "'")
			}
			return []Value{r}, nil
		}))
	}
	pick("max", func(a, b float64) bool { return a > b })
	pick("min", func(a, b float64) bool { return a < b })
	m.Set("fmod", Fn(func(a []Value) ([]Value, error) {
		x, _ := ToNumber(arg(a, 0))
		y, _ := ToNumber(arg(a, 1))
		return []Value{math.Mod(x, y)}, nil
	}))
	st := NewTable()
	g.Set("string", st)
	str := func(a []Value, i int) string {
		s, _ := concatStr(arg(a, i))
		return s
	}
	st.Set("len", Fn(func(a []Value) ([]Value, error) { return []Value{float64(len(str(a, 0)))}, nil }))
	st.Set("lower", Fn(func(a []Value) ([]Value, error) { return []Value{strings.ToLower(str(a, 0))}, nil }))
	st.Set("upper", Fn(func(a []Value) ([]Value, error) { return []Value{strings.ToUpper(str(a, 0))}, nil }))
	st.Set("reverse", Fn(func(a []Value) ([]Value, error) {
		b := []byte(str(a, 0))
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return []Value{string(b)}, nil
	}))
	st.Set("rep", Fn(func(a []Value) ([]Value, error) {
		n, _ := ToNumber(arg(a, 1))
		if n < 0 {
			n = 0
		}
		return []Value{strings.Repeat(str(a, 0), int(n))}, nil
	}))
	st.Set("sub", Fn(func(a []Value) ([]Value, error) {
		s := str(a, 0)
		i, j := 1.0, -1.0
		if f, ok := ToNumber(arg(a, 1)); ok {
			i = f
		}
		if f, ok := ToNumber(arg(a, 2)); ok {
			j = f
		}
		n := float64(len(s))
		if i < 0 {
			i = math.Max(n+i+1, 1)
		} else if i == 0 {
			i = 1
		}
		if j < 0 {
			j = n + j + 1
		} else if j > n {
			j = n
		}
		if i > j {
			return []Value{""}, nil
		}
		return []Value{s[int(i)-1 : int(j)]}, nil
	}))
	st.Set("byte", Fn(func(a []Value) ([]Value, error) {
		s := str(a, 0)
		i := 1.0
		if f, ok := ToNumber(arg(a, 1)); ok {
			i = f
		}
		if int(i) < 1 || int(i) > len(s) {
			return nil, nil
		}
		return []Value{float64(s[int(i)-1])}, nil
	}))
	st.Set("char", Fn(func(a []Value) ([]Value, error) {
		var b []byte
		for _, v := range a {
			f, _ := ToNumber(v)
			b = append(b, byte(f))
		}
		return []Value{string(b)}, nil
	}))
	st.Set("find", Fn(func(a []Value) ([]Value, error) {
		s, p := str(a, 0), str(a, 1)
		if strings.ContainsAny(p, "^$*+?.([%-") && !truth(arg(a, 3)) {
			return nil, errors.New("string.find: patterns are not supported by this interpreter")
		}
		i := strings.Index(s, p)
		if i < 0 {
			return []Value{nil}, nil
		}
		return []Value{float64(i + 1), float64(i + len(p))}, nil
	}))
	st.Set("format", Fn(func(a []Value) ([]Value, error) {
		f := str(a, 0)
		var sb strings.Builder
		k := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				sb.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return nil, errors.New("invalid format")
			}
			spec := f[i:j]
			switch f[j] {
			case '%':
				sb.WriteByte('%')
			case 'd', 'i', 'c':
				n, ok := ToNumber(arg(a, k))
				if !ok {
					return nil, errors.New("bad argument to 'format' (number expected)")
				}
				fmt.Fprintf(&sb, spec+strings.Replace(string(f[j]), "i", "d", 1), int64(n))
				k++
			case 'f', 'g', 'e', 'x', 'X':
				n, _ := ToNumber(arg(a, k))
				if f[j] == 'x' || f[j] == 'X' {
					fmt.Fprintf(&sb, spec+string(f[j]), int64(n))
				} else {
					fmt.Fprintf(&sb, spec+string(f[j]), n)
				}
				k++
			case 's':
				fmt.Fprintf(&sb, spec+"s", ToString(arg(a, k)))
				k++
			case 'q':
				fmt.Fprintf(&sb, "%q", ToString(arg(a, k)))
				k++
			default:
				return nil, errors.New("invalid option to 'format'")
			}
			i = j
		}
		return []Value{sb.String()}, nil
	}))
	tb := NewTable()
	g.Set("table", tb)
	tb.Set("getn", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, fmt.Errorf("bad argument #1 to 'getn' (table expected, got %s)", TypeOf(arg(a, 0)))
		}
		return []Value{float64(t.Len())}, nil
	}))
	tb.Set("maxn", tb.Get("getn"))
	tb.Set("unpack", unpack)
	tb.Set("insert", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'insert' (table expected)")
		}
		if len(a) == 2 {
			t.Append(a[1])
			return nil, nil
		}
		f, _ := ToNumber(arg(a, 1))
		i := int(f)
		if i < 1 || i > t.Len()+1 {
			return nil, t.Set(f, arg(a, 2))
		}
		t.arr = append(t.arr, nil)
		copy(t.arr[i:], t.arr[i-1:])
		t.arr[i-1] = arg(a, 2)
		return nil, nil
	}))
	tb.Set("remove", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'remove' (table expected)")
		}
		i := t.Len()
		if f, ok := ToNumber(arg(a, 1)); ok {
			i = int(f)
		}
		if i < 1 || i > t.Len() {
			return []Value{nil}, nil
		}
		v := t.arr[i-1]
		t.arr = append(t.arr[:i-1], t.arr[i:]...)
		return []Value{v}, nil
	}))
	tb.Set("concat", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'concat' (table expected)")
		}
		var p []string
		for _, v := range t.arr {
			s, ok := concatStr(v)
			if !ok {
				return nil, errors.New("invalid value in table for 'concat'")
			}
			p = append(p, s)
		}
		return []Value{strings.Join(p, str(a, 1))}, nil
	}))
	tb.Set("sort", Fn(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errors.New("bad argument #1 to 'sort' (table expected)")
		}
		var err error
		sort.SliceStable(t.arr, func(i, j int) bool {
			if len(a) > 1 && a[1] != nil {
				r, e := in.call(a[1], []Value{t.arr[i], t.arr[j]})
				if e != nil {
					err = e
					return false
				}
				return len(r) > 0 && truth(r[0])
			}
			v, e := binop("<", t.arr[i], t.arr[j])
			if e != nil {
				err = e
				return false
			}
			return v.(bool)
		})
		return nil, err
	}))
}
