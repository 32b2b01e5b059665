package vfredis

import (
	"strconv"
)

// A small interpreter for the Lua that the code under test sends to EVAL.

type lnode struct {
	op   string // block, if, while, return, local, assign, call, str, num, name, index, bin, not, nil, true, false, len, neg
	s    string
	n    int64
	kids []*lnode
	alt  *lnode
}

type lparser struct {
	toks []string
	pos  int
	bad  string
}

func lexLua(s string) []string {
	var out []string
	i := 0
	alnum := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			out = append(out, "\""+s[i+1:j])
			i = j + 1
		case alnum(c):
			j := i
			for j < len(s) && alnum(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case i+1 < len(s) && (s[i:i+2] == "==" || s[i:i+2] == "~=" || s[i:i+2] == "<=" || s[i:i+2] == ">=" || s[i:i+2] == ".."):
			out = append(out, s[i:i+2])
			i += 2
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func (p *lparser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *lparser) next() string { t := p.peek(); p.pos++; return t }
func (p *lparser) want(t string) {
	if p.peek() != t {
		if p.bad == "" {
			p.bad = "lua: expected " + t + " at " + p.peek()
		}
	}
	p.pos++
}

func (p *lparser) block() *lnode {
	b := &lnode{op: "block"}
	for p.bad == "" {
		switch p.peek() {
		case "", "end", "else", "elseif":
			return b
		case "if":
			p.next()
			b.kids = append(b.kids, p.ifStmt())
		case "return":
			p.next()
			n := &lnode{op: "return"}
			if t := p.peek(); t != "" && t != "end" && t != "else" && t != "elseif" {
				n.kids = append(n.kids, p.expr(0))
			}
			b.kids = append(b.kids, n)
		case "local":
			p.next()
			n := &lnode{op: "local", s: p.next()}
			p.want("=")
			n.kids = append(n.kids, p.expr(0))
			b.kids = append(b.kids, n)
		default:
			e := p.expr(0)
			if p.peek() == "=" && e.op == "name" {
				p.next()
				e = &lnode{op: "local", s: e.s, kids: []*lnode{p.expr(0)}}
			}
			b.kids = append(b.kids, e)
		}
	}
	return b
}

func (p *lparser) ifStmt() *lnode {
	n := &lnode{op: "if"}
	n.kids = append(n.kids, p.expr(0))
	p.want("then")
	n.kids = append(n.kids, p.block())
	switch p.peek() {
	case "elseif":
		p.next()
		n.alt = p.ifStmt()
		return n
	case "else":
		p.next()
		n.alt = p.block()
	}
	p.want("end")
	return n
}

func prec(t string) int {
	switch t {
	case "or":
		return 1
	case "and":
		return 2
	case "==", "~=", "<", ">", "<=", ">=":
		return 3
	case "..":
		return 4
	case "+", "-":
		return 5
	case "*":
		return 6
	}
	return 0
}

func (p *lparser) expr(min int) *lnode {
	l := p.unary()
	for p.bad == "" {
		q := prec(p.peek())
		if q == 0 || q <= min {
			return l
		}
		op := p.next()
		l = &lnode{op: "bin", s: op, kids: []*lnode{l, p.expr(q)}}
	}
	return l
}

func (p *lparser) unary() *lnode {
	switch p.peek() {
	case "not", "-", "#":
		op := p.next()
		return &lnode{op: "un", s: op, kids: []*lnode{p.unary()}}
	}
	t := p.next()
	var n *lnode
	switch {
	case t == "":
		p.bad = "lua: unexpected end"
		return &lnode{op: "nil"}
	case t == "(":
		n = p.expr(0)
		p.want(")")
	case t[0] == '"':
		n = &lnode{op: "str", s: t[1:]}
	case t == "nil" || t == "true" || t == "false":
		n = &lnode{op: t}
	case t[0] >= '0' && t[0] <= '9':
		v, _ := strconv.ParseInt(t, 10, 64)
		n = &lnode{op: "num", n: v}
	default:
		n = &lnode{op: "name", s: t}
	}
	for p.bad == "" {
		switch p.peek() {
		case ".":
			p.next()
			n = &lnode{op: "name", s: n.s + "." + p.next()}
		case "[":
			p.next()
			n = &lnode{op: "index", kids: []*lnode{n, p.expr(0)}}
			p.want("]")
		case "(":
			p.next()
			c := &lnode{op: "call", s: n.s}
			for p.bad == "" && p.peek() != ")" {
				c.kids = append(c.kids, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.want(")")
			n = c
		default:
			return n
		}
	}
	return n
}

type lprog struct {
	root *lnode
	bad  string
}

//verif:memo
func parseLua(src string) *lprog {
	p := &lparser{toks: lexLua(src)}
	b := p.block()
	if p.bad == "" && p.peek() != "" {
		p.bad = "lua: trailing " + p.peek()
	}
	return &lprog{b, p.bad}
}

type lenv struct {
	s    *Store
	keys []string
	args []string
	vars map[string]any
	bad  string
	ret  any
	done bool
}

func truthy(v any) bool {
	if v == nil {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}

func (e *lenv) exec(n *lnode) {
	if e.bad != "" || e.done {
		return
	}
	switch n.op {
	case "block":
		for _, k := range n.kids {
			e.exec(k)
		}
	case "if":
		if truthy(e.eval(n.kids[0])) {
			e.exec(n.kids[1])
		} else if n.alt != nil {
			e.exec(n.alt)
		}
	case "local":
		e.vars[n.s] = e.eval(n.kids[0])
	case "return":
		if len(n.kids) > 0 {
			e.ret = e.eval(n.kids[0])
		}
		e.done = true
	default:
		e.eval(n)
	}
}

func lstr(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	}
	return ""
}

func leq(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}

func (e *lenv) eval(n *lnode) any {
	if e.bad != "" {
		return nil
	}
	switch n.op {
	case "str":
		return n.s
	case "num":
		return n.n
	case "nil":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "name":
		return e.vars[n.s]
	case "index":
		i, _ := e.eval(n.kids[1]).(int64)
		var l []string
		if n.kids[0].s == "KEYS" {
			l = e.keys
		} else if n.kids[0].s == "ARGV" {
			l = e.args
		} else {
			e.bad = "lua: index of " + n.kids[0].s
		}
		if i < 1 || int(i) > len(l) {
			return nil
		}
		return l[i-1]
	case "un":
		v := e.eval(n.kids[0])
		switch n.s {
		case "not":
			return !truthy(v)
		case "-":
			if x, ok := v.(int64); ok {
				return -x
			}
		case "#":
			if n.kids[0].s == "KEYS" {
				return int64(len(e.keys))
			}
		}
		e.bad = "lua: unary " + n.s
		return nil
	case "bin":
		a := e.eval(n.kids[0])
		switch n.s {
		case "and":
			if !truthy(a) {
				return a
			}
			return e.eval(n.kids[1])
		case "or":
			if truthy(a) {
				return a
			}
			return e.eval(n.kids[1])
		}
		b := e.eval(n.kids[1])
		switch n.s {
		case "==":
			return leq(a, b)
		case "~=":
			return !leq(a, b)
		case "..":
			return lstr(a) + lstr(b)
		}
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if !ok1 || !ok2 {
			e.bad = "lua: arithmetic on non-numbers"
			return nil
		}
		switch n.s {
		case "<":
			return x < y
		case ">":
			return x > y
		case "<=":
			return x <= y
		case ">=":
			return x >= y
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
		e.bad = "lua: operator " + n.s
		return nil
	case "call":
		var args []any
		for _, k := range n.kids {
			args = append(args, e.eval(k))
		}
		if e.bad != "" {
			return nil
		}
		switch n.s {
		case "tonumber":
			if len(args) == 1 {
				if x, ok := args[0].(int64); ok {
					return x
				}
				if x, ok := args[0].(string); ok {
					v, err := strconv.ParseInt(x, 10, 64)
					if err != nil {
						return nil
					}
					return v
				}
			}
			return nil
		case "tostring":
			return lstr(args[0])
		case "redis.call", "redis.pcall":
			name, _ := args[0].(string)
			var ss []string
			for _, a := range args[1:] {
				ss = append(ss, lstr(a))
			}
			r, bad := e.s.apply(name, ss)
			if bad != "" {
				e.bad = bad
			}
			if r == nil {
				return false // a nil reply is false inside Lua
			}
			return r
		}
		e.bad = "lua: function " + n.s
		return nil
	}
	e.bad = "lua: node " + n.op
	return nil
}

func (s *Store) runLua(src string, keys, args []string) (any, string) {
	p := parseLua(src)
	if p.bad != "" {
		return nil, p.bad
	}
	e := &lenv{s: s, keys: keys, args: args, vars: map[string]any{}}
	e.exec(p.root)
	if e.bad != "" {
		return nil, e.bad
	}
	switch x := e.ret.(type) {
	case bool:
		if x {
			return int64(1), ""
		}
		return nil, ""
	}
	return e.ret, ""
}
