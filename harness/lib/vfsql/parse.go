package vfsql

import (
	"math/big"
	"strconv"
	"strings"
)

// ---- syntax trees; parsed once per text and never modified

type Expr interface{}

type Lit struct{ V Val }
type Param struct{ N int }
type Col struct{ T, N string }
type Bin struct {
	Op   string
	L, R Expr
}
type Unary struct {
	Op string
	E  Expr
}
type IsNull struct {
	E   Expr
	Neg bool
}
type IsDistinct struct {
	L, R Expr
	Neg  bool
}
type In struct {
	E    Expr
	List []Expr
	Sub  *Select
	Neg  bool
}
type AnyOf struct {
	Op     string
	E, Arr Expr
}
type Exists struct{ Sub *Select }
type Scalar struct{ Sub *Select }
type Cast struct {
	E Expr
	T string
}
type Fn struct {
	Name     string
	Args     []Expr
	Star     bool
	Distinct bool
	Over     bool
}
type Case struct {
	Operand Expr
	When    []Expr
	Then    []Expr
	Else    Expr
}
type Like struct {
	E, P      Expr
	Neg, Fold bool
}
type Between struct {
	E, A, B Expr
	Neg     bool
}
type Interval struct{ S string }
type DefaultVal struct{}

type Item struct {
	E     Expr
	Alias string
	Star  bool
	StarT string
}

type From struct {
	Table   string
	Alias   string
	Sub     *Select
	Cols    []string // column aliases
	Lateral bool
	Join    string // "", "cross", "inner", "left"
	On      Expr
	Using   []string
}

type Order struct {
	E    Expr
	Desc bool
}

type CTE struct {
	Name string
	Q    *Stmt
}

type Select struct {
	With     []CTE
	Items    []Item
	Distinct bool
	From     []From
	Where    Expr
	Group    []Expr
	Having   Expr
	Order    []Order
	Limit    Expr
	Offset   Expr
	Lock     bool
	Skip     bool
	NoWait   bool
	Union    *Select
	UnionAll bool
	Values   [][]Expr
}

type Assign struct {
	Col string
	E   Expr
}

type Stmt struct {
	Kind  string // select insert update delete copy other
	With  []CTE
	Sel   *Select
	Table string
	Alias string
	Cols  []string
	Rows  [][]Expr
	Src   *Select
	// on conflict
	Conf     bool
	ConfCols []string
	Nothing  bool
	Set      []Assign
	SetWhere Expr
	From     []From
	Where    Expr
	Ret      []Item
	Text     string
	Err      string
	Kids     int
}

// ---- tokens

type tok struct {
	k string // id qid str num par op eof
	s string // folded for id
	n int
}

func lex(q string) ([]tok, string) {
	var out []tok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < len(q) && q[i+1] == '-':
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(q) && q[i+1] == '*':
			j := strings.Index(q[i+2:], "*/")
			if j < 0 {
				return nil, "unterminated comment"
			}
			i += j + 4
		case c == '\'':
			var b strings.Builder
			i++
			for {
				if i >= len(q) {
					return nil, "unterminated string"
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(q[i])
				i++
			}
			out = append(out, tok{k: "str", s: b.String()})
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				return nil, "unterminated identifier"
			}
			out = append(out, tok{k: "qid", s: q[i+1 : i+1+j]})
			i += j + 2
		case c == '$' && i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(q[i+1 : j])
			out = append(out, tok{k: "par", n: n})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			out = append(out, tok{k: "num", s: q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, tok{k: "id", s: strings.ToLower(q[i:j])})
			i = j
		default:
			op := ""
			for _, o := range []string{"#>>", "->>", "!~*", "::", "->", "||", "<>", "!=", "<=", ">=", "@>", "~*", "!~", "=", "<", ">", "(", ")", ",", ".", "*", "+", "-", "/", "%", ";", "~", "[", "]", "?"} {
				if strings.HasPrefix(q[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, "unexpected character " + strconv.Quote(string(c))
			}
			out = append(out, tok{k: "op", s: op})
			i += len(op)
		}
	}
	return append(out, tok{k: "eof"}), ""
}

type parser struct {
	t   []tok
	p   int
	err string
}

// parse turns a statement into its tree.
//
//verif:memo
func parse(q string) *Stmt {
	ts, e := lex(q)
	if e != "" {
		return &Stmt{Err: e, Text: q}
	}
	p := &parser{t: ts}
	s := p.stmt()
	if p.err == "" {
		p.isOp(";")
		if p.t[p.p].k != "eof" {
			p.fail("end of statement")
		}
	}
	if p.err != "" {
		return &Stmt{Err: p.err, Text: q}
	}
	s.Text = q
	return s
}

func (p *parser) fail(want string) {
	if p.err == "" {
		t := p.t[p.p]
		near := t.s
		if t.k == "par" {
			near = "$" + strconv.Itoa(t.n)
		}
		p.err = "syntax error: expected " + want + " at or near \"" + near + "\" (token " + strconv.Itoa(p.p) + ")"
		p.p = len(p.t) - 1
	}
}

func (p *parser) isKw(s string) bool {
	if t := p.t[p.p]; t.k == "id" && t.s == s {
		p.p++
		return true
	}
	return false
}
func (p *parser) peekKw(s string) bool { t := p.t[p.p]; return t.k == "id" && t.s == s }
func (p *parser) peekKw2(a, b string) bool {
	return p.peekKw(a) && p.p+1 < len(p.t) && p.t[p.p+1].k == "id" && p.t[p.p+1].s == b
}
func (p *parser) peekOp(s string) bool { t := p.t[p.p]; return t.k == "op" && t.s == s }
func (p *parser) isOp(s string) bool {
	if p.peekOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) kw(s string) {
	if !p.isKw(s) {
		p.fail(s)
	}
}
func (p *parser) op(s string) {
	if !p.isOp(s) {
		p.fail(s)
	}
}
func (p *parser) name() string {
	t := p.t[p.p]
	if t.k == "id" || t.k == "qid" {
		p.p++
		return t.s
	}
	p.fail("a name")
	return ""
}

var reserved = map[string]bool{"where": true, "set": true, "from": true, "on": true, "left": true, "inner": true, "join": true, "cross": true, "order": true, "group": true, "limit": true, "offset": true, "for": true, "union": true, "returning": true, "values": true, "select": true, "having": true, "and": true, "or": true, "as": true, "using": true, "full": true, "right": true, "when": true, "then": true, "else": true, "end": true, "asc": true, "desc": true, "not": true, "is": true, "in": true, "like": true, "ilike": true, "between": true, "case": true, "lateral": true}

func (p *parser) table() string {
	n := p.name()
	if p.isOp(".") {
		s := n
		n = p.name()
		if s != "blnk" {
			return s + "." + n
		}
	}
	return n
}

func (p *parser) alias() string {
	if p.isKw("as") {
		return p.name()
	}
	t := p.t[p.p]
	if t.k == "qid" || t.k == "id" && !reserved[t.s] {
		p.p++
		return t.s
	}
	return ""
}

func (p *parser) with() []CTE {
	var out []CTE
	if p.isKw("with") {
		for {
			n := p.name()
			p.kw("as")
			p.op("(")
			q := p.stmt()
			p.op(")")
			out = append(out, CTE{n, q})
			if !p.isOp(",") || p.err != "" {
				break
			}
		}
	}
	return out
}

func (p *parser) stmt() *Stmt {
	w := p.with()
	s := &Stmt{With: w}
	switch {
	case p.peekKw("select") || p.peekKw("values") || p.peekOp("("):
		s.Kind, s.Sel = "select", p.sel()
	case p.isKw("insert"):
		s.Kind = "insert"
		p.kw("into")
		s.Table = p.table()
		if p.isKw("as") {
			s.Alias = p.name()
		}
		if p.isOp("(") {
			s.Cols = p.names()
		}
		if p.isKw("values") {
			s.Rows = p.rows()
		} else {
			s.Src = p.sel()
		}
		if p.isKw("on") {
			p.kw("conflict")
			s.Conf = true
			if p.isOp("(") {
				s.ConfCols = p.names()
			}
			p.kw("do")
			if p.isKw("nothing") {
				s.Nothing = true
			} else {
				p.kw("update")
				p.kw("set")
				s.Set = p.assigns()
				if p.isKw("where") {
					s.SetWhere = p.expr()
				}
			}
		}
	case p.isKw("update"):
		s.Kind = "update"
		s.Table = p.table()
		s.Alias = p.alias()
		p.kw("set")
		s.Set = p.assigns()
		if p.isKw("from") {
			s.From = p.from()
		}
		if p.isKw("where") {
			s.Where = p.expr()
		}
	case p.isKw("delete"):
		s.Kind = "delete"
		p.kw("from")
		s.Table = p.table()
		s.Alias = p.alias()
		if p.isKw("using") {
			s.From = p.from()
		}
		if p.isKw("where") {
			s.Where = p.expr()
		}
	case p.isKw("copy"):
		s.Kind = "copy"
		s.Table = p.table()
		p.op("(")
		s.Cols = p.names()
		p.kw("from")
		p.kw("stdin")
	default:
		p.fail("a statement")
	}
	if p.isKw("returning") {
		s.Ret = p.items()
	}
	return s
}

func (p *parser) names() []string {
	var out []string
	for {
		out = append(out, p.name())
		if !p.isOp(",") || p.err != "" {
			break
		}
	}
	p.op(")")
	return out
}

func (p *parser) rows() [][]Expr {
	var out [][]Expr
	for {
		p.op("(")
		var r []Expr
		for {
			if p.isKw("default") {
				r = append(r, DefaultVal{})
			} else {
				r = append(r, p.expr())
			}
			if !p.isOp(",") || p.err != "" {
				break
			}
		}
		p.op(")")
		out = append(out, r)
		if !p.isOp(",") || p.err != "" {
			break
		}
	}
	return out
}

func (p *parser) assigns() []Assign {
	var out []Assign
	for {
		n := p.name()
		if p.isOp(".") {
			n = p.name()
		}
		p.op("=")
		out = append(out, Assign{n, p.expr()})
		if !p.isOp(",") || p.err != "" {
			break
		}
	}
	return out
}

func (p *parser) items() []Item {
	var out []Item
	for {
		if p.isOp("*") {
			out = append(out, Item{Star: true})
		} else if p.p+2 < len(p.t) && (p.t[p.p].k == "id" || p.t[p.p].k == "qid") && p.t[p.p+1].k == "op" && p.t[p.p+1].s == "." && p.t[p.p+2].k == "op" && p.t[p.p+2].s == "*" {
			out = append(out, Item{Star: true, StarT: p.t[p.p].s})
			p.p += 3
		} else {
			e := p.expr()
			a := p.alias()
			if a == "" {
				switch x := e.(type) {
				case Col:
					a = x.N
				case Fn:
					a = x.Name
				case Cast:
					if c, ok := x.E.(Col); ok {
						a = c.N
					}
				}
			}
			out = append(out, Item{E: e, Alias: a})
		}
		if !p.isOp(",") || p.err != "" {
			break
		}
	}
	return out
}

func (p *parser) from() []From {
	out := []From{p.fromItem("")}
	for p.err == "" {
		switch {
		case p.isOp(","):
			out = append(out, p.fromItem("cross"))
		case p.peekKw2("cross", "join"):
			p.p += 2
			out = append(out, p.fromItem("cross"))
		case p.peekKw("left"):
			p.p++
			p.isKw("outer")
			p.kw("join")
			f := p.fromItem("left")
			p.kw("on")
			f.On = p.expr()
			out = append(out, f)
		case p.peekKw("join") || p.peekKw("inner"):
			if p.isKw("inner") {
			}
			p.kw("join")
			f := p.fromItem("inner")
			p.kw("on")
			f.On = p.expr()
			out = append(out, f)
		default:
			return out
		}
	}
	return out
}

func (p *parser) fromItem(join string) From {
	f := From{Join: join}
	if p.isKw("lateral") {
		f.Lateral = true
	}
	if p.isOp("(") {
		f.Sub = p.sel()
		p.op(")")
	} else {
		f.Table = p.table()
	}
	f.Alias = p.alias()
	if f.Alias != "" && p.peekOp("(") {
		p.op("(")
		f.Cols = p.names()
	}
	if f.Alias == "" {
		f.Alias = f.Table
	}
	return f
}

func (p *parser) sel() *Select {
	s := p.selCore()
	cur := s
	for p.isKw("union") {
		cur.UnionAll = p.isKw("all")
		cur.Union = p.selCore()
		cur = cur.Union
	}
	if p.isKw("order") {
		p.kw("by")
		for {
			o := Order{E: p.expr()}
			if p.isKw("desc") {
				o.Desc = true
			} else {
				p.isKw("asc")
			}
			if p.isKw("nulls") {
				p.name()
			}
			s.Order = append(s.Order, o)
			if !p.isOp(",") || p.err != "" {
				break
			}
		}
	}
	for p.err == "" {
		switch {
		case p.isKw("limit"):
			s.Limit = p.expr()
		case p.isKw("offset"):
			s.Offset = p.expr()
		case p.isKw("for"):
			if p.isKw("no") {
				p.kw("key")
			}
			p.kw("update")
			s.Lock = true
			if p.isKw("skip") {
				p.kw("locked")
				s.Skip = true
			}
			if p.isKw("nowait") {
				s.NoWait = true
			}
		default:
			return s
		}
	}
	return s
}

func (p *parser) selCore() *Select {
	s := &Select{With: p.with()}
	if p.isOp("(") {
		s = p.sel()
		p.op(")")
		return s
	}
	if p.isKw("values") {
		s.Values = p.rows()
		return s
	}
	p.kw("select")
	s.Distinct = p.isKw("distinct")
	s.Items = p.items()
	if p.isKw("from") {
		s.From = p.from()
	}
	if p.isKw("where") {
		s.Where = p.expr()
	}
	if p.isKw("group") {
		p.kw("by")
		for {
			s.Group = append(s.Group, p.expr())
			if !p.isOp(",") || p.err != "" {
				break
			}
		}
	}
	if p.isKw("having") {
		s.Having = p.expr()
	}
	return s
}

// ---- expressions

func (p *parser) expr() Expr {
	l := p.and()
	for p.err == "" && p.isKw("or") {
		l = Bin{"or", l, p.and()}
	}
	return l
}

func (p *parser) and() Expr {
	l := p.not()
	for p.err == "" && p.isKw("and") {
		l = Bin{"and", l, p.not()}
	}
	return l
}

func (p *parser) not() Expr {
	if p.isKw("not") {
		return Unary{"not", p.not()}
	}
	return p.cmp()
}

func (p *parser) cmp() Expr {
	l := p.other()
	for p.err == "" {
		t := p.t[p.p]
		if t.k == "op" && (t.s == "=" || t.s == "<>" || t.s == "!=" || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">=" || t.s == "~") {
			p.p++
			op := t.s
			if op == "!=" {
				op = "<>"
			}
			if p.peekKw("any") || p.peekKw("all") {
				if p.peekKw("all") {
					op += " all"
				}
				p.p++
				p.op("(")
				a := p.expr()
				p.op(")")
				l = AnyOf{op, l, a}
				continue
			}
			l = Bin{op, l, p.other()}
			continue
		}
		if t.k != "id" {
			return l
		}
		neg := false
		save := p.p
		if t.s == "not" {
			p.p++
			neg = true
			t = p.t[p.p]
		}
		switch {
		case t.k == "id" && t.s == "in":
			p.p++
			p.op("(")
			n := In{E: l, Neg: neg}
			if p.peekKw("select") || p.peekKw("with") {
				n.Sub = p.sel()
			} else {
				for {
					n.List = append(n.List, p.expr())
					if !p.isOp(",") || p.err != "" {
						break
					}
				}
			}
			p.op(")")
			l = n
		case t.k == "id" && (t.s == "like" || t.s == "ilike"):
			p.p++
			l = Like{E: l, P: p.other(), Neg: neg, Fold: t.s == "ilike"}
		case t.k == "id" && t.s == "between":
			p.p++
			a := p.other()
			p.kw("and")
			l = Between{l, a, p.other(), neg}
		case t.k == "id" && t.s == "is" && !neg:
			p.p++
			n := p.isKw("not")
			switch {
			case p.isKw("null"):
				l = IsNull{l, n}
			case p.isKw("distinct"):
				p.kw("from")
				l = IsDistinct{l, p.other(), n}
			case p.isKw("true"):
				e := Expr(Fn{Name: "coalesce", Args: []Expr{l, Lit{false}}})
				if n {
					e = Unary{"not", e}
				}
				l = e
			case p.isKw("false"):
				e := Expr(Unary{"not", Fn{Name: "coalesce", Args: []Expr{l, Lit{true}}}})
				if n {
					e = Unary{"not", e}
				}
				l = e
			default:
				p.fail("null")
			}
		default:
			p.p = save
			return l
		}
	}
	return l
}

func (p *parser) other() Expr {
	l := p.add()
	for p.err == "" {
		t := p.t[p.p]
		if t.k == "op" && (t.s == "||" || t.s == "->>" || t.s == "->" || t.s == "#>>" || t.s == "@>" || t.s == "?") {
			p.p++
			l = Bin{t.s, l, p.add()}
			continue
		}
		return l
	}
	return l
}

func (p *parser) add() Expr {
	l := p.mul()
	for p.err == "" {
		t := p.t[p.p]
		if t.k == "op" && (t.s == "+" || t.s == "-") {
			p.p++
			l = Bin{t.s, l, p.mul()}
			continue
		}
		return l
	}
	return l
}

func (p *parser) mul() Expr {
	l := p.unary()
	for p.err == "" {
		t := p.t[p.p]
		if t.k == "op" && (t.s == "*" || t.s == "/" || t.s == "%") {
			p.p++
			l = Bin{t.s, l, p.unary()}
			continue
		}
		return l
	}
	return l
}

func (p *parser) unary() Expr {
	if p.isOp("-") {
		return Unary{"-", p.unary()}
	}
	l := p.primary()
	for p.err == "" && p.isOp("::") {
		l = Cast{l, p.typeName()}
	}
	return l
}

func (p *parser) typeName() string {
	t := p.name()
	if t == "timestamp" && p.isKw("with") {
		p.kw("time")
		p.kw("zone")
		t = "timestamptz"
	}
	if t == "double" {
		p.kw("precision")
		t = "float"
	}
	if p.isOp("(") {
		for p.err == "" && !p.isOp(")") {
			p.p++
		}
	}
	if p.isOp("[") {
		p.op("]")
		t += "[]"
	}
	return t
}

func (p *parser) primary() Expr {
	t := p.t[p.p]
	switch t.k {
	case "par":
		p.p++
		return Param{t.n}
	case "str":
		p.p++
		return Lit{t.s}
	case "num":
		p.p++
		if n, err := strconv.ParseInt(t.s, 10, 64); err == nil {
			return Lit{n}
		}
		if b, ok := new(big.Int).SetString(t.s, 10); ok {
			return Lit{b}
		}
		return Lit{Dec(t.s)}
	case "op":
		if t.s == "(" {
			p.p++
			if p.peekKw("select") || p.peekKw("with") || p.peekKw("values") {
				s := p.sel()
				p.op(")")
				return Scalar{s}
			}
			e := p.expr()
			p.op(")")
			return e
		}
	case "qid":
		return p.column()
	case "id":
		switch t.s {
		case "null":
			p.p++
			return Lit{nil}
		case "true":
			p.p++
			return Lit{true}
		case "false":
			p.p++
			return Lit{false}
		case "exists":
			p.p++
			p.op("(")
			s := p.sel()
			p.op(")")
			return Exists{s}
		case "interval":
			if p.t[p.p+1].k == "str" {
				p.p += 2
				return Interval{p.t[p.p-1].s}
			}
		case "case":
			p.p++
			c := Case{}
			if !p.peekKw("when") {
				c.Operand = p.expr()
			}
			for p.err == "" && p.isKw("when") {
				c.When = append(c.When, p.expr())
				p.kw("then")
				c.Then = append(c.Then, p.expr())
			}
			if p.isKw("else") {
				c.Else = p.expr()
			}
			p.kw("end")
			return c
		case "cast":
			if p.t[p.p+1].s == "(" {
				p.p += 2
				e := p.expr()
				p.kw("as")
				ty := p.typeName()
				p.op(")")
				return Cast{e, ty}
			}
		case "current_timestamp", "localtimestamp":
			p.p++
			return Fn{Name: "now"}
		}
		return p.column()
	}
	p.fail("an expression")
	return Lit{nil}
}

func (p *parser) column() Expr {
	n := p.name()
	if p.peekOp("(") {
		return p.call(n)
	}
	if p.isOp(".") {
		c := p.name()
		if p.peekOp("(") {
			return p.call(c)
		}
		if p.isOp(".") { // schema.table.column
			return Col{c, p.name()}
		}
		return Col{n, c}
	}
	return Col{"", n}
}

func (p *parser) call(n string) Expr {
	p.op("(")
	f := Fn{Name: n}
	if p.isOp(")") {
		return f
	}
	if p.isOp("*") {
		f.Star = true
		p.op(")")
	} else {
		f.Distinct = p.isKw("distinct")
		for {
			f.Args = append(f.Args, p.expr())
			if !p.isOp(",") || p.err != "" {
				break
			}
		}
		p.op(")")
	}
	if p.isKw("over") {
		p.op("(")
		p.op(")")
		f.Over = true
	}
	return f
}
