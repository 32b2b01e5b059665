package vfsql

import (
	"math/big"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/shopspring/decimal"
)

type rel struct {
	cols []string
	rows [][]Val
}

type exec struct {
	db   *DB
	tx   *Tx
	args []Val
	snap int
	ctes []cteRel
}

type cteRel struct {
	name string
	r    *rel
}

type bound struct {
	alias string
	ord   map[string]int
	cols  []string
	types []Column
	row   []Val
	rec   *rec
	tab   *Table
}

type env struct {
	up    *env
	tabs  []bound
	group []*env // rows of the group, when aggregating
	count int64  // rows of the whole result, for windows
}

func bad(why string) { vf.Inconclusive("sql: " + why) }

func (e *env) col(c Col) (Val, string, bool) {
	for x := e; x != nil; x = x.up {
		for i := range x.tabs {
			b := &x.tabs[i]
			if c.T != "" && c.T != b.alias && !(b.tab != nil && c.T == b.tab.Name && b.alias == b.tab.Name) {
				continue
			}
			if j, ok := b.ord[c.N]; ok {
				ty := ""
				if b.types != nil {
					ty = b.types[j].Type
				}
				if b.row == nil {
					return nil, ty, true
				}
				return b.row[j], ty, true
			}
		}
	}
	return nil, "", false
}

// typeOf is the declared type of a column expression, "" otherwise.
func (x *exec) typeOf(e *env, ex Expr) string {
	switch t := ex.(type) {
	case Col:
		if e == nil {
			return ""
		}
		_, ty, _ := e.col(t)
		return ty
	case Cast:
		return t.T
	case Bin:
		if t.Op == "->>" {
			return "text"
		}
	}
	return ""
}

func (x *exec) eval(e *env, ex Expr) (Val, error) {
	switch t := ex.(type) {
	case Lit:
		return t.V, nil
	case Param:
		if t.N < 1 || t.N > len(x.args) {
			return nil, pgErr("08P01", "there is no parameter")
		}
		return x.args[t.N-1], nil
	case Col:
		if e != nil {
			if len(e.group) > 0 {
				// a grouped column: any row of the group
				if v, _, ok := e.group[0].col(t); ok {
					return v, nil
				}
			}
			if v, _, ok := e.col(t); ok {
				return v, nil
			}
		}
		return nil, pgErr("42703", "column \""+t.N+"\" does not exist")
	case Interval:
		d, ok := parseInterval(t.S)
		if !ok {
			bad("interval " + t.S)
		}
		return d, nil
	case Cast:
		v, err := x.eval(e, t.E)
		if err != nil || v == nil {
			return nil, err
		}
		return coerce(v, t.T)
	case IsNull:
		v, err := x.eval(e, t.E)
		if err != nil {
			return nil, err
		}
		return (v == nil) != t.Neg, nil
	case IsDistinct:
		a, b, err := x.two(e, t.L, t.R)
		if err != nil {
			return nil, err
		}
		return eqNull(a, b) == t.Neg, nil
	case Unary:
		v, err := x.eval(e, t.E)
		if err != nil || v == nil {
			return nil, err
		}
		if t.Op == "not" {
			b, ok := toBool(v)
			if !ok {
				return nil, pgErr("42804", "argument of NOT must be type boolean")
			}
			return !b, nil
		}
		switch n := v.(type) {
		case int64:
			return -n, nil
		case float64:
			return -n, nil
		}
		if n, ok := num(v); ok {
			return new(big.Int).Neg(n), nil
		}
		d, err := dec(v)
		if err != nil {
			return nil, pgErr("42883", "operator does not exist: -")
		}
		return Dec(d.Neg().String()), nil
	case Bin:
		return x.bin(e, t)
	case In:
		return x.in(e, t)
	case AnyOf:
		return x.any(e, t)
	case Exists:
		r, err := x.sel(e, t.Sub)
		if err != nil {
			return nil, err
		}
		return len(r.rows) > 0, nil
	case Scalar:
		r, err := x.sel(e, t.Sub)
		if err != nil {
			return nil, err
		}
		if len(r.rows) == 0 {
			return nil, nil
		}
		if len(r.rows) > 1 {
			return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
		}
		return r.rows[0][0], nil
	case Case:
		var op Val
		var err error
		if t.Operand != nil {
			if op, err = x.eval(e, t.Operand); err != nil {
				return nil, err
			}
		}
		for i := range t.When {
			v, err := x.eval(e, t.When[i])
			if err != nil {
				return nil, err
			}
			hit := false
			if t.Operand != nil {
				if op != nil && v != nil {
					if hit, err = eqVal(op, v); err != nil {
						return nil, err
					}
				}
			} else if v != nil {
				hit, _ = toBool(v)
			}
			if hit {
				return x.eval(e, t.Then[i])
			}
		}
		if t.Else != nil {
			return x.eval(e, t.Else)
		}
		return nil, nil
	case Like:
		a, b, err := x.two(e, t.E, t.P)
		if err != nil || a == nil || b == nil {
			return nil, err
		}
		s, p := text(a), text(b)
		if t.Fold {
			s, p = strings.ToLower(s), strings.ToLower(p)
		}
		return likeMatch(s, p) != t.Neg, nil
	case Between:
		v, err := x.eval(e, t.E)
		if err != nil {
			return nil, err
		}
		a, b, err := x.two(e, t.A, t.B)
		if err != nil || v == nil || a == nil || b == nil {
			return nil, err
		}
		c, err := cmpVal(v, a)
		if err != nil {
			return nil, err
		}
		d, err := cmpVal(v, b)
		if err != nil {
			return nil, err
		}
		return (c >= 0 && d <= 0) != t.Neg, nil
	case Fn:
		return x.fn(e, t)
	case DefaultVal:
		bad("DEFAULT in an expression")
	}
	bad("expression")
	return nil, nil
}

func (x *exec) two(e *env, l, r Expr) (Val, Val, error) {
	a, err := x.eval(e, l)
	if err != nil {
		return nil, nil, err
	}
	b, err := x.eval(e, r)
	return a, b, err
}

// cond evaluates a condition; unknown counts as false.
func (x *exec) cond(e *env, ex Expr) (bool, error) {
	if ex == nil {
		return true, nil
	}
	// conjunctions stop at the first false part
	if b, ok := ex.(Bin); ok && b.Op == "and" {
		l, err := x.cond(e, b.L)
		if err != nil || !l {
			return false, err
		}
		return x.cond(e, b.R)
	}
	v, err := x.eval(e, ex)
	if err != nil || v == nil {
		return false, err
	}
	b, ok := toBool(v)
	if !ok {
		return false, pgErr("42804", "argument of WHERE must be type boolean")
	}
	return b, nil
}

func (x *exec) bin(e *env, t Bin) (Val, error) {
	switch t.Op {
	case "and", "or":
		a, err := x.eval(e, t.L)
		if err != nil {
			return nil, err
		}
		stop := t.Op == "or"
		if a != nil {
			p, ok := toBool(a)
			if !ok {
				return nil, pgErr("42804", "argument must be type boolean")
			}
			if p == stop {
				return stop, nil
			}
		}
		b, err := x.eval(e, t.R)
		if err != nil {
			return nil, err
		}
		if b != nil {
			p, ok := toBool(b)
			if !ok {
				return nil, pgErr("42804", "argument must be type boolean")
			}
			if p == stop {
				return stop, nil
			}
		}
		if a == nil || b == nil {
			return nil, nil
		}
		return !stop, nil
	}
	a, b, err := x.two(e, t.L, t.R)
	if err != nil {
		return nil, err
	}
	if t.Op == "->>" {
		return jsonText(a, b)
	}
	if t.Op == "->" {
		return jsonGet(a, b)
	}
	if a == nil || b == nil {
		return nil, nil
	}
	return x.op(t.Op, a, b, x.typeOf(e, t.L), x.typeOf(e, t.R))
}

func (x *exec) op(op string, a, b Val, ta, tb string) (Val, error) {
	switch op {
	case "=", "<>", "<", ">", "<=", ">=":
		// a parameter takes the type of the column it is compared with
		var err error
		if ta != "" && tb == "" {
			if b, err = adapt(b, ta); err != nil {
				return nil, err
			}
		} else if tb != "" && ta == "" {
			if a, err = adapt(a, tb); err != nil {
				return nil, err
			}
		}
		if op == "=" || op == "<>" {
			r, err := eqVal(a, b)
			if err != nil {
				return nil, err
			}
			return r == (op == "="), nil
		}
		c, err := cmpVal(a, b)
		if err != nil {
			return nil, err
		}
		switch op {
		case "<":
			return c < 0, nil
		case ">":
			return c > 0, nil
		case "<=":
			return c <= 0, nil
		}
		return c >= 0, nil
	case "||":
		if isJSON(a, ta) || isJSON(b, tb) {
			return jsonMerge(a, b)
		}
		return text(a) + text(b), nil
	case "@>":
		return jsonContains(parseJSON(text(a)), parseJSON(text(b))), nil
	case "?":
		m, ok := parseJSON(text(a)).(map[string]interface{})
		if !ok {
			return false, nil
		}
		_, ok = m[text(b)]
		return ok, nil
	case "+", "-", "*", "/", "%":
		return arith(op, a, b)
	}
	bad("operator " + op)
	return nil, nil
}

func isJSON(v Val, ty string) bool {
	if ty == "json" || ty == "jsonb" {
		return true
	}
	_, ok := v.(JSON)
	return ok
}

// adapt gives a parameter the type of what it is compared with, as far as that matters.
func adapt(v Val, ty string) (Val, error) {
	switch ty {
	case "int", "num", "num12_2":
		switch v.(type) {
		case string:
			if ty == "int" {
				return coerce(v, "int")
			}
			return coerce(v, "num")
		case bool, time.Time:
			return nil, pgErr("42883", "operator does not exist")
		}
	case "float":
		if _, ok := v.(string); ok {
			return coerce(v, "float")
		}
	case "ts", "date":
		switch v.(type) {
		case string, time.Time:
			return coerce(v, "ts")
		}
	case "timestamptz":
		switch v.(type) {
		case string, time.Time:
			return coerce(v, "timestamptz")
		}
	case "bool":
		if _, ok := v.(string); ok {
			return coerce(v, "bool")
		}
	case "text":
		switch v.(type) {
		case string, nil:
		default:
			return text(v), nil
		}
	}
	return v, nil
}

func arith(op string, a, b Val) (Val, error) {
	if t, ok := a.(time.Time); ok {
		switch d := b.(type) {
		case Dur:
			if op == "+" {
				return t.Add(time.Duration(d)), nil
			}
			if op == "-" {
				return t.Add(-time.Duration(d)), nil
			}
		case time.Time:
			if op == "-" {
				return Dur(t.Sub(d)), nil
			}
		}
		bad("time arithmetic")
	}
	if d, ok := a.(Dur); ok {
		if e, ok := b.(Dur); ok {
			if op == "+" {
				return d + e, nil
			}
			if op == "-" {
				return d - e, nil
			}
		}
		if t, ok := b.(time.Time); ok && op == "+" {
			return t.Add(time.Duration(d)), nil
		}
		if n, ok := b.(int64); ok && op == "*" {
			return Dur(int64(d) * n), nil
		}
		bad("interval arithmetic")
	}
	if d, ok := b.(Dur); ok {
		if n, ok := a.(int64); ok && op == "*" {
			return Dur(int64(d) * n), nil
		}
		bad("interval arithmetic")
	}
	if p, ok := a.(int64); ok {
		if q, ok := b.(int64); ok {
			switch op {
			case "+":
				r := p + q
				if (r > p) != (q > 0) && q != 0 {
					return nil, pgErr("22003", "bigint out of range")
				}
				return r, nil
			case "-":
				return p - q, nil
			case "*":
				return p * q, nil
			case "/":
				if q == 0 {
					return nil, pgErr("22012", "division by zero")
				}
				return p / q, nil
			case "%":
				if q == 0 {
					return nil, pgErr("22012", "division by zero")
				}
				return p % q, nil
			}
		}
	}
	if f, ok := a.(float64); ok {
		if _, isF := b.(float64); isF {
			g := b.(float64)
			switch op {
			case "+":
				return f + g, nil
			case "-":
				return f - g, nil
			case "*":
				return f * g, nil
			case "/":
				return f / g, nil
			}
		}
	}
	p, ok1 := num(a)
	q, ok2 := num(b)
	if ok1 && ok2 {
		switch op {
		case "+":
			return new(big.Int).Add(p, q), nil
		case "-":
			return new(big.Int).Sub(p, q), nil
		case "*":
			return new(big.Int).Mul(p, q), nil
		}
	}
	m, e1 := dec(a)
	n, e2 := dec(b)
	if e1 != nil || e2 != nil {
		return nil, pgErr("42883", "operator does not exist: "+op)
	}
	switch op {
	case "+":
		return Dec(m.Add(n).String()), nil
	case "-":
		return Dec(m.Sub(n).String()), nil
	case "*":
		return Dec(m.Mul(n).String()), nil
	case "/":
		if n.IsZero() {
			return nil, pgErr("22012", "division by zero")
		}
		return Dec(m.DivRound(n, 20).String()), nil
	}
	bad("arithmetic " + op)
	return nil, nil
}

func (x *exec) in(e *env, t In) (Val, error) {
	v, err := x.eval(e, t.E)
	if err != nil || v == nil {
		return nil, err
	}
	var list []Val
	if t.Sub != nil {
		r, err := x.sel(e, t.Sub)
		if err != nil {
			return nil, err
		}
		for _, row := range r.rows {
			list = append(list, row[0])
		}
	} else {
		for _, ex := range t.List {
			w, err := x.eval(e, ex)
			if err != nil {
				return nil, err
			}
			list = append(list, w)
		}
	}
	ty := x.typeOf(e, t.E)
	null := false
	for _, w := range list {
		if w == nil {
			null = true
			continue
		}
		r, err := x.op("=", v, w, ty, "")
		if err != nil {
			return nil, err
		}
		if r.(bool) {
			return !t.Neg, nil
		}
	}
	if null {
		return nil, nil
	}
	return t.Neg, nil
}

func (x *exec) any(e *env, t AnyOf) (Val, error) {
	a, b, err := x.two(e, t.E, t.Arr)
	if err != nil || a == nil || b == nil {
		return nil, err
	}
	arr, ok := b.([]string)
	if !ok {
		v, err := coerce(b, "texts")
		if err != nil {
			return nil, err
		}
		arr = v.([]string)
	}
	all := strings.HasSuffix(t.Op, " all")
	op := strings.TrimSuffix(t.Op, " all")
	ty := x.typeOf(e, t.E)
	for _, s := range arr {
		r, err := x.op(op, a, s, ty, "")
		if err != nil {
			return nil, err
		}
		if r.(bool) != all {
			return !all, nil
		}
	}
	return all, nil
}

func isAgg(n string) bool {
	switch n {
	case "sum", "count", "max", "min", "avg", "array_agg", "bool_or", "bool_and", "string_agg", "json_agg", "jsonb_agg":
		return true
	}
	return false
}

// hasAgg reports an aggregate in the expression.
func hasAgg(ex Expr) bool {
	switch t := ex.(type) {
	case Fn:
		if isAgg(t.Name) && !t.Over {
			return true
		}
		for _, a := range t.Args {
			if hasAgg(a) {
				return true
			}
		}
	case Bin:
		return hasAgg(t.L) || hasAgg(t.R)
	case Cast:
		return hasAgg(t.E)
	case Unary:
		return hasAgg(t.E)
	case Case:
		for i := range t.When {
			if hasAgg(t.When[i]) || hasAgg(t.Then[i]) {
				return true
			}
		}
		return t.Else != nil && hasAgg(t.Else)
	}
	return false
}

func (x *exec) fn(e *env, t Fn) (Val, error) {
	if isAgg(t.Name) {
		if t.Over {
			if t.Name != "count" || !t.Star {
				bad("window " + t.Name)
			}
			return e.count, nil
		}
		return x.agg(e, t)
	}
	switch t.Name {
	case "now", "clock_timestamp", "current_timestamp":
		if t.Name != "clock_timestamp" && x.tx != nil {
			return wall(x.tx.start), nil
		}
		return wall(time.Now()), nil
	case "coalesce":
		for _, a := range t.Args {
			v, err := x.eval(e, a)
			if err != nil || v != nil {
				return v, err
			}
		}
		return nil, nil
	}
	var args []Val
	for _, a := range t.Args {
		v, err := x.eval(e, a)
		if err != nil {
			return nil, err
		}
		args = append(args, v)
	}
	switch t.Name {
	case "greatest", "least":
		var best Val
		for _, v := range args {
			if v == nil {
				continue
			}
			if best == nil {
				best = v
				continue
			}
			c, err := cmpVal(v, best)
			if err != nil {
				return nil, err
			}
			if c != 0 && (c > 0) == (t.Name == "greatest") {
				best = v
			}
		}
		return best, nil
	case "jsonb_build_object":
		m := "{"
		for i := 0; i+1 < len(args); i += 2 {
			if i > 0 {
				m += ","
			}
			m += quoteJSON(text(args[i])) + ":" + jsonLit(args[i+1])
		}
		return JSON(m + "}"), nil
	case "take_daily_balance_snapshots_batched":
		return x.snapshots()
	}
	for _, v := range args {
		if v == nil {
			return nil, nil
		}
	}
	switch t.Name {
	case "timezone":
		return args[1], nil
	case "jsonb_typeof":
		return jsonType(args[0]), nil
	case "lower":
		return strings.ToLower(text(args[0])), nil
	case "upper":
		return strings.ToUpper(text(args[0])), nil
	case "length", "char_length":
		return int64(len(text(args[0]))), nil
	case "abs":
		if n, ok := num(args[0]); ok {
			return new(big.Int).Abs(n), nil
		}
	case "repeat":
		n, _ := args[1].(int64)
		return strings.Repeat(text(args[0]), int(n)), nil
	case "concat":
		s := ""
		for _, a := range args {
			s += text(a)
		}
		return s, nil
	case "nullif":
		r, err := eqVal(args[0], args[1])
		if err != nil {
			return nil, err
		}
		if r {
			return nil, nil
		}
		return args[0], nil
	case "date_trunc":
		ts, ok := args[1].(time.Time)
		if !ok {
			break
		}
		switch text(args[0]) {
		case "day":
			return time.Date(ts.Year(), ts.Month(), ts.Day(), 0, 0, 0, 0, time.UTC), nil
		}
	}
	bad("function " + t.Name)
	return nil, nil
}

func quoteJSON(s string) string {
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
}

func jsonLit(v Val) string {
	switch v.(type) {
	case nil:
		return "null"
	case string, time.Time:
		return quoteJSON(text(v))
	}
	return text(v)
}

func (x *exec) agg(e *env, t Fn) (Val, error) {
	if e == nil || e.group == nil {
		return nil, pgErr("42803", "aggregate functions are not allowed here")
	}
	var vals []Val
	for _, g := range e.group {
		if t.Star {
			vals = append(vals, true)
			continue
		}
		v, err := x.eval(g, t.Args[0])
		if err != nil {
			return nil, err
		}
		if v == nil {
			continue
		}
		if t.Distinct {
			dup := false
			for _, w := range vals {
				if eqNull(v, w) {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
		}
		vals = append(vals, v)
	}
	if t.Name == "count" {
		return int64(len(vals)), nil
	}
	if len(vals) == 0 {
		return nil, nil
	}
	switch t.Name {
	case "sum":
		ints := true
		for _, v := range vals {
			if _, ok := v.(float64); ok {
				ints = false
			} else if _, ok := num(v); !ok {
				ints = false
			}
		}
		if ints {
			s := new(big.Int)
			for _, v := range vals {
				n, _ := num(v)
				s = new(big.Int).Add(s, n)
			}
			return s, nil
		}
		s := decimal.Zero
		for _, v := range vals {
			d, err := dec(v)
			if err != nil {
				return nil, pgErr("42883", "function sum does not exist")
			}
			s = s.Add(d)
		}
		return Dec(s.String()), nil
	case "max", "min":
		best := vals[0]
		for _, v := range vals[1:] {
			c, err := cmpVal(v, best)
			if err != nil {
				return nil, err
			}
			if c != 0 && (c > 0) == (t.Name == "max") {
				best = v
			}
		}
		return best, nil
	case "bool_or", "bool_and":
		for _, v := range vals {
			b, _ := toBool(v)
			if b == (t.Name == "bool_or") {
				return b, nil
			}
		}
		return t.Name == "bool_and", nil
	case "array_agg":
		var out []string
		for _, v := range vals {
			out = append(out, text(v))
		}
		return out, nil
	}
	bad("aggregate " + t.Name)
	return nil, nil
}

// ---- SELECT

func ordOf(cols []string) map[string]int {
	m := make(map[string]int, len(cols))
	for i, c := range cols {
		if _, ok := m[c]; !ok {
			m[c] = i
		}
	}
	return m
}

func (x *exec) with(ctes []CTE) error {
	for _, c := range ctes {
		r, err := x.stmt(c.Q)
		if err != nil {
			return err
		}
		x.ctes = append(x.ctes, cteRel{c.Name, &rel{r.cols, r.rows}})
	}
	return nil
}

func (x *exec) cte(name string) *rel {
	for i := len(x.ctes) - 1; i >= 0; i-- {
		if x.ctes[i].name == name {
			return x.ctes[i].r
		}
	}
	return nil
}

func (x *exec) table(n string) (*Table, error) {
	t := x.db.Tables[n]
	if t == nil {
		if !strings.Contains(n, ".") {
			return nil, pgErr("42P01", "relation \""+n+"\" does not exist")
		}
		bad("relation " + n)
	}
	return t, nil
}

// cands are the rows a FROM item offers.
func (x *exec) cands(e *env, f From) ([]bound, error) {
	var out []bound
	if f.Sub == nil {
		if c := x.cte(f.Table); c != nil {
			o := ordOf(c.cols)
			for _, r := range c.rows {
				out = append(out, bound{alias: f.Alias, ord: o, cols: c.cols, row: r})
			}
			if len(out) == 0 {
				out = append(out, bound{alias: f.Alias, ord: o, cols: c.cols})
				return out[:0], nil
			}
			return out, nil
		}
		t, err := x.table(f.Table)
		if err != nil {
			return nil, err
		}
		var names []string
		for _, c := range t.Cols {
			names = append(names, c.Name)
		}
		for _, r := range t.recs {
			if row := r.see(x.tx, x.snap); row != nil {
				out = append(out, bound{alias: f.Alias, ord: t.Ord, cols: names, types: t.Cols, row: row, rec: r, tab: t})
			}
		}
		return out, nil
	}
	r, err := x.sel(e, f.Sub)
	if err != nil {
		return nil, err
	}
	cols := r.cols
	if len(f.Cols) > 0 {
		cols = append(append([]string{}, f.Cols...), cols[min(len(f.Cols), len(cols)):]...)
	}
	o := ordOf(cols)
	for _, row := range r.rows {
		out = append(out, bound{alias: f.Alias, ord: o, cols: cols, row: row})
	}
	return out, nil
}

// shape is the bound of a FROM item without a row.
func (x *exec) shape(f From) bound {
	if f.Sub == nil {
		if c := x.cte(f.Table); c != nil {
			return bound{alias: f.Alias, ord: ordOf(c.cols), cols: c.cols}
		}
		if t := x.db.Tables[f.Table]; t != nil {
			var names []string
			for _, c := range t.Cols {
				names = append(names, c.Name)
			}
			return bound{alias: f.Alias, ord: t.Ord, cols: names, types: t.Cols, tab: t}
		}
	}
	cols := f.Cols
	if len(cols) == 0 && f.Sub != nil {
		for _, it := range f.Sub.Items {
			cols = append(cols, it.Alias)
		}
	}
	return bound{alias: f.Alias, ord: ordOf(cols), cols: cols}
}

func (x *exec) join(up *env, froms []From, base []*env) ([]*env, error) {
	envs := base
	for _, f := range froms {
		var cands []bound
		var err error
		if !f.Lateral {
			if cands, err = x.cands(up, f); err != nil {
				return nil, err
			}
		}
		var next []*env
		for _, e := range envs {
			if f.Lateral {
				if cands, err = x.cands(e, f); err != nil {
					return nil, err
				}
			}
			hit := false
			for _, c := range cands {
				ne := &env{up: up, tabs: append(append([]bound{}, e.tabs...), c)}
				if f.On != nil {
					ok, err := x.cond(ne, f.On)
					if err != nil {
						return nil, err
					}
					if !ok {
						continue
					}
				}
				hit = true
				next = append(next, ne)
			}
			if f.Join == "left" && !hit {
				next = append(next, &env{up: up, tabs: append(append([]bound{}, e.tabs...), x.shape(f))})
			}
		}
		envs = next
	}
	return envs, nil
}

func (x *exec) sel(up *env, s *Select) (*rel, error) {
	if len(s.With) > 0 {
		n := len(x.ctes)
		if err := x.with(s.With); err != nil {
			return nil, err
		}
		defer func() { x.ctes = x.ctes[:n] }()
	}
	if s.Values != nil {
		r := &rel{}
		for i := range s.Values[0] {
			r.cols = append(r.cols, "column"+string(rune('1'+i)))
		}
		for _, row := range s.Values {
			var vals []Val
			for _, ex := range row {
				v, err := x.eval(up, ex)
				if err != nil {
					return nil, err
				}
				vals = append(vals, v)
			}
			r.rows = append(r.rows, vals)
		}
		return r, nil
	}
	envs, err := x.join(up, s.From, []*env{{up: up}})
	if err != nil {
		return nil, err
	}
	if s.Where != nil {
		kept := envs[:0:0]
		for _, e := range envs {
			ok, err := x.cond(e, s.Where)
			if err != nil {
				return nil, err
			}
			if ok {
				kept = append(kept, e)
			}
		}
		envs = kept
	}
	agg := len(s.Group) > 0 || s.Having != nil
	for _, it := range s.Items {
		if it.E != nil && hasAgg(it.E) {
			agg = true
		}
	}
	if agg {
		if envs, err = x.groups(up, s, envs); err != nil {
			return nil, err
		}
	}
	for _, e := range envs {
		e.count = int64(len(envs))
	}
	r := &rel{}
	for _, it := range s.Items {
		if it.Star {
			for _, f := range s.From {
				if it.StarT == "" || it.StarT == f.Alias {
					r.cols = append(r.cols, x.shape(f).cols...)
				}
			}
			continue
		}
		r.cols = append(r.cols, it.Alias)
	}
	type line struct {
		e    *env
		vals []Val
		keys []Val
	}
	var lines []line
	early := len(s.Order) == 0 && !s.Distinct && s.Union == nil
	for _, e := range envs {
		vals, err := x.items(e, s.Items)
		if err != nil {
			return nil, err
		}
		if s.Distinct {
			dup := false
			for _, l := range lines {
				same := true
				for i := range vals {
					if !eqNull(vals[i], l.vals[i]) {
						same = false
						break
					}
				}
				if same {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
		}
		lines = append(lines, line{e: e, vals: vals})
	}
	_ = early
	for u := s.Union; u != nil; u = u.Union {
		one := *u
		one.Union = nil
		o, err := x.sel(up, &one)
		if err != nil {
			return nil, err
		}
		for _, row := range o.rows {
			if !s.UnionAll {
				dup := false
				for _, l := range lines {
					same := true
					for i := range row {
						if !eqNull(row[i], l.vals[i]) {
							same = false
							break
						}
					}
					if same {
						dup = true
					}
				}
				if dup {
					continue
				}
			}
			lines = append(lines, line{vals: row})
		}
	}
	if len(s.Order) > 0 {
		for i := range lines {
			for _, o := range s.Order {
				v, err := x.orderKey(lines[i].e, r.cols, lines[i].vals, o.E)
				if err != nil {
					return nil, err
				}
				lines[i].keys = append(lines[i].keys, v)
			}
		}
		for i := 1; i < len(lines); i++ {
			for j := i; j > 0; j-- {
				less, err := before(lines[j].keys, lines[j-1].keys, s.Order)
				if err != nil {
					return nil, err
				}
				if !less {
					if !x.db.Ties || s.Limit == nil {
						break
					}
					more, err := before(lines[j-1].keys, lines[j].keys, s.Order)
					if err != nil {
						return nil, err
					}
					if more || vf.Choose("order of equals", 2) == 0 {
						break
					}
				}
				lines[j], lines[j-1] = lines[j-1], lines[j]
			}
		}
	}
	limit, offset := -1, 0
	if s.Limit != nil {
		v, err := x.eval(up, s.Limit)
		if err != nil {
			return nil, err
		}
		if v != nil {
			n, err := coerce(v, "int")
			if err != nil {
				return nil, err
			}
			if limit = int(n.(int64)); limit < 0 {
				return nil, pgErr("2201W", "LIMIT must not be negative")
			}
		}
	}
	if s.Offset != nil {
		v, err := x.eval(up, s.Offset)
		if err != nil {
			return nil, err
		}
		if v != nil {
			n, err := coerce(v, "int")
			if err != nil {
				return nil, err
			}
			if offset = int(n.(int64)); offset < 0 {
				return nil, pgErr("2201X", "OFFSET must not be negative")
			}
		}
	}
	skipped := 0
	for _, l := range lines {
		if limit >= 0 && len(r.rows) >= limit {
			break
		}
		if s.Lock && l.e != nil {
			ok, vals, err := x.lockLine(l.e, s, l.vals)
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
			l.vals = vals
		}
		if skipped < offset {
			skipped++
			continue
		}
		r.rows = append(r.rows, l.vals)
	}
	return r, nil
}

// lockLine takes the row locks of a FOR UPDATE line; after a wait the line is built again from the newest rows.
func (x *exec) lockLine(e *env, s *Select, vals []Val) (bool, []Val, error) {
	again := false
	for i := range e.tabs {
		b := &e.tabs[i]
		if b.rec == nil {
			continue
		}
		r := b.rec
		if r.owner != nil && r.owner != x.tx {
			if s.Skip {
				return false, nil, nil
			}
			if s.NoWait {
				return false, nil, pgErr("55P03", "could not obtain lock on row")
			}
			if err := x.tx.wait(r); err != nil {
				return false, nil, err
			}
		}
		if !(r.owner == x.tx && r.dirty) && r.lastSeq() > x.snap {
			if x.tx.rr {
				return false, nil, pgErr("40001", "could not serialize access due to concurrent update")
			}
			again = true
			b.row = r.now()
			if b.row == nil {
				return false, nil, nil
			}
		}
		x.tx.own(r)
	}
	if again {
		ok, err := x.cond(e, s.Where)
		if err != nil || !ok {
			return false, nil, err
		}
		vals, err = x.items(e, s.Items)
		if err != nil {
			return false, nil, err
		}
	}
	return true, vals, nil
}

func (x *exec) items(e *env, items []Item) ([]Val, error) {
	var vals []Val
	for _, it := range items {
		if it.Star {
			for i := range e.tabs {
				b := &e.tabs[i]
				if it.StarT == "" || it.StarT == b.alias {
					if b.row == nil {
						vals = append(vals, make([]Val, len(b.cols))...)
					} else {
						vals = append(vals, b.row...)
					}
				}
			}
			continue
		}
		v, err := x.eval(e, it.E)
		if err != nil {
			return nil, err
		}
		vals = append(vals, v)
	}
	return vals, nil
}

func (x *exec) orderKey(e *env, cols []string, vals []Val, ex Expr) (Val, error) {
	switch t := ex.(type) {
	case Col:
		if t.T == "" {
			for i, c := range cols {
				if c == t.N {
					return vals[i], nil
				}
			}
		}
	case Lit:
		if n, ok := t.V.(int64); ok && n >= 1 && int(n) <= len(vals) {
			return vals[n-1], nil
		}
	}
	if e == nil {
		bad("ORDER BY over a union")
	}
	return x.eval(e, ex)
}

func before(a, b []Val, ord []Order) (bool, error) {
	for i := range ord {
		p, q := a[i], b[i]
		if ord[i].Desc {
			p, q = q, p
		}
		if p == nil || q == nil {
			if p == nil && q == nil {
				continue
			}
			return q == nil, nil
		}
		c, err := cmpVal(p, q)
		if err != nil {
			return false, err
		}
		if c != 0 {
			return c < 0, nil
		}
	}
	return false, nil
}

func (x *exec) groups(up *env, s *Select, envs []*env) ([]*env, error) {
	var out []*env
	var keys [][]Val
	if len(s.Group) == 0 {
		g := envs
		if g == nil {
			g = []*env{}
		}
		ge := &env{up: up, group: g}
		if len(envs) == 0 {
			ge.group = make([]*env, 0)
		}
		out = append(out, ge)
	}
	for _, e := range envs {
		if len(s.Group) == 0 {
			break
		}
		var k []Val
		for _, ex := range s.Group {
			if l, ok := ex.(Lit); ok {
				if n, ok := l.V.(int64); ok {
					ex = s.Items[n-1].E
				}
			}
			v, err := x.eval(e, ex)
			if err != nil {
				// a select alias
				found := false
				if c, ok := ex.(Col); ok && c.T == "" {
					for _, it := range s.Items {
						if it.Alias == c.N {
							if v, err = x.eval(e, it.E); err != nil {
								return nil, err
							}
							found = true
						}
					}
				}
				if !found {
					return nil, err
				}
			}
			k = append(k, v)
		}
		at := -1
		for i := range keys {
			same := true
			for j := range k {
				if !eqNull(k[j], keys[i][j]) {
					same = false
					break
				}
			}
			if same {
				at = i
				break
			}
		}
		if at < 0 {
			keys = append(keys, k)
			out = append(out, &env{up: up, group: []*env{e}})
		} else {
			out[at].group = append(out[at].group, e)
		}
	}
	if s.Having != nil {
		kept := out[:0:0]
		for _, g := range out {
			ok, err := x.cond(g, s.Having)
			if err != nil {
				return nil, err
			}
			if ok {
				kept = append(kept, g)
			}
		}
		out = kept
	}
	return out, nil
}
