package interp

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// toStringSafe renders any value for messages; it never runs interpreted code.
func (w *Worker) toStringSafe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.T == nil {
			return "<nil>"
		}
		if p, ok := v.V.(Ptr); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				if m, ok := s[0].(string); ok {
					return w.typeKey(v.T) + "{" + m + "}"
				}
			}
		}
		return w.toStringSafe(v.V)
	case string:
		return v
	case *SymStr:
		return v.String()
	case *sym.Term:
		return v.String()
	case Struct:
		var l []string
		for i, f := range v {
			if i > 12 {
				break
			}
			l = append(l, w.toStringSafe(f))
		}
		return "{" + strings.Join(l, " ") + "}"
	case Slice:
		var l []string
		for i, f := range v {
			if i > 12 {
				break
			}
			l = append(l, w.toStringSafe(f))
		}
		return "[" + strings.Join(l, " ") + "]"
	case Ptr:
		if v == nil {
			return "<nil>"
		}
		return "&" + w.toStringSafe(*v)
	case *SymFloat:
		if v.Exact {
			return fmt.Sprintf("%s/1e%d", v.M, v.K)
		}
		return fmt.Sprintf("~%s", v.Real)
	}
	return fmt.Sprint(v)
}

// fmtAll implements Sprintf.
func (w *Worker) fmtAll(fr *frame, format string, args []Value) Value {
	var r Value = ""
	n := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = concatStr(r, format[i:])
			break
		}
		r = concatStr(r, format[i:i+j])
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[i]) >= 0 {
			if format[i] == '*' || format[i] == '[' {
				w.unsupported("format %q", format)
			}
			i++
		}
		if i >= len(format) {
			r = concatStr(r, "%!(NOVERB)")
			break
		}
		flags, verb := format[st:i], format[i]
		i++
		if verb == '%' {
			r = concatStr(r, "%")
			continue
		}
		if n >= len(args) {
			r = concatStr(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, ok := args[n].(Iface)
		if !ok {
			a = Iface{T: types.Typ[types.Invalid], V: args[n]}
		}
		r = concatStr(r, w.fmtVal(fr, verb, flags, a))
		n++
	}
	if n < len(args) {
		r = concatStr(r, "%!(EXTRA ...)")
	}
	return r
}

func (w *Worker) fmtVal(fr *frame, verb byte, flags string, a Iface) Value {
	if verb == 'T' {
		if a.T == nil {
			return "<nil>"
		}
		return types.TypeString(a.T, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'w' {
		verb = 'v'
	}
	if a.T == nil {
		if verb == 'v' || verb == 's' && false {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	return w.fmtDepth(fr, verb, flags, a, 0)
}

func (w *Worker) isBigIntPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func (w *Worker) fmtDepth(fr *frame, verb byte, flags string, a Iface, depth int) Value {
	if depth > 8 {
		return "..."
	}
	pad := func(s Value) Value {
		if c, ok := s.(string); ok && flags != "" {
			f := strings.Map(func(r rune) rune {
				if r == '+' || r == '#' || r == ' ' {
					return -1
				}
				return r
			}, flags)
			if f != "" && !strings.Contains(f, ".") {
				return fmt.Sprintf("%"+f+"s", c)
			}
		}
		return s
	}
	if w.isBigIntPtr(a.T) {
		p := a.V.(Ptr)
		if p == nil {
			return "<nil>"
		}
		return pad(w.decStr(w.bigOf(p)))
	}
	if isBigInt(a.T) {
		return "{...}"
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if strings.IndexByte("vsqxX", verb) >= 0 && !strings.Contains(flags, "#") {
		for _, m := range []string{"Error", "String"} {
			sig := w.hasMethodSet(a.T, m)
			if sig == nil {
				continue
			}
			if p, ok := a.V.(Ptr); ok && p == nil {
				return "<nil>"
			}
			if w.eng.stubIface(a.T) {
				return "<stub>"
			}
			s, ok := w.callMethod(fr, a, m)
			if ok {
				return w.fmtStr(verb, flags, s)
			}
		}
	}
	switch u := a.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.fmtStr(verb, flags, a.V)
		case u.Info()&types.IsBoolean != 0:
			if w.truth(a.V) {
				return pad("true")
			}
			return pad("false")
		case u.Info()&types.IsInteger != 0:
			if i, ok := a.V.(int64); ok {
				_, signed, _ := intInfo(a.T)
				if signed {
					return fmt.Sprintf("%"+flags+string(verb), i)
				}
				return fmt.Sprintf("%"+flags+string(verb), uint64(i))
			}
			if verb != 'd' && verb != 'v' {
				w.unsupported("format %%%s%c of symbolic integer", flags, verb)
			}
			if strings.Trim(flags, "+-# ") != "" {
				return w.opaque("fmt%"+flags+"d", -1, []Value{w.decStr(a.V.(*sym.Term))})
			}
			return w.decStr(a.V.(*sym.Term))
		case u.Info()&types.IsFloat != 0:
			if f, ok := a.V.(float64); ok {
				if u.Kind() == types.Float32 {
					return fmt.Sprintf("%"+flags+string(verb), float32(f))
				}
				return fmt.Sprintf("%"+flags+string(verb), f)
			}
			prec := -1
			if k := strings.IndexByte(flags, '.'); k >= 0 {
				prec = 0
				fmt.Sscanf(flags[k+1:], "%d", &prec)
			} else if verb == 'f' {
				prec = 6
			}
			if verb == 'v' {
				verb = 'g'
			}
			return w.fmtFloat(a.V.(*SymFloat), verb, prec)
		case u.Kind() == types.UnsafePointer:
			return "0xc000000000"
		}
		return fmt.Sprint(a.V)
	case *types.Interface:
		x, ok := a.V.(Iface)
		if !ok || x.T == nil {
			return "<nil>"
		}
		return w.fmtDepth(fr, verb, flags, x, depth+1)
	case *types.Pointer:
		p, _ := a.V.(Ptr)
		if p == nil {
			return "<nil>"
		}
		if depth > 0 {
			return "0xc000000000"
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return concatStr("&", w.fmtDepth(fr, verb, flags, Iface{T: u.Elem(), V: *p}, depth+1))
		}
		return "0xc000000000"
	case *types.Struct:
		s, ok := a.V.(Struct)
		if !ok {
			return fmt.Sprintf("%v", a.V)
		}
		var r Value = "{"
		for i := range s {
			if i > 0 {
				r = concatStr(r, " ")
			}
			if strings.Contains(flags, "+") {
				r = concatStr(r, u.Field(i).Name()+":")
			}
			r = concatStr(r, w.fmtElem(fr, verb, flags, u.Field(i).Type(), s[i], depth))
		}
		return concatStr(r, "}")
	case *types.Slice, *types.Array:
		var el types.Type
		var xs []Value
		if t, ok := u.(*types.Slice); ok {
			el = t.Elem()
			xs, _ = a.V.(Slice)
		} else {
			el = u.(*types.Array).Elem()
			xs, _ = a.V.(Array)
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if verb == 's' || verb == 'q' {
				return w.fmtStr(verb, flags, normStr(append([]Value{}, xs...)))
			}
			if verb == 'x' {
				if c, ok := normStr(append([]Value{}, xs...)).(string); ok {
					return hex.EncodeToString([]byte(c))
				}
				if len(xs) > 0 {
					if at, ok := xs[0].(*Atom); ok {
						return w.opaque("hex", at.Len*2, []Value{&SymStr{E: []Value{at}}})
					}
				}
				w.unsupported("hex of symbolic bytes")
			}
		}
		var r Value = "["
		for i, x := range xs {
			if i > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, w.fmtElem(fr, verb, flags, el, x, depth))
		}
		return concatStr(r, "]")
	case *types.Map:
		m := a.V.(*Map)
		var r Value = "map["
		if m != nil {
			ents := w.sortedEnts(m)
			for i, e := range ents {
				if i > 0 {
					r = concatStr(r, " ")
				}
				r = concatStr(r, w.fmtElem(fr, verb, flags, u.Key(), e.k, depth))
				r = concatStr(r, ":")
				r = concatStr(r, w.fmtElem(fr, verb, flags, u.Elem(), e.v, depth))
			}
		}
		return concatStr(r, "]")
	case *types.Signature, *types.Chan:
		if isNil(a.V) {
			return "<nil>"
		}
		return "0xc000000000"
	}
	return fmt.Sprintf("%v", a.V)
}

func (w *Worker) fmtElem(fr *frame, verb byte, flags string, t types.Type, v Value, depth int) Value {
	if f, ok := v.(Iface); ok {
		if f.T == nil {
			return "<nil>"
		}
		return w.fmtDepth(fr, verb, flags, f, depth+1)
	}
	return w.fmtDepth(fr, verb, flags, Iface{T: t, V: v}, depth+1)
}

// sortedEnts orders map entries by concrete key text; symbolic keys keep insertion order at the end.
func (w *Worker) sortedEnts(m *Map) []*mapEntry {
	var l []*mapEntry
	for _, e := range m.ents {
		if !e.dead {
			l = append(l, e)
		}
	}
	key := func(v Value) string {
		if f, ok := v.(Iface); ok {
			v = f.V
		}
		switch v := v.(type) {
		case string:
			return "0" + v
		case int64:
			return fmt.Sprintf("0%020d", v)
		case bool:
			return fmt.Sprint(v)
		}
		return "\xff"
	}
	sort.SliceStable(l, func(i, j int) bool { return key(l[i].k) < key(l[j].k) })
	return l
}

func (w *Worker) fmtStr(verb byte, flags string, s Value) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf("%"+flags+string(verb), c)
	}
	switch verb {
	case 'q':
		return concatStr(concatStr("\"", s), "\"")
	case 's', 'v':
		return s
	case 'x':
		return w.opaque("hexs", -1, []Value{s})
	}
	w.unsupported("format %%%c of symbolic string", verb)
	return nil
}

// hasMethodSet reports a nullary string method that is in the method set of t itself.
func (w *Worker) hasMethodSet(t types.Type, name string) *types.Signature {
	o, _, ind := types.LookupFieldOrMethod(t, false, nil, name)
	f, ok := o.(*types.Func)
	if !ok || ind {
		return nil
	}
	sig := f.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return nil
	}
	return sig
}

func (w *Worker) errorf(fr *frame, format Value, args []Value) Value {
	f := w.concStr(format)
	msg := w.fmtAll(fr, f, args)
	// find %w operands
	var errs []Iface
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && n < len(args) {
			if e, ok := args[n].(Iface); ok && e.T != nil {
				errs = append(errs, e)
			}
		}
		n++
	}
	fp := w.eng.Pkgs["fmt"]
	switch len(errs) {
	case 0:
		return w.mkErrorV(msg)
	case 1:
		var s Value = Struct{msg, errs[0]}
		return Iface{T: w.eng.ptrTo(fp.Type("wrapError").Type()), V: Ptr(&s)}
	}
	l := make(Slice, len(errs))
	for i, e := range errs {
		l[i] = e
	}
	var s Value = Struct{msg, l}
	return Iface{T: w.eng.ptrTo(fp.Type("wrapErrors").Type()), V: Ptr(&s)}
}

// ---- regular expressions over symbolic bytes: an anchored or unanchored match is unrolled into a term

func (w *Worker) reMatch(pat string, v Value) Value {
	e := strElems(v)
	for _, x := range e {
		if a, ok := x.(*Atom); ok {
			_ = a
			w.unsupported("regexp %q on text of unknown length", pat)
		}
	}
	rx, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		w.unsupported("regexp %q", pat)
	}
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		w.unsupported("regexp %q", pat)
	}
	b := w.bank
	n := len(e)
	// reach[pc] at position i: condition under which the thread is alive
	matched := b.False
	cur := map[uint32]*sym.Term{}
	var add func(m map[uint32]*sym.Term, pc uint32, pos int, c *sym.Term)
	add = func(m map[uint32]*sym.Term, pc uint32, pos int, c *sym.Term) {
		if c.IsFalse() {
			return
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(m, in.Out, pos, c)
			add(m, in.Arg, pos, c)
			return
		case syntax.InstCapture, syntax.InstNop:
			add(m, in.Out, pos, c)
			return
		case syntax.InstEmptyWidth:
			ew := syntax.EmptyOp(in.Arg)
			ok := true
			if ew&(syntax.EmptyBeginText) != 0 && pos != 0 {
				ok = false
			}
			if ew&(syntax.EmptyEndText) != 0 && pos != n {
				ok = false
			}
			if ew&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				if ew&(syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
					if ew&syntax.EmptyBeginLine != 0 && pos != 0 || ew&syntax.EmptyEndLine != 0 && pos != n {
						w.unsupported("multi-line regexp %q", pat)
					}
				} else {
					w.unsupported("regexp operator in %q", pat)
				}
			}
			if ok {
				add(m, in.Out, pos, c)
			}
			return
		case syntax.InstMatch:
			matched = b.Or(matched, c)
			return
		case syntax.InstFail:
			return
		}
		if o, ok := m[pc]; ok {
			c = b.Or(o, c)
		}
		m[pc] = c
	}
	for i := 0; i <= n; i++ {
		if i == 0 || true {
			add(cur, uint32(prog.Start), i, b.True)
		}
		if i == n {
			break
		}
		next := map[uint32]*sym.Term{}
		pcs := make([]uint32, 0, len(cur))
		for pc := range cur {
			pcs = append(pcs, pc)
		}
		sort.Slice(pcs, func(a, b int) bool { return pcs[a] < pcs[b] })
		for _, pc := range pcs {
			in := &prog.Inst[pc]
			add(next, in.Out, i+1, b.And(cur[pc], w.runeCond(in, e[i])))
		}
		cur = next
	}
	return w.fromBool(matched)
}

func (w *Worker) runeCond(in *syntax.Inst, x Value) *sym.Term {
	b := w.bank
	c := w.byteTerm(x)
	if c.Hi == nil || c.Hi.Int64() > 127 {
		if !w.branch(b.Lt(c, b.Int64(128))) {
			w.unsupported("regexp on non-ASCII byte")
		}
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return b.True
	case syntax.InstRuneAnyNotNL:
		return b.Not(b.Eq(c, b.Int64('\n')))
	}
	if cc, ok := x.(int64); ok {
		return b.BoolC(in.MatchRune(rune(cc)))
	}
	// build from the 128 ASCII values as ranges
	var ors []*sym.Term
	for lo := 0; lo < 128; {
		if !in.MatchRune(rune(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi+1 < 128 && in.MatchRune(rune(hi+1)) {
			hi++
		}
		ors = append(ors, b.And(b.Le(b.Int64(int64(lo)), c), b.Le(c, b.Int64(int64(hi)))))
		lo = hi + 1
	}
	return b.Or(ors...)
}

var _ *ssa.Function

// reFind looks for the leftmost-first match of prog in e starting at or after pos, forking on what the symbolic bytes
// are, and returns the capture positions (nil: no match).
func (w *Worker) reFind(prog *syntax.Prog, ncap int, e []Value, from int) []int {
	n := len(e)
	word := func(i int) bool {
		if i < 0 || i >= n {
			return false
		}
		if c, ok := e[i].(int64); ok {
			return syntax.IsWordChar(rune(c))
		}
		c := w.byteTerm(e[i])
		b := w.bank
		rng := func(lo, hi int64) *sym.Term { return b.And(b.Le(b.Int64(lo), c), b.Le(c, b.Int64(hi))) }
		return w.branch(b.Or(rng('0', '9'), rng('A', 'Z'), rng('a', 'z'), b.Eq(c, b.Int64('_'))))
	}
	for s := from; s <= n; s++ {
		seen := map[[2]int]bool{}
		caps := make([]int, ncap)
		for i := range caps {
			caps[i] = -1
		}
		var try func(pc uint32, pos int) bool
		try = func(pc uint32, pos int) bool {
			k := [2]int{int(pc), pos}
			if seen[k] {
				return false
			}
			seen[k] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return try(in.Out, pos) || try(in.Arg, pos)
			case syntax.InstCapture:
				if int(in.Arg) < len(caps) {
					old := caps[in.Arg]
					caps[in.Arg] = pos
					if try(in.Out, pos) {
						return true
					}
					caps[in.Arg] = old
					return false
				}
				return try(in.Out, pos)
			case syntax.InstNop:
				return try(in.Out, pos)
			case syntax.InstEmptyWidth:
				ew := syntax.EmptyOp(in.Arg)
				if ew&syntax.EmptyBeginText != 0 && pos != 0 || ew&syntax.EmptyEndText != 0 && pos != n {
					return false
				}
				if ew&(syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
					w.unsupported("multi-line regexp")
				}
				if ew&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					at := word(pos-1) != word(pos)
					if ew&syntax.EmptyWordBoundary != 0 && !at || ew&syntax.EmptyNoWordBoundary != 0 && at {
						return false
					}
				}
				return try(in.Out, pos)
			case syntax.InstMatch:
				caps[0], caps[1] = s, pos
				return true
			case syntax.InstFail:
				return false
			}
			if pos >= n {
				return false
			}
			if c, ok := e[pos].(int64); ok {
				ok = c < 128 && (in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL && c != '\n' || in.Op != syntax.InstRuneAny && in.Op != syntax.InstRuneAnyNotNL && in.MatchRune(rune(c)))
				if c >= 128 {
					w.unsupported("regexp on non-ASCII byte")
				}
				return ok && try(in.Out, pos+1)
			}
			return w.branch(w.runeCond(in, e[pos])) && try(in.Out, pos+1)
		}
		if try(uint32(prog.Start), s) {
			return caps
		}
	}
	return nil
}

// reReplace is Regexp.ReplaceAllString(Func) on text with symbolic bytes.
func (w *Worker) reReplace(re *regexp.Regexp, src Value, repl func(caps []int, e []Value) []Value) Value {
	e := strElems(src)
	for _, x := range e {
		if _, ok := x.(*Atom); ok {
			w.unsupported("regexp %q on text of unknown length", re.String())
		}
	}
	rx, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		w.unsupported("regexp %q", re.String())
	}
	ncap := 2 * (rx.MaxCap() + 1)
	prog, err := syntax.Compile(rx.Simplify())
	if err != nil {
		w.unsupported("regexp %q", re.String())
	}
	var out []Value
	last, at := 0, 0
	for at <= len(e) {
		c := w.reFind(prog, ncap, e, at)
		if c == nil {
			break
		}
		out = append(out, e[last:c[0]]...)
		if c[1] > last || c[0] == 0 {
			out = append(out, repl(c, e)...)
		}
		last = c[1]
		if c[1] > at {
			at = c[1]
		} else {
			at++
		}
	}
	return normStr(append(out, e[last:]...))
}

// reTemplate expands $1-style templates with numeric names.
func (w *Worker) reTemplate(t string, caps []int, e []Value) []Value {
	var out []Value
	for i := 0; i < len(t); i++ {
		if t[i] != '$' || i+1 == len(t) {
			out = append(out, int64(t[i]))
			continue
		}
		if t[i+1] == '$' {
			out = append(out, int64('$'))
			i++
			continue
		}
		j, brace := i+1, false
		if t[j] == '{' {
			brace = true
			j++
		}
		k := j
		for k < len(t) && (t[k] >= '0' && t[k] <= '9' || t[k] == '_' || t[k] >= 'a' && t[k] <= 'z' || t[k] >= 'A' && t[k] <= 'Z') {
			k++
		}
		if k == j || brace && (k == len(t) || t[k] != '}') {
			out = append(out, int64('$'))
			continue
		}
		num := 0
		for _, d := range t[j:k] {
			if d < '0' || d > '9' {
				num = -1
				break
			}
			num = num*10 + int(d-'0')
		}
		if num >= 0 && 2*num+1 < len(caps) && caps[2*num] >= 0 {
			out = append(out, e[caps[2*num]:caps[2*num+1]]...)
		}
		if brace {
			k++
		}
		i = k - 1
	}
	return out
}
