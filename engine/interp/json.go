package interp

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/engine/sym"
)

// JSON encoding and decoding over engine values; byte slices may carry symbolic bytes and atoms.

type jsonErr struct{ v Value }

func (w *Worker) jsonFail(f string, a ...any) { panic(&jsonErr{w.mkError(fmt.Sprintf(f, a...))}) }

type jsonField struct {
	name      string
	path      []int
	omitempty bool
	omitzero  bool
	str       bool
	t         types.Type
}

func (w *Worker) jsonFields(st *types.Struct) []jsonField {
	if f, ok := w.jfields[st]; ok {
		return f
	}
	var out []jsonField
	var walk func(st *types.Struct, path []int)
	walk = func(st *types.Struct, path []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := tagGet(st.Tag(i), "json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			p := append(append([]int{}, path...), i)
			ft := f.Type()
			if f.Embedded() && name == "" {
				t := ft
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if es, ok := t.Underlying().(*types.Struct); ok {
					walk(es, p)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			jf := jsonField{name: name, path: p, t: ft}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					jf.omitempty = true
				case "omitzero":
					jf.omitzero = true
				case "string":
					jf.str = true
				}
			}
			dup := false
			for k := range out {
				if out[k].name == name {
					if len(out[k].path) > len(p) {
						out[k] = jf
					}
					dup = true
				}
			}
			if !dup {
				out = append(out, jf)
			}
		}
	}
	walk(st, nil)
	w.jfields[st] = out
	return out
}

func tagGet(tag, key string) string {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		if tag == "" {
			break
		}
		i = 0
		for i < len(tag) && tag[i] > ' ' && tag[i] != ':' && tag[i] != '"' {
			i++
		}
		if i == 0 || i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			break
		}
		name := tag[:i]
		tag = tag[i+1:]
		i = 1
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(tag) {
			break
		}
		q := tag[:i+1]
		tag = tag[i+1:]
		if name == key {
			v, err := strconv.Unquote(q)
			if err != nil {
				break
			}
			return v
		}
	}
	return ""
}

type jenc struct {
	w  *Worker
	fr *frame
	b  []Value
}

func (e *jenc) s(x string) {
	for i := 0; i < len(x); i++ {
		e.b = append(e.b, int64(x[i]))
	}
}

func (e *jenc) v(x Value) { e.b = append(e.b, strElems(x)...) }

func (e *jenc) str(x Value) {
	w := e.w
	if c, ok := x.(string); ok {
		b, _ := json.Marshal(c)
		e.s(string(b))
		return
	}
	e.s("\"")
	for _, c := range strElems(x) {
		switch c := c.(type) {
		case int64:
			if c >= 0x80 {
				e.b = append(e.b, c)
				continue
			}
			b, _ := json.Marshal(string(rune(c)))
			e.s(string(b[1 : len(b)-1]))
		case *sym.Term:
			bk := w.bank
			special := bk.False
			special = bk.Or(special, bk.Lt(c, bk.Int64(0x20)), bk.Lt(bk.Int64(0x7e), c))
			for _, q := range "\"\\<>&" {
				special = bk.Or(special, bk.Eq(c, bk.Int64(int64(q))))
			}
			if !w.branch(special) {
				e.b = append(e.b, c)
				continue
			}
			done := false
			for _, q := range "\"\\<>&\n\r\t" {
				if w.branch(bk.Eq(c, bk.Int64(int64(q)))) {
					b, _ := json.Marshal(string(q))
					e.s(string(b[1 : len(b)-1]))
					done = true
					break
				}
			}
			if !done {
				w.unsupported("json encoding of symbolic control or non-ASCII byte")
			}
		default:
			e.b = append(e.b, c)
		}
	}
	e.s("\"")
}

func (e *jenc) iface(v Value) {
	f, _ := v.(Iface)
	if f.T == nil {
		e.s("null")
		return
	}
	e.val(f.T, f.V, nil)
}

func (e *jenc) val(t types.Type, v Value, addr Ptr) {
	w := e.w
	if isBigInt(t) {
		e.v(w.decStr(v.(*sym.Term)))
		return
	}
	if w.isBigIntPtr(t) {
		p := v.(Ptr)
		if p == nil {
			e.s("null")
			return
		}
		e.v(w.decStr(w.bigOf(p)))
		return
	}
	switch w.typeKey(t) {
	case "time.Time":
		if g, ok := w.goTime(v); ok {
			b, err := g.MarshalJSON()
			if err != nil {
				w.jsonFail("%v", err)
			}
			e.s(string(b))
			return
		}
		e.s("\"")
		e.v(w.symTimeFmt(v, "2006-01-02T15:04:05.999999999Z07:00"))
		e.s("\"")
		return
	case "encoding/json.Number":
		if s, ok := v.(string); ok && s == "" {
			e.s("0")
			return
		}
		e.v(v)
		return
	case "encoding/json.RawMessage":
		s := v.(Slice)
		if s == nil {
			e.s("null")
			return
		}
		e.b = append(e.b, s...)
		return
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	_, isIf := t.Underlying().(*types.Interface)
	if !isIf {
		if isPtr && v.(Ptr) == nil {
			e.s("null")
			return
		}
		for _, mn := range []string{"MarshalJSON", "MarshalText"} {
			o, _, ind := types.LookupFieldOrMethod(t, addr != nil, nil, mn)
			f, ok := o.(*types.Func)
			if !ok || f.Type().(*types.Signature).Params().Len() != 0 || f.Type().(*types.Signature).Results().Len() != 2 {
				continue
			}
			_ = ind
			var r Value
			if m := w.eng.lookupMethod(t, nil, mn); m != nil {
				r = w.call(e.fr, m, []Value{copyVal(v)})
			} else if addr != nil {
				if m := w.eng.lookupMethod(types.NewPointer(t), nil, mn); m != nil {
					r = w.call(e.fr, m, []Value{addr})
				}
			}
			if r == nil {
				continue
			}
			tp := r.(Tuple)
			if er := tp[1].(Iface); er.T != nil {
				panic(&jsonErr{er})
			}
			if mn == "MarshalText" {
				e.str(normStr(append([]Value{}, tp[0].(Slice)...)))
			} else {
				e.b = append(e.b, tp[0].(Slice)...)
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if w.truth(v) {
				e.s("true")
			} else {
				e.s("false")
			}
		case u.Info()&types.IsInteger != 0:
			e.v(w.decStr(w.intTerm(v, t)))
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				b, err := json.Marshal(f)
				if err != nil {
					w.jsonFail("%v", err)
				}
				e.s(string(b))
			} else {
				e.v(w.fmtFloat(v.(*SymFloat), 'f', -1))
			}
		case u.Info()&types.IsString != 0:
			e.str(v)
		default:
			w.jsonFail("json: unsupported type: %s", t)
		}
	case *types.Pointer:
		p := v.(Ptr)
		e.val(u.Elem(), *p, p)
	case *types.Interface:
		e.iface(v)
	case *types.Struct:
		s := v.(Struct)
		e.s("{")
		first := true
		for _, f := range w.jsonFields(u) {
			fv, fp, ok := walkField(t, s, f.path, addr != nil)
			if !ok {
				continue
			}
			if f.omitempty && w.jsonEmpty(f.t, fv) {
				continue
			}
			if f.omitzero && w.truth(w.equals(f.t, fv, w.zero(f.t))) {
				continue
			}
			if !first {
				e.s(",")
			}
			first = false
			e.str(f.name)
			e.s(":")
			if f.str {
				if b, ok := f.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
					e.s("\"")
					e.val(f.t, fv, fp)
					e.s("\"")
					continue
				}
			}
			e.val(f.t, fv, fp)
		}
		e.s("}")
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			e.s("null")
			return
		}
		e.s("{")
		for i, en := range w.sortedEnts(m) {
			if i > 0 {
				e.s(",")
			}
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				e.str(w.decStr(w.intTerm(en.k, u.Key())))
			} else {
				e.str(en.k)
			}
			e.s(":")
			e.val(u.Elem(), en.v, nil)
		}
		e.s("}")
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.s("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			c, ok := normStr(append([]Value{}, s...)).(string)
			if !ok {
				w.unsupported("base64 of symbolic bytes")
			}
			e.s("\"" + base64.StdEncoding.EncodeToString([]byte(c)) + "\"")
			return
		}
		e.s("[")
		for i := range s {
			if i > 0 {
				e.s(",")
			}
			e.val(u.Elem(), s[i], &s[i])
		}
		e.s("]")
	case *types.Array:
		a := v.(Array)
		e.s("[")
		for i := range a {
			if i > 0 {
				e.s(",")
			}
			e.val(u.Elem(), a[i], nil)
		}
		e.s("]")
	default:
		w.jsonFail("json: unsupported type: %s", t)
	}
}

func walkField(t types.Type, s Struct, path []int, addr bool) (Value, Ptr, bool) {
	var v Value = s
	var p Ptr
	for _, i := range path {
		if q, ok := v.(Ptr); ok {
			if q == nil {
				return nil, nil, false
			}
			v = *q
			addr = true
		}
		st := v.(Struct)
		v = st[i]
		if addr {
			p = &st[i]
		}
	}
	return v, p, true
}

func (w *Worker) jsonEmpty(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return w.truth(w.equals(t, v, w.zero(t)))
	case *types.Pointer, *types.Interface:
		return isNil(v)
	case *types.Slice:
		return len(v.(Slice)) == 0
	case *types.Map:
		m := v.(*Map)
		return m == nil || m.n == 0
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

// ---- decoding

type jdec struct {
	w      *Worker
	fr     *frame
	b      []Value
	i      int
	useNum bool
	strict bool
}

// jval is a parsed JSON value.
type jval struct {
	kind  byte // n,t,f,0 (number),s,a,o
	text  Value
	keys  []Value
	elems []*jval
	raw   []Value
}

func (d *jdec) fail(f string, a ...any) { d.w.jsonFail(f, a...) }

func (d *jdec) peek() (byte, bool) {
	for d.i < len(d.b) {
		c, ok := d.b[d.i].(int64)
		if !ok {
			return 0, false
		}
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			d.i++
			continue
		}
		return byte(c), true
	}
	d.fail("unexpected end of JSON input")
	return 0, false
}

func (d *jdec) lit(s string) {
	for i := 0; i < len(s); i++ {
		if d.i >= len(d.b) || d.b[d.i] != int64(s[i]) {
			d.fail("invalid character in literal")
		}
		d.i++
	}
}

func (d *jdec) value() *jval {
	st := 0
	c, conc := d.peek()
	st = d.i
	r := &jval{}
	switch {
	case !conc:
		d.number(r)
	case c == 'n':
		d.lit("null")
		r.kind = 'n'
	case c == 't':
		d.lit("true")
		r.kind = 't'
	case c == 'f':
		d.lit("false")
		r.kind = 'f'
	case c == '"':
		r.kind = 's'
		r.text = d.str()
	case c == '[':
		r.kind = 'a'
		d.i++
		if c, ok := d.peek(); ok && c == ']' {
			d.i++
			break
		}
		for {
			r.elems = append(r.elems, d.value())
			c, ok := d.peek()
			if ok && c == ',' {
				d.i++
				continue
			}
			if ok && c == ']' {
				d.i++
				break
			}
			d.fail("invalid character after array element")
		}
	case c == '{':
		r.kind = 'o'
		d.i++
		if c, ok := d.peek(); ok && c == '}' {
			d.i++
			break
		}
		for {
			c, ok := d.peek()
			if !ok || c != '"' {
				d.fail("invalid character looking for beginning of object key string")
			}
			r.keys = append(r.keys, d.str())
			c, ok = d.peek()
			if !ok || c != ':' {
				d.fail("invalid character after object key")
			}
			d.i++
			r.elems = append(r.elems, d.value())
			c, ok = d.peek()
			if ok && c == ',' {
				d.i++
				continue
			}
			if ok && c == '}' {
				d.i++
				break
			}
			d.fail("invalid character after object key:value pair")
		}
	case c == '-' || c >= '0' && c <= '9':
		d.number(r)
	default:
		d.fail("invalid character %q looking for beginning of value", c)
	}
	r.raw = d.b[st:d.i]
	return r
}

func (d *jdec) number(r *jval) {
	r.kind = '0'
	st := d.i
	for d.i < len(d.b) {
		switch c := d.b[d.i].(type) {
		case int64:
			if strings.IndexByte("+-0123456789.eE", byte(c)) < 0 {
				goto done
			}
		case *Atom:
			if c.Kind != "dec" && c.Kind != "fdec" && c.Kind != "fun" {
				d.w.unsupported("json number from %s text", c.Kind)
			}
		case *sym.Term:
			if c.Lo == nil || c.Hi == nil || c.Lo.Int64() < '0' || c.Hi.Int64() > '9' {
				d.w.unsupported("json number with symbolic byte")
			}
		}
		d.i++
	}
done:
	r.text = normStr(append([]Value{}, d.b[st:d.i]...))
	if s, ok := r.text.(string); ok && !json.Valid([]byte(s)) {
		d.fail("invalid number literal %q", s)
	}
}

func (d *jdec) str() Value {
	w := d.w
	d.i++
	var out []Value
	for {
		if d.i >= len(d.b) {
			d.fail("unexpected end of JSON input")
		}
		x := d.b[d.i]
		d.i++
		switch c := x.(type) {
		case int64:
			if c == '"' {
				return normStr(out)
			}
			if c < 0x20 {
				d.fail("invalid character %q in string literal", rune(c))
			}
			if c == '\\' {
				if d.i >= len(d.b) {
					d.fail("unexpected end of JSON input")
				}
				n, ok := d.b[d.i].(int64)
				if !ok {
					w.unsupported("symbolic JSON escape")
				}
				d.i++
				switch n {
				case '"', '\\', '/':
					out = append(out, n)
				case 'b':
					out = append(out, int64('\b'))
				case 'f':
					out = append(out, int64('\f'))
				case 'n':
					out = append(out, int64('\n'))
				case 'r':
					out = append(out, int64('\r'))
				case 't':
					out = append(out, int64('\t'))
				case 'u':
					var h string
					for k := 0; k < 4 && d.i < len(d.b); k++ {
						c, ok := d.b[d.i].(int64)
						if !ok {
							w.unsupported("symbolic JSON escape")
						}
						h += string(rune(c))
						d.i++
					}
					v, err := strconv.ParseUint(h, 16, 32)
					if err != nil {
						d.fail("invalid character in \\u hexadecimal character escape")
					}
					if v >= 0xd800 && v < 0xe000 {
						w.unsupported("JSON surrogate escape")
					}
					var buf [4]byte
					n := utf8.EncodeRune(buf[:], rune(v))
					out = append(out, strElems(string(buf[:n]))...)
				default:
					d.fail("invalid character %q in string escape code", rune(n))
				}
				continue
			}
			out = append(out, c)
		case *sym.Term:
			b := w.bank
			if w.branch(b.Eq(c, b.Int64('"'))) {
				return normStr(out)
			}
			if w.branch(b.Lt(c, b.Int64(0x20))) {
				d.fail("invalid character in string literal")
			}
			if w.branch(b.Eq(c, b.Int64('\\'))) {
				w.unsupported("symbolic JSON escape")
			}
			if c.Hi == nil || c.Hi.Int64() > 0x7f {
				if w.branch(b.Lt(b.Int64(0x7f), c)) {
					w.unsupported("symbolic non-ASCII JSON text")
				}
			}
			out = append(out, c)
		default:
			out = append(out, x)
		}
	}
}

func (d *jdec) anyOf(j *jval) Value {
	w := d.w
	switch j.kind {
	case 'n':
		return Iface{}
	case 't':
		return Iface{T: types.Typ[types.Bool], V: true}
	case 'f':
		return Iface{T: types.Typ[types.Bool], V: false}
	case 's':
		return Iface{T: types.Typ[types.String], V: j.text}
	case '0':
		if d.useNum {
			return Iface{T: w.eng.Pkgs["encoding/json"].Type("Number").Type(), V: j.text}
		}
		return Iface{T: types.Typ[types.Float64], V: d.float(j.text)}
	case 'a':
		s := Slice{}
		for _, e := range j.elems {
			s = append(s, d.anyOf(e))
		}
		return Iface{T: w.eng.anySlice(), V: s}
	case 'o':
		m := w.newMap()
		for i, k := range j.keys {
			w.mapSet(m, k, d.anyOf(j.elems[i]), types.Typ[types.String])
		}
		return Iface{T: w.eng.anyMap(), V: m}
	}
	return Iface{}
}

func (d *jdec) float(t Value) Value {
	if s, ok := t.(string); ok {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			d.fail("json: cannot unmarshal number %s into Go value of type float64", s)
		}
		return f
	}
	s := t.(*SymStr)
	if len(s.E) == 1 {
		if a, ok := s.E[0].(*Atom); ok {
			switch a.Kind {
			case "dec", "fdec":
				return d.w.floatOfDec(a.T, -a.K)
			case "fun":
				return &SymFloat{Real: a.T}
			}
		}
	}
	if m, ok := d.w.parseBig(t, 10); ok {
		return d.w.floatOfDec(m, 0)
	}
	d.w.unsupported("json number %s", s)
	return nil
}

var anyT = types.Universe.Lookup("any").Type()

func (e *Engine) anySlice() types.Type { return types.NewSlice(anyT) }
func (e *Engine) anyMap() types.Type {
	return types.NewMap(types.Typ[types.String], anyT)
}

// into stores a parsed value at p of type t.
func (d *jdec) into(j *jval, t types.Type, p Ptr) {
	w := d.w
	if isBigInt(t) {
		if j.kind == 'n' {
			return
		}
		if j.kind != '0' {
			d.fail("math/big: cannot unmarshal into a *big.Int")
		}
		m, ok := w.parseBig(j.text, 10)
		if !ok {
			d.fail("math/big: cannot unmarshal %s into a *big.Int", w.toStringSafe(j.text))
		}
		w.store(p, m)
		return
	}
	switch w.typeKey(t) {
	case "time.Time":
		if j.kind == 'n' {
			return
		}
		if j.kind != 's' {
			d.fail("Time.UnmarshalJSON: input is not a JSON string")
		}
		r := intrinsics["time.Parse"](d.fr, []Value{"2006-01-02T15:04:05.999999999Z07:00", j.text}).(Tuple)
		if er := r[1].(Iface); er.T != nil {
			panic(&jsonErr{er})
		}
		w.store(p, r[0])
		return
	case "encoding/json.RawMessage":
		w.store(p, append(Slice{}, j.raw...))
		return
	case "encoding/json.Number":
		if j.kind == 'n' {
			return
		}
		w.store(p, j.text)
		return
	}
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
		if _, isIf := t.Underlying().(*types.Interface); !isIf {
			for _, mn := range []string{"UnmarshalJSON", "UnmarshalText"} {
				o, _, _ := types.LookupFieldOrMethod(t, true, nil, mn)
				f, ok := o.(*types.Func)
				if !ok || f.Type().(*types.Signature).Params().Len() != 1 {
					continue
				}
				m := w.eng.lookupMethod(w.eng.ptrTo(t), nil, mn)
				if m == nil {
					continue
				}
				arg := append(Slice{}, j.raw...)
				if mn == "UnmarshalText" {
					if j.kind != 's' {
						d.fail("json: cannot unmarshal into %s", t)
					}
					arg = Slice(append([]Value{}, strElems(j.text)...))
				}
				if er := w.call(d.fr, m, []Value{p, arg}).(Iface); er.T != nil {
					panic(&jsonErr{er})
				}
				return
			}
		}
	}
	bad := func() {
		k := map[byte]string{'t': "bool", 'f': "bool", '0': "number", 's': "string", 'a': "array", 'o': "object"}[j.kind]
		d.fail("json: cannot unmarshal %s into Go value of type %s", k, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if j.kind == 'n' {
			w.store(p, Ptr(nil))
			return
		}
		q, _ := (*p).(Ptr)
		if q == nil {
			z := w.zero(u.Elem())
			q = &z
			w.store(p, q)
		}
		d.into(j, u.Elem(), q)
	case *types.Interface:
		if f, ok := (*p).(Iface); ok && f.T != nil && j.kind != 'n' {
			if pt, ok := f.T.Underlying().(*types.Pointer); ok && f.V.(Ptr) != nil {
				d.into(j, pt.Elem(), f.V.(Ptr))
				return
			}
		}
		if u.NumMethods() > 0 {
			if j.kind == 'n' {
				w.store(p, Iface{})
				return
			}
			bad()
		}
		w.store(p, d.anyOf(j))
	case *types.Basic:
		if j.kind == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if j.kind != 't' && j.kind != 'f' {
				bad()
			}
			w.store(p, j.kind == 't')
		case u.Info()&types.IsString != 0:
			if j.kind != 's' {
				bad()
			}
			w.store(p, j.text)
		case u.Info()&types.IsFloat != 0:
			if j.kind != '0' {
				bad()
			}
			w.store(p, d.float(j.text))
		case u.Info()&types.IsInteger != 0:
			if j.kind != '0' {
				bad()
			}
			m, ok := w.parseBig(j.text, 10)
			if !ok {
				bad()
			}
			bits, signed, _ := intInfo(t)
			lo, hi := intRange(bits, signed)
			if !w.branch(w.bank.And(w.bank.Le(w.bank.IntC(lo), m), w.bank.Le(m, w.bank.IntC(hi)))) {
				bad()
			}
			w.store(p, w.intVal(w.clampBounds(m, lo, hi)))
		default:
			w.unsupported("json into %s", t)
		}
	case *types.Struct:
		if j.kind == 'n' {
			return
		}
		if j.kind != 'o' {
			bad()
		}
		fs := w.jsonFields(u)
		for i, k := range j.keys {
			key, ok := k.(string)
			if !ok {
				w.unsupported("symbolic JSON object key")
			}
			var f *jsonField
			for n := range fs {
				if fs[n].name == key {
					f = &fs[n]
				}
			}
			if f == nil {
				for n := range fs {
					if strings.EqualFold(fs[n].name, key) {
						f = &fs[n]
						break
					}
				}
			}
			if f == nil {
				if d.strict {
					d.fail("json: unknown field %q", key)
				}
				continue
			}
			q := p
			var ct types.Type = t
			for _, ix := range f.path {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					r := (*q).(Ptr)
					if r == nil {
						z := w.zero(pt.Elem())
						r = &z
						w.store(q, r)
					}
					q = r
					ct = pt.Elem()
				}
				ct = ct.Underlying().(*types.Struct).Field(ix).Type()
				q = &(*q).(Struct)[ix]
			}
			e := j.elems[i]
			if f.str && e.kind == 's' {
				dd := &jdec{w: w, fr: d.fr, b: strElems(e.text), useNum: d.useNum}
				e = dd.value()
			}
			d.into(e, f.t, q)
		}
	case *types.Map:
		if j.kind == 'n' {
			w.store(p, (*Map)(nil))
			return
		}
		if j.kind != 'o' {
			bad()
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = w.newMap()
			w.store(p, m)
		}
		for i, k := range j.keys {
			z := w.zero(u.Elem())
			d.into(j.elems[i], u.Elem(), &z)
			w.mapSet(m, k, z, u.Key())
		}
	case *types.Slice:
		if j.kind == 'n' {
			w.store(p, Slice(nil))
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && j.kind == 's' {
			raw, err := base64.StdEncoding.DecodeString(w.concStr(j.text))
			if err != nil {
				d.fail("%v", err)
			}
			w.store(p, Slice(strElems(string(raw))))
			return
		}
		if j.kind != 'a' {
			bad()
		}
		s := make(Slice, len(j.elems))
		for i := range s {
			s[i] = w.zero(u.Elem())
		}
		w.store(p, s)
		for i, e := range j.elems {
			d.into(e, u.Elem(), &s[i])
		}
	case *types.Array:
		if j.kind == 'n' {
			return
		}
		if j.kind != 'a' {
			bad()
		}
		a := (*p).(Array)
		for i, e := range j.elems {
			if i < len(a) {
				d.into(e, u.Elem(), &a[i])
			}
		}
	default:
		w.unsupported("json into %s", t)
	}
}

func (w *Worker) jsonMarshal(fr *frame, v Value) (out Slice, err Value) {
	e := &jenc{w: w, fr: fr}
	err = Iface{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if je, ok := r.(*jsonErr); ok {
					err = je.v
					w.curFr = fr
					return
				}
				panic(r)
			}
		}()
		e.iface(v)
	}()
	if e2 := err.(Iface); e2.T != nil {
		return nil, err
	}
	return Slice(e.b), err
}

func (w *Worker) jsonUnmarshal(fr *frame, b []Value, target Value, useNum, strict, rest bool) (used int, err Value) {
	d := &jdec{w: w, fr: fr, b: b, useNum: useNum, strict: strict}
	err = Iface{}
	t, ok := target.(Iface)
	if !ok || t.T == nil {
		return 0, w.mkError("json: Unmarshal(nil)")
	}
	pt, ok := t.T.Underlying().(*types.Pointer)
	if !ok || t.V.(Ptr) == nil {
		return 0, w.mkError("json: Unmarshal(non-pointer " + w.typeKey(t.T) + ")")
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if je, ok := r.(*jsonErr); ok {
					err = je.v
					w.curFr = fr
					return
				}
				panic(r)
			}
		}()
		j := d.value()
		if !rest {
			for d.i < len(d.b) {
				c, ok := d.b[d.i].(int64)
				if !ok || !(c == ' ' || c == '\n' || c == '\t' || c == '\r') {
					d.fail("invalid character after top-level value")
				}
				d.i++
			}
		}
		d.into(j, pt.Elem(), t.V.(Ptr))
	}()
	return d.i, err
}

type jsonStream struct {
	r      Value
	buf    []Value
	read   bool
	useNum bool
	strict bool
	w      Value
	indent bool
}

func init() {
	J := "encoding/json."
	reg(J+"Marshal", func(fr *frame, a []Value) Value {
		b, err := fr.w.jsonMarshal(fr, a[0])
		return Tuple{b, err}
	})
	reg(J+"MarshalIndent", func(fr *frame, a []Value) Value {
		b, err := fr.w.jsonMarshal(fr, a[0])
		return Tuple{b, err}
	})
	reg(J+"Unmarshal", func(fr *frame, a []Value) Value {
		_, err := fr.w.jsonUnmarshal(fr, []Value(a[0].(Slice)), a[1], false, false, false)
		return err
	})
	reg(J+"Valid", func(fr *frame, a []Value) Value {
		w := fr.w
		if s, ok := normStr(append([]Value{}, a[0].(Slice)...)).(string); ok {
			return json.Valid([]byte(s))
		}
		var z Value = Iface{}
		_, err := w.jsonUnmarshal(fr, []Value(a[0].(Slice)), Iface{T: w.eng.ptrTo(anyT), V: Ptr(&z)}, false, false, false)
		return err.(Iface).T == nil
	})
	reg(J+"NewDecoder", func(fr *frame, a []Value) Value {
		var v Value = &Native{Kind: "jsonstream", V: &jsonStream{r: a[0]}}
		return Ptr(&v)
	})
	reg(J+"NewEncoder", func(fr *frame, a []Value) Value {
		var v Value = &Native{Kind: "jsonstream", V: &jsonStream{w: a[0]}}
		return Ptr(&v)
	})
	st := func(v Value) *jsonStream { return (*v.(Ptr)).(*Native).V.(*jsonStream) }
	reg("(*encoding/json.Decoder).UseNumber", func(fr *frame, a []Value) Value { st(a[0]).useNum = true; return nil })
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(fr *frame, a []Value) Value { st(a[0]).strict = true; return nil })
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, a []Value) Value {
		w := fr.w
		s := st(a[0])
		if !s.read {
			s.read = true
			r := w.callByName(fr, "io", "ReadAll", s.r).(Tuple)
			if er := r[1].(Iface); er.T != nil {
				return er
			}
			s.buf = []Value(r[0].(Slice))
		}
		for len(s.buf) > 0 {
			c, ok := s.buf[0].(int64)
			if !ok || !(c == ' ' || c == '\n' || c == '\t' || c == '\r') {
				break
			}
			s.buf = s.buf[1:]
		}
		if len(s.buf) == 0 {
			return *w.globalAddrByName("io", "EOF")
		}
		n, err := w.jsonUnmarshal(fr, s.buf, a[1], s.useNum, s.strict, true)
		s.buf = s.buf[n:]
		return err
	})
	reg("(*encoding/json.Decoder).More", func(fr *frame, a []Value) Value { return len(st(a[0]).buf) > 0 })
	reg("(*encoding/json.Encoder).SetIndent", func(fr *frame, a []Value) Value { return nil })
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(fr *frame, a []Value) Value { return nil })
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, a []Value) Value {
		w := fr.w
		b, err := w.jsonMarshal(fr, a[1])
		if er := err.(Iface); er.T != nil {
			return er
		}
		b = append(b, int64('\n'))
		wr := st(a[0]).w.(Iface)
		m := w.eng.lookupMethod(wr.T, nil, "Write")
		r := w.call(fr, m, []Value{wr.V, b}).(Tuple)
		return r[1]
	})
	reg("(encoding/json.Number).Int64", func(fr *frame, a []Value) Value {
		return intrinsics["strconv.ParseInt"](fr, []Value{a[0], int64(10), int64(64)})
	})
	reg("(encoding/json.Number).Float64", func(fr *frame, a []Value) Value {
		return intrinsics["strconv.ParseFloat"](fr, []Value{a[0], int64(64)})
	})
}

func (w *Worker) callByName(fr *frame, pkg, name string, args ...Value) Value {
	return w.call(fr, w.eng.Pkgs[pkg].Func(name), args)
}

var _ = big.NewInt
