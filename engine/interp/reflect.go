package interp

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"verif/engine/sym"
)

// RValue is the engine's reflect.Value. The zero RValue is the invalid value.
type RValue struct {
	T   types.Type
	V   Value // when not addressable
	P   Ptr   // when addressable
	str bool  // embedded via unexported field
}

func (r *RValue) get() Value {
	if r.P != nil {
		return *r.P
	}
	return r.V
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.String, types.UntypedString:
			return reflect.String
		}
		return reflect.Invalid
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func rv(v Value) *RValue {
	switch v := v.(type) {
	case *RValue:
		return v
	}
	return &RValue{}
}

func (w *Worker) rtypeOf(t types.Type) Value {
	k := [2]any{"rtype", w.typeKey(t)}
	p, ok := w.rtypes[k]
	if !ok {
		var v Value = &Native{Kind: "rtype", V: t}
		p = &v
		w.rtypes[k] = p
	}
	return Iface{T: w.eng.ptrTo(w.eng.Pkgs["reflect"].Type("rtype").Type()), V: p}
}

func rtypeT(v Value) types.Type { return (*v.(Ptr)).(*Native).V.(types.Type) }

func init() {
	R := "(reflect.Value)."
	reg("reflect.ValueOf", func(fr *frame, a []Value) Value {
		f := a[0].(Iface)
		if f.T == nil {
			return &RValue{}
		}
		return &RValue{T: f.T, V: f.V}
	})
	elem := func(w *Worker, r *RValue) *RValue {
		switch u := r.T.Underlying().(type) {
		case *types.Pointer:
			p := r.get().(Ptr)
			if p == nil {
				return &RValue{}
			}
			return &RValue{T: u.Elem(), P: p}
		case *types.Interface:
			f := r.get().(Iface)
			if f.T == nil {
				return &RValue{}
			}
			return &RValue{T: f.T, V: f.V}
		}
		w.goPanicf("reflect: call of reflect.Value.Elem on %s Value", rkind(r.T))
		return nil
	}
	reg(R+"Elem", func(fr *frame, a []Value) Value { return elem(fr.w, rv(a[0])) })
	reg("reflect.Indirect", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.T != nil && rkind(r.T) == reflect.Pointer {
			return elem(fr.w, r)
		}
		return r
	})
	field := func(w *Worker, r *RValue, i int) *RValue {
		st := r.T.Underlying().(*types.Struct)
		s := r.get().(Struct)
		n := &RValue{T: st.Field(i).Type(), V: s[i], str: !st.Field(i).Exported()}
		if r.P != nil {
			n.P = &s[i]
		}
		return n
	}
	reg(R+"FieldByName", func(fr *frame, a []Value) Value {
		w := fr.w
		r := rv(a[0])
		st, ok := r.T.Underlying().(*types.Struct)
		if !ok {
			w.goPanicf("reflect: call of reflect.Value.FieldByName on %s Value", rkind(r.T))
		}
		name := w.concStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return field(w, r, i)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if es, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == name {
							return field(w, field(w, r, i), j)
						}
					}
				}
			}
		}
		return &RValue{}
	})
	reg(R+"Field", func(fr *frame, a []Value) Value { return field(fr.w, rv(a[0]), int(fr.w.concInt(a[1]))) })
	reg(R+"NumField", func(fr *frame, a []Value) Value { return int64(rv(a[0]).T.Underlying().(*types.Struct).NumFields()) })
	reg(R+"Kind", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.T == nil {
			return int64(0)
		}
		return int64(rkind(r.T))
	})
	reg(R+"IsValid", func(fr *frame, a []Value) Value { return rv(a[0]).T != nil })
	reg(R+"CanSet", func(fr *frame, a []Value) Value { r := rv(a[0]); return r.P != nil && !r.str })
	reg(R+"CanInterface", func(fr *frame, a []Value) Value { r := rv(a[0]); return !r.str })
	reg(R+"CanAddr", func(fr *frame, a []Value) Value { return rv(a[0]).P != nil })
	reg(R+"String", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.T == nil {
			return "<invalid Value>"
		}
		if rkind(r.T) == reflect.String {
			return r.get()
		}
		return "<" + fr.w.typeKey(r.T) + " Value>"
	})
	for n, k := range map[string]reflect.Kind{"Bool": reflect.Bool, "Float": reflect.Float64} {
		_ = k
		reg(R+n, func(fr *frame, a []Value) Value { return rv(a[0]).get() })
	}
	reg(R+"Int", func(fr *frame, a []Value) Value { return rv(a[0]).get() })
	reg(R+"Uint", func(fr *frame, a []Value) Value { return rv(a[0]).get() })
	set := func(fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.P == nil {
			fr.w.goPanicf("reflect: reflect.Value.Set using unaddressable value")
		}
		v := a[1]
		if x, ok := v.(*RValue); ok {
			v = copyVal(x.get())
			if _, isI := r.T.Underlying().(*types.Interface); isI {
				if _, ok := x.T.Underlying().(*types.Interface); !ok {
					v = Iface{T: x.T, V: v}
				}
			}
		}
		fr.w.store(r.P, v)
		return nil
	}
	for _, n := range []string{"Set", "SetString", "SetInt", "SetBool", "SetFloat", "SetUint"} {
		reg(R+n, set)
	}
	reg(R+"IsNil", func(fr *frame, a []Value) Value { return isNil(rv(a[0]).get()) })
	reg(R+"IsZero", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		return fr.w.equals(r.T, r.get(), fr.w.zero(r.T))
	})
	reg(R+"Interface", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		v := r.get()
		if f, ok := v.(Iface); ok {
			if _, isI := r.T.Underlying().(*types.Interface); isI {
				return f
			}
		}
		return Iface{T: r.T, V: copyVal(v)}
	})
	reg(R+"Pointer", func(fr *frame, a []Value) Value {
		p, _ := rv(a[0]).get().(Ptr)
		return int64(uintptr(unsafe.Pointer(p)))
	})
	reg(R+"UnsafeAddr", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		if r.P == nil {
			fr.w.goPanicf("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return int64(uintptr(unsafe.Pointer(r.P)))
	})
	reg(R+"Len", func(fr *frame, a []Value) Value { return fr.w.lenOf(rv(a[0]).get()) })
	reg(R+"Index", func(fr *frame, a []Value) Value {
		w := fr.w
		r := rv(a[0])
		i := int(w.concInt(a[1]))
		switch u := r.T.Underlying().(type) {
		case *types.Slice:
			s := r.get().(Slice)
			w.index(int64(i), len(s))
			return &RValue{T: u.Elem(), P: &s[i]}
		case *types.Array:
			s := r.get().(Array)
			return &RValue{T: u.Elem(), V: s[i]}
		}
		w.unsupported("reflect.Value.Index of %s", r.T)
		return nil
	})
	reg(R+"MapKeys", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		m, _ := r.get().(*Map)
		kt := r.T.Underlying().(*types.Map).Key()
		out := Slice{}
		if m != nil {
			for _, e := range fr.w.sortedEnts(m) {
				out = append(out, &RValue{T: kt, V: e.k})
			}
		}
		return out
	})
	reg(R+"MapIndex", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		mt := r.T.Underlying().(*types.Map)
		m, _ := r.get().(*Map)
		e := fr.w.mapFind(m, rv(a[1]).get(), mt.Key())
		if e == nil {
			return &RValue{}
		}
		return &RValue{T: mt.Elem(), V: e.v}
	})
	// MapRange: iterate a snapshot
	reg(R+"MapRange", func(fr *frame, a []Value) Value {
		r := rv(a[0])
		m, _ := r.get().(*Map)
		st := &rmapIter{r: r, i: -1}
		if m != nil {
			st.ents = fr.w.sortedEnts(m)
		}
		var v Value = &Native{Kind: "mapiter", V: st}
		return Ptr(&v)
	})
	it := func(v Value) *rmapIter { return (*v.(Ptr)).(*Native).V.(*rmapIter) }
	reg("(*reflect.MapIter).Next", func(fr *frame, a []Value) Value { x := it(a[0]); x.i++; return x.i < len(x.ents) })
	reg("(*reflect.MapIter).Key", func(fr *frame, a []Value) Value {
		x := it(a[0])
		return &RValue{T: x.r.T.Underlying().(*types.Map).Key(), V: x.ents[x.i].k}
	})
	reg("(*reflect.MapIter).Value", func(fr *frame, a []Value) Value {
		x := it(a[0])
		return &RValue{T: x.r.T.Underlying().(*types.Map).Elem(), V: x.ents[x.i].v}
	})
	reg(R+"Type", func(fr *frame, a []Value) Value { return fr.w.rtypeOf(rv(a[0]).T) })
	reg("reflect.TypeOf", func(fr *frame, a []Value) Value {
		f := a[0].(Iface)
		if f.T == nil {
			return Iface{}
		}
		return fr.w.rtypeOf(f.T)
	})
	reg("reflect.TypeFor", func(fr *frame, a []Value) Value {
		ta := fr.fn.fn.TypeArgs()
		if len(ta) != 1 {
			fr.w.unsupported("reflect.TypeFor")
		}
		return fr.w.rtypeOf(ta[0])
	})
	T := "(*reflect.rtype)."
	reg(T+"Kind", func(fr *frame, a []Value) Value { return int64(rkind(rtypeT(a[0]))) })
	reg(T+"String", func(fr *frame, a []Value) Value {
		return types.TypeString(rtypeT(a[0]), func(p *types.Package) string { return p.Name() })
	})
	reg(T+"Name", func(fr *frame, a []Value) Value {
		switch n := rtypeT(a[0]).(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	})
	reg(T+"Elem", func(fr *frame, a []Value) Value {
		switch u := rtypeT(a[0]).Underlying().(type) {
		case *types.Pointer:
			return fr.w.rtypeOf(u.Elem())
		case *types.Slice:
			return fr.w.rtypeOf(u.Elem())
		case *types.Map:
			return fr.w.rtypeOf(u.Elem())
		}
		fr.w.goPanicf("reflect: Elem of invalid type")
		return nil
	})
	reg(T+"Key", func(fr *frame, a []Value) Value { return fr.w.rtypeOf(rtypeT(a[0]).Underlying().(*types.Map).Key()) })
	reg(T+"Comparable", func(fr *frame, a []Value) Value { return types.Comparable(rtypeT(a[0])) })
	reg(T+"NumField", func(fr *frame, a []Value) Value {
		return int64(rtypeT(a[0]).Underlying().(*types.Struct).NumFields())
	})
	reg(T+"Field", func(fr *frame, a []Value) Value {
		w := fr.w
		st := rtypeT(a[0]).Underlying().(*types.Struct)
		i := int(w.concInt(a[1]))
		f := st.Field(i)
		pkg := ""
		if !f.Exported() && f.Pkg() != nil {
			pkg = f.Pkg().Path()
		}
		return Struct{f.Name(), pkg, w.rtypeOf(f.Type()), st.Tag(i), int64(0), Slice{int64(i)}, f.Embedded()}
	})
	reg(T+"PkgPath", func(fr *frame, a []Value) Value {
		if n, ok := rtypeT(a[0]).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	reg(T+"ConvertibleTo", func(fr *frame, a []Value) Value {
		return types.ConvertibleTo(rtypeT(a[0]), rtypeT(a[1].(Iface).V))
	})
	reg(T+"AssignableTo", func(fr *frame, a []Value) Value {
		return types.AssignableTo(rtypeT(a[0]), rtypeT(a[1].(Iface).V))
	})
	reg(T+"Implements", func(fr *frame, a []Value) Value {
		i, ok := rtypeT(a[1].(Iface).V).Underlying().(*types.Interface)
		return ok && types.Implements(rtypeT(a[0]), i)
	})
	reg("reflect.DeepEqual", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !w.sameType(x.T, y.T) {
			return false
		}
		return w.fromBool(w.deepEq(x.T, x.V, y.V, 0))
	})
	// reflect.Swapper is used by sort.Slice implementations (sort.Slice itself is intercepted)

	// ---- shopspring/decimal boundary conversions
	D := "github.com/shopspring/decimal."
	mkDec := func(w *Worker, m *sym.Term, exp int) Value {
		return Struct{w.newBig(m), int64(exp)}
	}
	reg(D+"NewFromFloat", func(fr *frame, a []Value) Value {
		w := fr.w
		switch f := a[0].(type) {
		case float64:
			m, k, ok := shortDec(f)
			if !ok {
				w.goPanicf("Cannot create a Decimal from %v", f)
			}
			return mkDec(w, w.bank.IntC(m), -k)
		case *SymFloat:
			if f.Exact {
				return mkDec(w, f.M, -f.K)
			}
			w.unsupported("decimal.NewFromFloat of a computed symbolic float")
		}
		return nil
	})
	reg(D+"NewFromString", func(fr *frame, a []Value) Value {
		w := fr.w
		zero := mkDec(w, w.zeroBig, 0)
		switch s := a[0].(type) {
		case string:
			m, k, ok := parseDec(s)
			if !ok {
				return Tuple{zero, w.mkError("can't convert " + s + " to decimal")}
			}
			return Tuple{mkDec(w, w.bank.IntC(m), -k), Iface{}}
		case *SymStr:
			if len(s.E) == 1 {
				if at, ok := s.E[0].(*Atom); ok && (at.Kind == "dec" || at.Kind == "fdec") {
					return Tuple{mkDec(w, at.T, -at.K), Iface{}}
				}
			}
			if t, ok := w.parseBig(s, 10); ok {
				return Tuple{mkDec(w, t, 0), Iface{}}
			}
			return Tuple{zero, w.mkError("can't convert to decimal")}
		}
		w.unsupported("decimal.NewFromString of %T", a[0])
		return nil
	})
	DM := "(github.com/shopspring/decimal.Decimal)."
	parts := func(w *Worker, v Value) (*sym.Term, int) {
		s := v.(Struct)
		p := s[0].(Ptr)
		e := int(w.concInt(s[1]))
		if p == nil {
			return w.zeroBig, e
		}
		return w.bigOf(p), e
	}
	toF := func(w *Worker, v Value) Value {
		m, e := parts(w, v)
		if m.IsConst() {
			r := new(big.Rat).SetInt(m.C)
			if e >= 0 {
				r.Mul(r, new(big.Rat).SetInt(pow10(e)))
			} else {
				r.Quo(r, new(big.Rat).SetInt(pow10(-e)))
			}
			f, _ := r.Float64()
			return f
		}
		return w.floatOfDec(m, e)
	}
	reg(DM+"Float64", func(fr *frame, a []Value) Value { return Tuple{toF(fr.w, a[0]), true} })
	reg(DM+"InexactFloat64", func(fr *frame, a []Value) Value { return toF(fr.w, a[0]) })
	reg(DM+"String", func(fr *frame, a []Value) Value {
		w := fr.w
		m, e := parts(w, a[0])
		if m.IsConst() {
			return decText(m.C, e)
		}
		if e >= 0 {
			return w.decStr(w.bank.Scale(m, pow10(e)))
		}
		return w.fdecStr(m, -e)
	})
	reg(DM+"StringFixed", func(fr *frame, a []Value) Value {
		w := fr.w
		m, e := parts(w, a[0])
		n := int(w.concInt(a[1]))
		if e >= -n && n == 0 {
			return w.decStr(w.bank.Scale(m, pow10(e)))
		}
		w.unsupported("decimal.StringFixed of symbolic value")
		return nil
	})

	// ---- math/big.Float as an opaque rational or real
	bf := "(*math/big.Float)."
	getBF := func(w *Worker, v Value) *sym.Term {
		n, ok := (*v.(Ptr)).(*Native)
		if !ok {
			return w.bank.RatC(new(big.Rat))
		}
		return n.V.(*sym.Term)
	}
	setBF := func(w *Worker, p Value, t *sym.Term) Value {
		w.store(p.(Ptr), &Native{Kind: "bigfloat", V: t})
		return p
	}
	reg(bf+"SetInt", func(fr *frame, a []Value) Value { return setBF(fr.w, a[0], fr.w.bank.ToReal(fr.w.bigOf(a[1]))) })
	reg(bf+"SetFloat64", func(fr *frame, a []Value) Value { return setBF(fr.w, a[0], fr.w.trueReal(a[1])) })
	reg(bf+"SetInt64", func(fr *frame, a []Value) Value {
		return setBF(fr.w, a[0], fr.w.bank.ToReal(fr.w.intTerm(a[1], types.Typ[types.Int64])))
	})
	reg(bf+"SetPrec", func(fr *frame, a []Value) Value { return a[0] })
	reg("math/big.NewFloat", func(fr *frame, a []Value) Value {
		var v Value = &Native{Kind: "bigfloat", V: fr.w.trueReal(a[0])}
		return Ptr(&v)
	})
	reg(bf+"Quo", func(fr *frame, a []Value) Value {
		w := fr.w
		y := getBF(w, a[2])
		if w.branch(w.bank.Eq(y, w.bank.RatC(new(big.Rat)))) {
			w.unsupported("big.Float division by zero")
		}
		x := getBF(w, a[1])
		if y.IsConst() {
			return setBF(w, a[0], w.bank.RScale(x, new(big.Rat).Inv(y.R)))
		}
		return setBF(w, a[0], w.bank.RDiv(x, y))
	})
	reg(bf+"Mul", func(fr *frame, a []Value) Value {
		return setBF(fr.w, a[0], fr.w.bank.Mul(getBF(fr.w, a[1]), getBF(fr.w, a[2])))
	})
	reg(bf+"Float64", func(fr *frame, a []Value) Value {
		w := fr.w
		t := getBF(w, a[0])
		if t.IsConst() {
			f, _ := t.R.Float64()
			return Tuple{f, int64(0)}
		}
		return Tuple{w.floatOfReal(t), int64(0)}
	})
	reg(bf+"Cmp", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := getBF(w, a[0]), getBF(w, a[1])
		b := w.bank
		return w.intVal(b.Ite(b.Lt(x, y), b.Int64(-1), b.Ite(b.Eq(x, y), b.Int64(0), b.Int64(1))))
	})
}

type rmapIter struct {
	r    *RValue
	ents []*mapEntry
	i    int
}

// floatOfReal is the double nearest to a real term; decimals m/10^k of at most 15 digits are recognised.
func (w *Worker) floatOfReal(t *sym.Term) Value {
	if m, k, ok := w.bank.AsDecimal(t); ok {
		return w.floatOfDec(m, -k)
	}
	return &SymFloat{Real: w.rounded(t)}
}

// floatOfDec is the double nearest to m*10^e.
func (w *Worker) floatOfDec(m *sym.Term, e int) Value {
	if e > 0 {
		m, e = w.bank.Scale(m, pow10(e)), 0
	}
	for e < 0 {
		q, ok := w.bank.DivExact(m, big.NewInt(10))
		if !ok {
			break
		}
		m, e = q, e+1
	}
	lim := pow10(15)
	if -e <= 22 && w.side[[3]any{"smalldec", m, e}] == nil {
		w.side[[3]any{"smalldec", m, e}] = true
		if out := w.bank.Or(w.bank.Lt(m, w.bank.Neg(w.bank.IntC(lim))), w.bank.Lt(w.bank.IntC(lim), m)); !out.IsConst() && w.check(out) == sym.Unsat {
			return &SymFloat{M: m, K: -e, Exact: true}
		}
	}
	if m.Lo != nil && m.Hi != nil && new(big.Int).Abs(m.Lo).Cmp(lim) <= 0 && new(big.Int).Abs(m.Hi).Cmp(lim) <= 0 && -e <= 15 {
		return &SymFloat{M: m, K: -e, Exact: true}
	}
	r := w.bank.RScale(w.bank.ToReal(m), new(big.Rat).SetFrac(big.NewInt(1), pow10(-e)))
	k := [3]any{"floatof", m, e}
	if f, ok := w.side[k].(*SymFloat); ok {
		return f
	}
	f := &SymFloat{Real: w.rounded(r), Src: m, SrcK: -e}
	w.side[k] = f
	return f
}

func (w *Worker) fdecStr(m *sym.Term, k int) Value {
	if k == 0 {
		return w.decStr(m)
	}
	key := [3]any{"fdecatom", m, k}
	if a, ok := w.side[key].(*Atom); ok {
		return &SymStr{E: []Value{a}}
	}
	a := &Atom{Kind: "fdec", T: m, K: k, Len: -1}
	w.side[key] = a
	return &SymStr{E: []Value{a}}
}

func decText(m *big.Int, e int) string {
	if e >= 0 {
		return new(big.Int).Mul(m, pow10(e)).String()
	}
	s := new(big.Int).Abs(m).String()
	k := -e
	for len(s) <= k {
		s = "0" + s
	}
	r := s[:len(s)-k] + "." + s[len(s)-k:]
	r = strings.TrimRight(r, "0")
	r = strings.TrimSuffix(r, ".")
	if m.Sign() < 0 {
		r = "-" + r
	}
	return r
}

func parseDec(s string) (*big.Int, int, bool) {
	o := s
	exp := 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		x, ok := new(big.Int).SetString(s[i+1:], 10)
		if !ok || !x.IsInt64() || x.Int64() > 400 || x.Int64() < -400 {
			return nil, 0, false
		}
		exp = int(x.Int64())
		s = s[:i]
	}
	k := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		k = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	m, ok := new(big.Int).SetString(s, 10)
	if !ok || o == "" || strings.Contains(s, "_") {
		return nil, 0, false
	}
	k -= exp
	if k < 0 {
		m.Mul(m, pow10(-k))
		k = 0
	}
	return m, k, true
}

// deepEq is reflect.DeepEqual as a term.
func (w *Worker) deepEq(t types.Type, x, y Value, depth int) *sym.Term {
	b := w.bank
	if depth > 20 {
		w.unsupported("deep comparison of cyclic value")
	}
	if w.isBigIntPtr(t) {
		p, q := x.(Ptr), y.(Ptr)
		if p == nil || q == nil {
			return b.BoolC(p == nil && q == nil)
		}
		return b.Eq(w.bigOf(p), w.bigOf(q))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, q := x.(Ptr), y.(Ptr)
		if p == nil || q == nil || p == q {
			return b.BoolC(p == q)
		}
		return w.deepEq(u.Elem(), *p, *q, depth+1)
	case *types.Struct:
		if isBigInt(t) {
			return b.Eq(x.(*sym.Term), y.(*sym.Term))
		}
		r := b.True
		for i := 0; i < u.NumFields(); i++ {
			r = b.And(r, w.deepEq(u.Field(i).Type(), x.(Struct)[i], y.(Struct)[i], depth+1))
		}
		return r
	case *types.Slice:
		s, q := x.(Slice), y.(Slice)
		if (s == nil) != (q == nil) || len(s) != len(q) {
			return b.False
		}
		r := b.True
		for i := range s {
			r = b.And(r, w.deepEq(u.Elem(), s[i], q[i], depth+1))
		}
		return r
	case *types.Array:
		r := b.True
		for i := range x.(Array) {
			r = b.And(r, w.deepEq(u.Elem(), x.(Array)[i], y.(Array)[i], depth+1))
		}
		return r
	case *types.Interface:
		f, g := x.(Iface), y.(Iface)
		if f.T == nil || g.T == nil {
			return b.BoolC(f.T == nil && g.T == nil)
		}
		if !w.sameType(f.T, g.T) {
			return b.False
		}
		return w.deepEq(f.T, f.V, g.V, depth+1)
	case *types.Map:
		m, n := x.(*Map), y.(*Map)
		if (m == nil) != (n == nil) {
			return b.False
		}
		if m == nil {
			return b.True
		}
		if m.n != n.n {
			return b.False
		}
		r := b.True
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			o := w.mapFind(n, e.k, u.Key())
			if o == nil {
				return b.False
			}
			r = b.And(r, w.deepEq(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Signature:
		return b.BoolC(isNil(x) && isNil(y))
	}
	return w.boolTerm(w.equals(t, x, y))
}
