package interp

import (
	"go/types"
	"math/big"
	"strings"

	"verif/engine/sym"
)

// math/big.Int values are Int terms; every method is interpreted mathematically.

var intrinsics = map[string]func(fr *frame, args []Value) Value{}

func reg(name string, f func(fr *frame, args []Value) Value) { intrinsics[name] = f }

func (w *Worker) bigOf(v Value) *sym.Term {
	p, ok := v.(Ptr)
	if !ok {
		w.unsupported("big.Int through %T", v)
	}
	if p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	t, ok := (*p).(*sym.Term)
	if !ok {
		w.unsupported("big.Int cell holds %T", *p)
	}
	return t
}

func (w *Worker) newBig(t *sym.Term) Ptr {
	var v Value = t
	return &v
}

func (w *Worker) setBig(z Value, t *sym.Term) Value {
	w.store(z.(Ptr), t)
	return z
}

// signTerm is -1, 0 or 1.
func (w *Worker) signTerm(t *sym.Term) *sym.Term {
	b := w.bank
	z := b.Int64(0)
	return b.Ite(b.Lt(t, z), b.Int64(-1), b.Ite(b.Eq(t, z), z, b.Int64(1)))
}

func (w *Worker) absTerm(t *sym.Term) *sym.Term {
	b := w.bank
	if t.Lo != nil && t.Lo.Sign() >= 0 {
		return t
	}
	if t.Hi != nil && t.Hi.Sign() <= 0 {
		return b.Neg(t)
	}
	return b.Ite(b.Lt(t, b.Int64(0)), b.Neg(t), t)
}

// nonzero branches on a zero divisor as Go does.
func (w *Worker) nonzero(y *sym.Term) {
	if w.branch(w.bank.Eq(y, w.bank.Int64(0))) {
		w.goPanicf("division by zero")
	}
}

func init() {
	B := "(*math/big.Int)."
	bin := func(name string, f func(w *Worker, x, y *sym.Term) *sym.Term) {
		reg(B+name, func(fr *frame, a []Value) Value {
			w := fr.w
			return w.setBig(a[0], f(w, w.bigOf(a[1]), w.bigOf(a[2])))
		})
	}
	bin("Add", func(w *Worker, x, y *sym.Term) *sym.Term { return w.bank.Add(x, y) })
	bin("Sub", func(w *Worker, x, y *sym.Term) *sym.Term { return w.bank.Sub(x, y) })
	bin("Mul", func(w *Worker, x, y *sym.Term) *sym.Term { return w.bank.Mul(x, y) })
	bin("Quo", func(w *Worker, x, y *sym.Term) *sym.Term { w.nonzero(y); return w.bank.QuoTrunc(x, y) })
	bin("Rem", func(w *Worker, x, y *sym.Term) *sym.Term { w.nonzero(y); return w.bank.RemTrunc(x, y) })
	bin("Div", func(w *Worker, x, y *sym.Term) *sym.Term { w.nonzero(y); return w.bank.Div(x, y) })
	bin("Mod", func(w *Worker, x, y *sym.Term) *sym.Term { w.nonzero(y); return w.bank.Mod(x, y) })
	bin("And", func(w *Worker, x, y *sym.Term) *sym.Term {
		if x.IsConst() && y.IsConst() {
			return w.bank.IntC(new(big.Int).And(x.C, y.C))
		}
		w.unsupported("big.And")
		return nil
	})
	reg(B+"GCD", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := w.bigOf(a[3]), w.bigOf(a[4])
		if !x.IsConst() || !y.IsConst() {
			w.unsupported("big.GCD")
		}
		return w.setBig(a[0], w.bank.IntC(new(big.Int).GCD(nil, nil, x.C, y.C)))
	})
	reg(B+"QuoRem", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := w.bigOf(a[1]), w.bigOf(a[2])
		w.nonzero(y)
		q := w.bank.QuoTrunc(x, y)
		w.setBig(a[3], w.bank.Sub(x, w.bank.Mul(q, y)))
		w.setBig(a[0], q)
		return Tuple{a[0], a[3]}
	})
	reg(B+"DivMod", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := w.bigOf(a[1]), w.bigOf(a[2])
		w.nonzero(y)
		q := w.bank.Div(x, y)
		w.setBig(a[3], w.bank.Mod(x, y))
		w.setBig(a[0], q)
		return Tuple{a[0], a[3]}
	})
	un := func(name string, f func(w *Worker, x *sym.Term) *sym.Term) {
		reg(B+name, func(fr *frame, a []Value) Value {
			w := fr.w
			return w.setBig(a[0], f(w, w.bigOf(a[1])))
		})
	}
	un("Neg", func(w *Worker, x *sym.Term) *sym.Term { return w.bank.Neg(x) })
	un("Abs", func(w *Worker, x *sym.Term) *sym.Term { return w.absTerm(x) })
	un("Set", func(w *Worker, x *sym.Term) *sym.Term { return x })
	un("Sqrt", func(w *Worker, x *sym.Term) *sym.Term {
		if !x.IsConst() {
			w.unsupported("big.Sqrt")
		}
		return w.bank.IntC(new(big.Int).Sqrt(x.C))
	})
	reg(B+"SetInt64", func(fr *frame, a []Value) Value { return fr.w.setBig(a[0], fr.w.intTerm(a[1], types.Typ[types.Int64])) })
	reg(B+"SetUint64", func(fr *frame, a []Value) Value { return fr.w.setBig(a[0], fr.w.intTerm(a[1], types.Typ[types.Uint64])) })
	reg("math/big.NewInt", func(fr *frame, a []Value) Value { return fr.w.newBig(fr.w.intTerm(a[0], types.Typ[types.Int64])) })
	reg(B+"Cmp", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := w.bigOf(a[0]), w.bigOf(a[1])
		return w.intVal(w.signTerm(w.bank.Sub(x, y)))
	})
	reg(B+"CmpAbs", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.intVal(w.signTerm(w.bank.Sub(w.absTerm(w.bigOf(a[0])), w.absTerm(w.bigOf(a[1])))))
	})
	reg(B+"Sign", func(fr *frame, a []Value) Value { return fr.w.intVal(fr.w.signTerm(fr.w.bigOf(a[0]))) })
	reg(B+"Int64", func(fr *frame, a []Value) Value { return fr.w.intVal(fr.w.wrapTerm(fr.w.bigOf(a[0]), 64, true)) })
	reg(B+"Uint64", func(fr *frame, a []Value) Value { return fr.w.intVal(fr.w.wrapTerm(fr.w.bigOf(a[0]), 64, false)) })
	rng := func(signed bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			w := fr.w
			t := w.bigOf(a[0])
			lo, hi := intRange(64, signed)
			b := w.bank
			return w.fromBool(b.And(b.Le(b.IntC(lo), t), b.Le(t, b.IntC(hi))))
		}
	}
	reg(B+"IsInt64", rng(true))
	reg(B+"IsUint64", rng(false))
	reg(B+"BitLen", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.absTerm(w.bigOf(a[0]))
		if t.IsConst() {
			return int64(t.C.BitLen())
		}
		b := w.bank
		if t.Hi == nil || t.Hi.BitLen() > 256 {
			w.unsupported("big.BitLen unbounded")
		}
		r := b.Int64(0)
		for i := 0; i < t.Hi.BitLen(); i++ {
			r = b.Add(r, b.Ite(b.Le(b.IntC(new(big.Int).Lsh(big.NewInt(1), uint(i))), t), b.Int64(1), b.Int64(0)))
		}
		return w.intVal(r)
	})
	reg(B+"Bit", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.bigOf(a[0])
		i := w.concInt(a[1])
		return w.intVal(w.bank.Mod(w.bank.Div(t, w.bank.IntC(new(big.Int).Lsh(big.NewInt(1), uint(i)))), w.bank.Int64(2)))
	})
	reg(B+"Lsh", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.setBig(a[0], w.bank.Scale(w.bigOf(a[1]), new(big.Int).Lsh(big.NewInt(1), uint(w.concInt(a[2])))))
	})
	reg(B+"Rsh", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.setBig(a[0], w.bank.Div(w.bigOf(a[1]), w.bank.IntC(new(big.Int).Lsh(big.NewInt(1), uint(w.concInt(a[2]))))))
	})
	reg(B+"Exp", func(fr *frame, a []Value) Value {
		w := fr.w
		x, y := w.bigOf(a[1]), w.bigOf(a[2])
		var m *big.Int
		if p := a[3].(Ptr); p != nil {
			mt := w.bigOf(p)
			if !mt.IsConst() {
				w.unsupported("big.Exp mod")
			}
			m = mt.C
		}
		if !y.IsConst() {
			k := w.concInt(w.intVal(y))
			y = w.bank.Int64(k)
		}
		if x.IsConst() {
			return w.setBig(a[0], w.bank.IntC(new(big.Int).Exp(x.C, y.C, m)))
		}
		if m != nil && m.Sign() != 0 || y.C.Cmp(big.NewInt(8)) > 0 {
			w.unsupported("big.Exp symbolic")
		}
		r := w.bank.Int64(1)
		for i := int64(0); i < y.C.Int64(); i++ {
			r = w.bank.Mul(r, x)
		}
		return w.setBig(a[0], r)
	})
	str := func(fr *frame, a []Value) Value {
		w := fr.w
		if isNil(a[0]) {
			return "<nil>"
		}
		if len(a) > 1 && w.concInt(a[1]) != 10 {
			t := w.bigOf(a[0])
			if t.IsConst() {
				return t.C.Text(int(w.concInt(a[1])))
			}
			w.unsupported("big.Text base")
		}
		return w.decStr(w.bigOf(a[0]))
	}
	reg(B+"String", str)
	reg(B+"Text", str)
	reg(B+"SetString", func(fr *frame, a []Value) Value {
		w := fr.w
		base := int(w.concInt(a[2]))
		t, ok := w.parseBig(a[1], base)
		if !ok {
			return Tuple{Ptr(nil), false}
		}
		w.setBig(a[0], t)
		return Tuple{a[0], true}
	})
	reg(B+"Bytes", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.bigOf(a[0])
		if !t.IsConst() {
			w.unsupported("big.Bytes symbolic")
		}
		return Slice(strElems(string(t.C.Bytes())))
	})
	reg(B+"SetBytes", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.setBig(a[0], w.bank.IntC(new(big.Int).SetBytes([]byte(w.concStr(normStr(a[1].(Slice)))))))
	})
	reg(B+"Append", func(fr *frame, a []Value) Value {
		w := fr.w
		return Slice(append(append(Slice{}, a[1].(Slice)...), strElems(w.decStr(w.bigOf(a[0])))...))
	})
	reg(B+"MarshalJSON", func(fr *frame, a []Value) Value {
		w := fr.w
		if isNil(a[0]) {
			return Tuple{Slice(strElems("null")), Iface{}}
		}
		return Tuple{Slice(strElems(w.decStr(w.bigOf(a[0])))), Iface{}}
	})
	reg(B+"MarshalText", intrinsics[B+"MarshalJSON"])
	um := func(fr *frame, a []Value) Value {
		w := fr.w
		s := normStr(a[1].(Slice))
		if s == "null" {
			return Iface{}
		}
		t, ok := w.parseBig(s, 0)
		if !ok {
			return w.mkError("math/big: cannot unmarshal into a *big.Int")
		}
		w.setBig(a[0], t)
		return Iface{}
	}
	reg(B+"UnmarshalJSON", um)
	reg(B+"UnmarshalText", um)
	reg(B+"Float64", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.bigOf(a[0])
		if t.IsConst() {
			f, acc := t.C.Float64()
			return Tuple{f, int64(acc)}
		}
		return Tuple{w.convert(t, types.Typ[types.Int64], types.Typ[types.Float64]), int64(0)}
	})
	reg(B+"ProbablyPrime", func(fr *frame, a []Value) Value { fr.w.unsupported("ProbablyPrime"); return nil })

	// big.Float and big.Rat: only as far as the repository uses them, as native objects
}

// decStr is the decimal rendering of an integer term.
func (w *Worker) decStr(t *sym.Term) Value {
	if t.IsConst() {
		return t.C.String()
	}
	if t.Lo != nil && t.Hi != nil && t.Lo.Sign() >= 0 && t.Hi.Cmp(big.NewInt(9)) <= 0 {
		return &SymStr{E: []Value{w.bank.Add(t, w.bank.Int64('0'))}}
	}
	k := [2]any{"decatom", t}
	if a, ok := w.side[k].(*Atom); ok {
		return &SymStr{E: []Value{a}}
	}
	a := &Atom{Kind: "dec", T: t, Len: -1}
	w.side[k] = a
	return &SymStr{E: []Value{a}}
}

// parseBig reads an integer from text that may be a rendered symbolic integer.
func (w *Worker) parseBig(v Value, base int) (*sym.Term, bool) {
	switch s := v.(type) {
	case string:
		x, ok := new(big.Int).SetString(s, base)
		if !ok {
			return nil, false
		}
		return w.bank.IntC(x), true
	case *SymStr:
		e := s.E
		neg := false
		if len(e) > 1 {
			if c, ok := e[0].(int64); ok && c == '-' {
				neg, e = true, e[1:]
			}
		}
		if len(e) >= 1 {
			if a, ok := e[0].(*Atom); ok && a.Kind == "dec" {
				t := a.T
				for _, x := range e[1:] { // trailing zeros, as written by decimal rendering
					c, ok := x.(int64)
					if !ok || c < '0' || c > '9' {
						return nil, false
					}
					t = w.bank.Add(w.bank.Scale(t, big.NewInt(10)), w.bank.Int64(c-'0'))
				}
				if neg {
					t = w.bank.Neg(t)
				}
				return t, true
			}
		}
		// symbolic digits
		if !s.hasAtom() && base == 10 {
			t := w.bank.Int64(0)
			if len(e) == 0 {
				return nil, false
			}
			for _, x := range e {
				c := w.byteTerm(x)
				dig := w.bank.And(w.bank.Le(w.bank.Int64('0'), c), w.bank.Le(c, w.bank.Int64('9')))
				if !w.branch(dig) {
					return nil, false
				}
				t = w.bank.Add(w.bank.Scale(t, big.NewInt(10)), w.bank.Sub(c, w.bank.Int64('0')))
			}
			if neg {
				t = w.bank.Neg(t)
			}
			return t, true
		}
		if len(e) == 1 {
			if a, ok := e[0].(*Atom); ok && a.Kind == "fdec" {
				d := w.bank.IntC(pow10(a.K))
				if w.branch(w.bank.Eq(w.bank.Mod(a.T, d), w.bank.Int64(0))) {
					t := w.bank.Div(a.T, d)
					if neg {
						t = w.bank.Neg(t)
					}
					return t, true
				}
				return nil, false
			}
		}
		if len(e) == 1 {
			// the text of a floating-point number: only 0 is known to read "0"
			if a, ok := e[0].(*Atom); ok && strings.HasPrefix(a.Kind+a.Name, "funfloatf") && w.branch(w.bank.Eq(a.T, w.bank.RatC(new(big.Rat)))) {
				return w.bank.Int64(0), true
			}
		}
		w.unsupported("parse integer from %s", s)
	}
	w.unsupported("parse integer from %T", v)
	return nil, false
}
