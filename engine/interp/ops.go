package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

func (cc *compiler) unop(in *ssa.UnOp, dst int) cinstr {
	w := cc.w
	x := cc.op(in.X)
	switch in.Op {
	case token.MUL:
		return func(fr *frame) int {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				w.unsupported("load through %T", x.get(fr))
			}
			if p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			fr.env[dst] = copyVal(*p)
			return ctlNext
		}
	case token.NOT:
		return func(fr *frame) int {
			switch v := x.get(fr).(type) {
			case bool:
				fr.env[dst] = !v
			case *sym.Term:
				fr.env[dst] = w.fromBool(w.bank.Not(v))
			default:
				w.unsupported("not %T", v)
			}
			return ctlNext
		}
	case token.SUB:
		t := in.X.Type()
		return func(fr *frame) int {
			switch v := x.get(fr).(type) {
			case int64:
				bits, signed, _ := intInfo(t)
				fr.env[dst] = wrapInt(-v, bits, signed)
			case float64:
				fr.env[dst] = -v
			case complex128:
				fr.env[dst] = -v
			case *sym.Term:
				bits, signed, _ := intInfo(t)
				fr.env[dst] = w.intVal(w.wrapTerm(w.bank.Neg(v), bits, signed))
			case *SymFloat:
				n := *v
				if n.M != nil {
					n.M = w.bank.Neg(n.M)
				}
				if n.Real != nil {
					n.Real = w.bank.Neg(n.Real)
				}
				fr.env[dst] = &n
			default:
				w.unsupported("neg %T", v)
			}
			return ctlNext
		}
	case token.XOR:
		t := in.X.Type()
		return func(fr *frame) int {
			bits, signed, _ := intInfo(t)
			switch v := x.get(fr).(type) {
			case int64:
				fr.env[dst] = wrapInt(^v, bits, signed)
			case *sym.Term:
				fr.env[dst] = w.intVal(w.wrapTerm(w.bank.Sub(w.bank.Int64(-1), v), bits, signed))
			}
			return ctlNext
		}
	case token.ARROW:
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) int {
			v, ok := w.chanRecv(x.get(fr).(*Chan))
			w.curFr = fr
			if !ok {
				v = w.zero(et)
			}
			if in.CommaOk {
				fr.env[dst] = Tuple{v, ok}
			} else {
				fr.env[dst] = v
			}
			return ctlNext
		}
	}
	return func(fr *frame) int { w.unsupported("unop %s", in.Op); return ctlNext }
}

func (cc *compiler) binop(in *ssa.BinOp, dst int) cinstr {
	w := cc.w
	x, y := cc.op(in.X), cc.op(in.Y)
	t := in.X.Type()
	op := in.Op
	bits, signed, isInt := intInfo(t)
	if isInt && op != token.SHL && op != token.SHR {
		switch op {
		case token.ADD:
			return func(fr *frame) int {
				if a, ok := x.get(fr).(int64); ok {
					if b, ok := y.get(fr).(int64); ok {
						fr.env[dst] = wrapInt(a+b, bits, signed)
						return ctlNext
					}
				}
				fr.env[dst] = w.binopVal(op, t, x.get(fr), y.get(fr))
				return ctlNext
			}
		case token.SUB:
			return func(fr *frame) int {
				if a, ok := x.get(fr).(int64); ok {
					if b, ok := y.get(fr).(int64); ok {
						fr.env[dst] = wrapInt(a-b, bits, signed)
						return ctlNext
					}
				}
				fr.env[dst] = w.binopVal(op, t, x.get(fr), y.get(fr))
				return ctlNext
			}
		case token.LSS:
			return func(fr *frame) int {
				if a, ok := x.get(fr).(int64); ok {
					if b, ok := y.get(fr).(int64); ok {
						if signed {
							fr.env[dst] = a < b
						} else {
							fr.env[dst] = uint64(a) < uint64(b)
						}
						return ctlNext
					}
				}
				fr.env[dst] = w.binopVal(op, t, x.get(fr), y.get(fr))
				return ctlNext
			}
		case token.EQL, token.NEQ:
			return func(fr *frame) int {
				if a, ok := x.get(fr).(int64); ok {
					if b, ok := y.get(fr).(int64); ok {
						fr.env[dst] = (a == b) == (op == token.EQL)
						return ctlNext
					}
				}
				fr.env[dst] = w.binopVal(op, t, x.get(fr), y.get(fr))
				return ctlNext
			}
		}
	}
	if op == token.SHL || op == token.SHR {
		yt := in.Y.Type()
		return func(fr *frame) int {
			fr.env[dst] = w.shift(op, t, x.get(fr), y.get(fr), yt)
			return ctlNext
		}
	}
	return func(fr *frame) int {
		fr.env[dst] = w.binopVal(op, t, x.get(fr), y.get(fr))
		return ctlNext
	}
}

func (w *Worker) shift(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	bits, signed, _ := intInfo(t)
	_, ysigned, _ := intInfo(yt)
	n := uint64(w.concInt(y))
	if ysigned && int64(n) < 0 {
		w.rtPanic("negative shift amount")
	}
	if a, ok := x.(int64); ok {
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return wrapInt(a<<n, bits, signed)
		}
		if signed {
			if n >= 64 {
				n = 63
			}
			return a >> n
		}
		if n >= 64 {
			return int64(0)
		}
		return int64(uint64(a) >> n)
	}
	tx := w.intTerm(x, t)
	if n > 128 {
		n = 128
	}
	if op == token.SHL {
		if n >= uint64(bits) {
			return int64(0)
		}
		return w.intVal(w.wrapTerm(w.bank.Scale(tx, pow2[n]), bits, signed))
	}
	return w.intVal(w.bank.Div(tx, w.bank.IntC(pow2[n])))
}

// andMask computes x & mask for a non-negative constant mask.
func (w *Worker) andMask(x *sym.Term, mask *big.Int) *sym.Term {
	b := w.bank
	r := b.Int64(0)
	i, n := 0, mask.BitLen()
	for i < n {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		part := b.Mod(b.Div(x, b.IntC(pow2[i])), b.IntC(pow2[j-i]))
		r = b.Add(r, b.Scale(part, pow2[i]))
		i = j
	}
	return r
}

func (w *Worker) bitop(op token.Token, x, y *sym.Term, bits uint, signed bool) *sym.Term {
	b := w.bank
	if x.IsConst() {
		x, y = y, x
		if op == token.AND_NOT { // c &^ x
			op = -1
		}
	}
	if y.IsConst() && op != -1 {
		c := y.C
		if c.Sign() < 0 { // two's complement pattern
			c = new(big.Int).Add(c, pow2[bits])
		}
		and := w.andMask(x, c) // mod/div on negative x follow two's complement
		switch op {
		case token.AND:
			return w.wrapTerm(and, bits, signed)
		case token.OR:
			return w.wrapTerm(b.Sub(b.Add(x, b.IntC(c)), and), bits, signed)
		case token.XOR:
			return w.wrapTerm(b.Sub(b.Add(x, b.IntC(c)), b.Scale(and, big.NewInt(2))), bits, signed)
		case token.AND_NOT:
			return w.wrapTerm(b.Sub(x, and), bits, signed)
		}
	}
	// bitwise expansion
	nb := int(bits)
	if x.Lo != nil && y.Lo != nil && x.Hi != nil && y.Hi != nil && x.Lo.Sign() >= 0 && y.Lo.Sign() >= 0 {
		nb = x.Hi.BitLen()
		if n := y.Hi.BitLen(); n > nb {
			nb = n
		}
	}
	if nb > 16 && op != -1 && op != token.AND_NOT && x.Lo != nil && y.Lo != nil && x.Lo.Sign() >= 0 && y.Lo.Sign() >= 0 {
		// one side is narrow: only the low part of the other is affected
		if y.Hi == nil || x.Hi != nil && x.Hi.Cmp(y.Hi) < 0 {
			x, y = y, x
		}
		if y.Hi != nil && y.Hi.BitLen() <= 16 {
			m := b.IntC(pow2[y.Hi.BitLen()])
			low := b.Mod(x, m)
			r := w.bitop(op, low, y, bits, signed)
			if op == token.AND {
				return r
			}
			return b.Add(b.Sub(x, low), r)
		}
	}
	if nb > 16 {
		w.unsupported("bit operation on wide symbolic integers")
	}
	and := b.Int64(0)
	for i := 0; i < nb; i++ {
		bx := b.Mod(b.Div(x, b.IntC(pow2[i])), b.Int64(2))
		by := b.Mod(b.Div(y, b.IntC(pow2[i])), b.Int64(2))
		and = b.Add(and, b.Scale(b.Ite(b.Eq(b.Add(bx, by), b.Int64(2)), b.Int64(1), b.Int64(0)), pow2[i]))
	}
	switch op {
	case token.AND:
		return w.wrapTerm(and, bits, signed)
	case token.OR:
		return w.wrapTerm(b.Sub(b.Add(x, y), and), bits, signed)
	case token.XOR:
		return w.wrapTerm(b.Sub(b.Add(x, y), b.Scale(and, big.NewInt(2))), bits, signed)
	case token.AND_NOT:
		return w.wrapTerm(b.Sub(x, and), bits, signed)
	case -1: // y &^ x with operands swapped above
		return w.wrapTerm(b.Sub(y, and), bits, signed)
	}
	return nil
}

func (w *Worker) binopVal(op token.Token, t types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.equals(t, x, y)
	case token.NEQ:
		switch v := w.equals(t, x, y).(type) {
		case bool:
			return !v
		case *sym.Term:
			return w.fromBool(w.bank.Not(v))
		}
	}
	if bits, signed, ok := intInfo(t); ok {
		a, ok1 := x.(int64)
		b, ok2 := y.(int64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return wrapInt(a+b, bits, signed)
			case token.SUB:
				return wrapInt(a-b, bits, signed)
			case token.MUL:
				return wrapInt(a*b, bits, signed)
			case token.QUO:
				if b == 0 {
					w.rtPanic("integer divide by zero")
				}
				if signed {
					if b == -1 {
						return wrapInt(-a, bits, signed)
					}
					return wrapInt(a/b, bits, signed)
				}
				return int64(uint64(a) / uint64(b))
			case token.REM:
				if b == 0 {
					w.rtPanic("integer divide by zero")
				}
				if signed {
					if b == -1 {
						return int64(0)
					}
					return a % b
				}
				return int64(uint64(a) % uint64(b))
			case token.AND:
				return a & b
			case token.OR:
				return a | b
			case token.XOR:
				return wrapInt(a^b, bits, signed)
			case token.AND_NOT:
				return wrapInt(a&^b, bits, signed)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				c := 0
				if signed {
					if a < b {
						c = -1
					} else if a > b {
						c = 1
					}
				} else {
					if uint64(a) < uint64(b) {
						c = -1
					} else if uint64(a) > uint64(b) {
						c = 1
					}
				}
				return cmpRes(op, c)
			}
		}
		tx, ty := w.intTerm(x, t), w.intTerm(y, t)
		bk := w.bank
		switch op {
		case token.ADD:
			return w.intVal(w.wrapTerm(bk.Add(tx, ty), bits, signed))
		case token.SUB:
			return w.intVal(w.wrapTerm(bk.Sub(tx, ty), bits, signed))
		case token.MUL:
			return w.intVal(w.wrapTerm(bk.Mul(tx, ty), bits, signed))
		case token.QUO, token.REM:
			if w.branch(bk.Eq(ty, bk.Int64(0))) {
				w.rtPanic("integer divide by zero")
			}
			if op == token.QUO {
				return w.intVal(w.wrapTerm(bk.QuoTrunc(tx, ty), bits, signed))
			}
			return w.intVal(w.wrapTerm(bk.RemTrunc(tx, ty), bits, signed))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return w.intVal(w.bitop(op, tx, ty, bits, signed))
		case token.LSS:
			return w.fromBool(bk.Lt(tx, ty))
		case token.LEQ:
			return w.fromBool(bk.Le(tx, ty))
		case token.GTR:
			return w.fromBool(bk.Lt(ty, tx))
		case token.GEQ:
			return w.fromBool(bk.Le(ty, tx))
		}
		w.unsupported("int op %s", op)
	}
	switch a := x.(type) {
	case float64:
		if b, ok := y.(float64); ok {
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
			if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		}
		return w.floatOp(op, x, y)
	case *SymFloat:
		return w.floatOp(op, x, y)
	case string, *SymStr:
		if op == token.ADD {
			return concatStr(x, y)
		}
		if s1, ok := x.(string); ok {
			if s2, ok := y.(string); ok {
				c := 0
				if s1 < s2 {
					c = -1
				} else if s1 > s2 {
					c = 1
				}
				return cmpRes(op, c)
			}
		}
		lt := w.strLess(strElems(x), strElems(y))
		gt := w.strLess(strElems(y), strElems(x))
		switch op {
		case token.LSS:
			return w.fromBool(lt)
		case token.GTR:
			return w.fromBool(gt)
		case token.LEQ:
			return w.fromBool(w.bank.Not(gt))
		case token.GEQ:
			return w.fromBool(w.bank.Not(lt))
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	w.unsupported("binop %s on %T,%T", op, x, y)
	return nil
}

func cmpRes(op token.Token, c int) bool {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	panic("cmpRes")
}

// strLess is lexicographic byte order as a term.
func (w *Worker) strLess(a, b []Value) *sym.Term {
	bk := w.bank
	if len(b) == 0 {
		return bk.False
	}
	if len(a) == 0 {
		return bk.True
	}
	ta, tb := w.byteTerm(a[0]), w.byteTerm(b[0])
	if ta.IsConst() && tb.IsConst() {
		c := ta.C.Cmp(tb.C)
		if c != 0 {
			return bk.BoolC(c < 0)
		}
		return w.strLess(a[1:], b[1:])
	}
	return bk.Or(bk.Lt(ta, tb), bk.And(bk.Eq(ta, tb), w.strLess(a[1:], b[1:])))
}

func (w *Worker) byteTerm(v Value) *sym.Term {
	switch v := v.(type) {
	case int64:
		return w.bank.Int64(v)
	case *sym.Term:
		return v
	}
	w.unsupported("byte of %T", v)
	return nil
}

// ---- floats

// real gives a real-valued term for a float; exact reports whether it equals the float exactly.
func (w *Worker) realOf(v Value) (t *sym.Term, exact bool) {
	switch v := v.(type) {
	case float64:
		if math.IsInf(v, 0) || math.IsNaN(v) {
			w.unsupported("non-finite float mixed with symbolic float")
		}
		r := new(big.Rat)
		r.SetFloat64(v)
		return w.bank.RatC(r), true
	case *SymFloat:
		if v.Exact {
			t := w.bank.RScale(w.bank.ToReal(v.M), new(big.Rat).SetFrac(big.NewInt(1), pow10(v.K)))
			return t, v.K == 0
		}
		return v.Real, true
	}
	w.unsupported("realOf %T", v)
	return nil, false
}

func pow10(k int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k)), nil) }

// rounded returns a term within one rounding error of the exact real t.
func (w *Worker) rounded(t *sym.Term) *sym.Term {
	if t.IsConst() {
		f, _ := t.R.Float64()
		return w.bank.RatC(new(big.Rat).SetFloat64(f))
	}
	b := w.bank
	e := w.fresh("rnd", sym.Real, nil, nil)
	eps := new(big.Rat).SetFrac(big.NewInt(1), pow2[53])
	// |e| <= eps*|t|
	abs := b.Ite(b.Le(b.RatC(new(big.Rat)), t), t, b.Neg(t))
	bound := b.RScale(abs, eps)
	w.rawPC(b.Le(e, bound))
	w.rawPC(b.Le(b.Neg(bound), e))
	w.eng.noteFloatRounding()
	return b.Add(t, e)
}

// trueReal is the actual real value of a float (including the representation error of decimals).
func (w *Worker) trueReal(v Value) *sym.Term {
	if sf, ok := v.(*SymFloat); ok && sf.Exact && sf.K > 0 {
		if sf.Real == nil {
			t, _ := w.realOf(v)
			sf.Real = w.rounded(t)
		}
		return sf.Real
	}
	t, _ := w.realOf(v)
	return t
}

func (w *Worker) floatOp(op token.Token, x, y Value) Value {
	b := w.bank
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL:
		// decimals of at most 15 digits: nearest-float rounding is injective and monotone
		var tx, ty *sym.Term
		if w.isDec(x) && w.isDec(y) {
			tx, ty = w.decReal(x), w.decReal(y)
		} else {
			tx, ty = w.trueReal(x), w.trueReal(y)
		}
		switch op {
		case token.LSS:
			return w.fromBool(b.Lt(tx, ty))
		case token.LEQ:
			return w.fromBool(b.Le(tx, ty))
		case token.GTR:
			return w.fromBool(b.Lt(ty, tx))
		case token.GEQ:
			return w.fromBool(b.Le(ty, tx))
		}
		return w.fromBool(b.Eq(tx, ty))
	}
	// exact small-integer arithmetic
	if mx, ok := w.exactInt(x); ok {
		if my, ok := w.exactInt(y); ok {
			var r *sym.Term
			switch op {
			case token.ADD:
				r = b.Add(mx, my)
			case token.SUB:
				r = b.Sub(mx, my)
			case token.MUL:
				r = b.Mul(mx, my)
			}
			if r != nil && r.Lo != nil && r.Hi != nil && new(big.Int).Abs(r.Lo).Cmp(pow2[53]) <= 0 && new(big.Int).Abs(r.Hi).Cmp(pow2[53]) <= 0 {
				return &SymFloat{M: r, K: 0, Exact: true}
			}
		}
	}
	tx, ty := w.trueReal(x), w.trueReal(y)
	var r *sym.Term
	switch op {
	case token.ADD:
		r = b.Add(tx, ty)
	case token.SUB:
		r = b.Sub(tx, ty)
	case token.MUL:
		if f, ok := x.(float64); ok && f == 1 {
			return y
		}
		if f, ok := y.(float64); ok && f == 1 {
			return x
		}
		r = b.Mul(tx, ty)
	case token.QUO:
		if f, ok := y.(float64); ok {
			if f == 1 {
				return x
			}
			if f == 0 {
				w.unsupported("symbolic float division by zero")
			}
		} else if w.branch(b.Eq(ty, b.RatC(new(big.Rat)))) {
			w.unsupported("symbolic float division by zero")
		}
		r = b.RDiv(tx, ty)
	default:
		w.unsupported("float op %s", op)
	}
	return &SymFloat{Real: w.rounded(r)}
}

func (w *Worker) isDec(v Value) bool {
	switch v := v.(type) {
	case float64:
		d, k, ok := shortDec(v)
		return ok && k <= 15 && len(d.String()) <= 15
	case *SymFloat:
		return v.Exact
	}
	return false
}

func (w *Worker) decReal(v Value) *sym.Term {
	if f, ok := v.(float64); ok {
		d, k, _ := shortDec(f)
		return w.bank.RatC(new(big.Rat).SetFrac(d, pow10(k)))
	}
	t, _ := w.realOf(v)
	return t
}

// shortDec gives the shortest decimal d/10^k that reads back as f.
func shortDec(f float64) (*big.Int, int, bool) {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return nil, 0, false
	}
	s := formatFloat(f)
	neg := false
	if s[0] == '-' {
		neg, s = true, s[1:]
	}
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			k = len(s) - i - 1
			s = s[:i] + s[i+1:]
			break
		}
	}
	d, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, 0, false
	}
	if neg {
		d.Neg(d)
	}
	return d, k, true
}

func (w *Worker) exactInt(v Value) (*sym.Term, bool) {
	switch v := v.(type) {
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<53 {
			return w.bank.Int64(int64(v)), true
		}
	case *SymFloat:
		if v.Exact && v.K == 0 {
			return v.M, true
		}
	}
	return nil, false
}

// ---- equality

func (w *Worker) equals(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		if b, ok := y.(*sym.Term); ok {
			return w.fromBool(w.bank.Eq(w.intTerm(x, t), b))
		}
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		if b, ok := y.(*sym.Term); ok {
			return w.fromBool(w.bank.Iff(w.bank.BoolC(a), b))
		}
	case *sym.Term:
		switch b := y.(type) {
		case *sym.Term:
			return w.fromBool(w.bank.Eq(a, b))
		case int64:
			return w.fromBool(w.bank.Eq(a, w.intTerm(b, t)))
		case bool:
			return w.fromBool(w.bank.Iff(a, w.bank.BoolC(b)))
		}
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		return w.floatOp(token.EQL, x, y)
	case *SymFloat:
		return w.floatOp(token.EQL, x, y)
	case complex128:
		return a == y.(complex128)
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return w.fromBool(w.strEq(strElems(x), strElems(y)))
	case *SymStr:
		return w.fromBool(w.strEq(strElems(x), strElems(y)))
	case Ptr:
		if b, ok := y.(Ptr); ok {
			return a == b
		}
		return false
	case *Chan:
		return a == y.(*Chan)
	case Slice:
		return a == nil && isNil(y)
	case *Map:
		return a == nil && isNil(y)
	case *ssa.Function:
		if isNil(a) || isNil(y) {
			return isNil(a) && isNil(y)
		}
	case *Closure, *NativeFunc:
		return isNil(a) && isNil(y)
	case *Native:
		b, ok := y.(*Native)
		return ok && a == b
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			w.unsupported("compare interface with %T", y)
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !w.sameType(a.T, b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			w.rtPanic("comparing uncomparable type " + a.T.String())
		}
		return w.equals(a.T, a.V, b.V)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := w.bank.True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.bank.And(r, w.boolTerm(w.equals(st.Field(i).Type(), a[i], b[i])))
			if r.IsFalse() {
				return false
			}
		}
		return w.fromBool(r)
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := w.bank.True
		for i := range a {
			r = w.bank.And(r, w.boolTerm(w.equals(et, a[i], b[i])))
			if r.IsFalse() {
				return false
			}
		}
		return w.fromBool(r)
	}
	w.unsupported("equals %T %T", x, y)
	return nil
}

// strEq compares byte sequences that may contain symbolic bytes and unknown-length parts.
func (w *Worker) strEq(a, b []Value) *sym.Term {
	bk := w.bank
	r := bk.True
	// strip equal-length ends
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		ax, okx := x.(*Atom)
		ay, oky := y.(*Atom)
		if okx || oky {
			if !(okx && oky) {
				break
			}
			if ax != ay {
				break
			}
		} else {
			r = bk.And(r, bk.Eq(w.byteTerm(x), w.byteTerm(y)))
			if r.IsFalse() {
				return r
			}
		}
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 {
		x, y := a[len(a)-1], b[len(b)-1]
		ax, okx := x.(*Atom)
		ay, oky := y.(*Atom)
		if okx || oky {
			if !(okx && oky && ax == ay) {
				break
			}
		} else {
			r = bk.And(r, bk.Eq(w.byteTerm(x), w.byteTerm(y)))
			if r.IsFalse() {
				return r
			}
		}
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	if len(a) == 0 && len(b) == 0 {
		return r
	}
	hasAtom := func(e []Value) bool {
		for _, x := range e {
			if _, ok := x.(*Atom); ok {
				return true
			}
		}
		return false
	}
	ha, hb := hasAtom(a), hasAtom(b)
	if !ha && !hb {
		return bk.False // different lengths
	}
	if len(a) == 0 || len(b) == 0 {
		return bk.False // atoms are non-empty
	}
	if !hb {
		a, b, ha, hb = b, a, hb, ha
	}
	// b has an atom. single atom against plain bytes or a single atom
	if len(b) == 1 {
		at := b[0].(*Atom)
		if len(a) == 1 {
			if aa, ok := a[0].(*Atom); ok {
				return bk.And(r, w.atomEq(aa, at))
			}
		}
		if !ha {
			return bk.And(r, w.atomEqBytes(at, a))
		}
	}
	// several atoms separated by identical concrete delimiters: align piecewise when delimiters are unambiguous
	pa, da, ok1 := splitAtoms(a)
	pb, db, ok2 := splitAtoms(b)
	if ok1 && ok2 && len(pa) == len(pb) && da == db {
		for i := range pa {
			r = bk.And(r, w.atomEq(pa[i], pb[i]))
		}
		return r
	}
	if ok2 && !ha {
		// concrete string against atom,delim,atom...: split the concrete side by the delimiters
		if s, ok := normStr(a).(string); ok {
			parts, ok := splitByDelims(s, db)
			if ok && len(parts) == len(pb) {
				for i := range parts {
					r = bk.And(r, w.atomEqBytes(pb[i], strElems(parts[i])))
				}
				return r
			}
			if ok {
				return bk.False
			}
		}
	}
	w.unsupported("string equality with unknown-length parts: %s vs %s", &SymStr{E: a}, &SymStr{E: b})
	return nil
}

// splitAtoms recognises atom (delim atom)* with concrete delimiters that are not digits, '-', or '.'.
func splitAtoms(e []Value) (parts []*Atom, delims string, ok bool) {
	want := true
	d := ""
	for _, x := range e {
		if a, isA := x.(*Atom); isA {
			if !want {
				return nil, "", false
			}
			if len(parts) > 0 {
				delims += d + "\x00"
			}
			d = ""
			parts = append(parts, a)
			want = false
			continue
		}
		c, isC := x.(int64)
		if !isC || c >= '0' && c <= '9' || c == '-' || c == '.' {
			return nil, "", false
		}
		d += string(rune(c))
		want = true
	}
	if want {
		return nil, "", false
	}
	return parts, delims, true
}

func splitByDelims(s, delims string) ([]string, bool) {
	var parts []string
	d := ""
	for i := 0; i < len(delims); i++ {
		if delims[i] != 0 {
			d += string(delims[i])
			continue
		}
		j := indexStr(s, d)
		if j < 0 {
			return nil, true
		}
		parts = append(parts, s[:j])
		s = s[j+len(d):]
		d = ""
	}
	return append(parts, s), true
}

func indexStr(s, d string) int {
	for i := 0; i+len(d) <= len(s); i++ {
		if s[i:i+len(d)] == d {
			return i
		}
	}
	return -1
}

func (w *Worker) atomEq(x, y *Atom) *sym.Term {
	bk := w.bank
	if x == y {
		return bk.True
	}
	if x.Kind != y.Kind {
		if (x.Kind == "dec" && y.Kind == "fdec") || (x.Kind == "fdec" && y.Kind == "dec") {
			// both render canonical decimals
			return w.decAtomEq(x, y)
		}
		if x.Kind == "opq" || y.Kind == "opq" {
			return bk.False
		}
		w.unsupported("equality of %s and %s text", x.Kind, y.Kind)
	}
	switch x.Kind {
	case "dec":
		return bk.Eq(x.T, y.T)
	case "fdec":
		return w.decAtomEq(x, y)
	case "fun": // text of unknown shape: equal terms give equal text, nothing else is known
		return bk.Ite(bk.Eq(x.T, y.T), bk.True, w.fresh("txteq", sym.Bool, nil, nil))
	case "opq":
		if x.Name != y.Name || len(x.Args) != len(y.Args) {
			return bk.False
		}
		r := bk.True
		for i := range x.Args {
			r = bk.And(r, w.strEq(strElems(x.Args[i]), strElems(y.Args[i])))
		}
		return r
	}
	w.unsupported("atom equality %s", x.Kind)
	return nil
}

func (w *Worker) decAtomEq(x, y *Atom) *sym.Term {
	k := x.K
	if y.K > k {
		k = y.K
	}
	return w.bank.Eq(w.bank.Scale(x.T, pow10(k-x.K)), w.bank.Scale(y.T, pow10(k-y.K)))
}

// atomEqBytes compares an unknown-length part with plain bytes.
func (w *Worker) atomEqBytes(a *Atom, e []Value) *sym.Term {
	bk := w.bank
	if a.Kind == "opq" {
		return bk.False // collision-free function never meets a text not derived from it
	}
	s, ok := normStr(e).(string)
	if !ok {
		w.unsupported("equality of decimal text with symbolic bytes")
	}
	switch a.Kind {
	case "fun":
		return w.fresh("txteq", sym.Bool, nil, nil)
	case "dec":
		v, ok := new(big.Int).SetString(s, 10)
		if !ok || v.String() != s {
			return bk.False
		}
		return bk.Eq(a.T, bk.IntC(v))
	case "fdec":
		v, ok := new(big.Rat).SetString(s)
		if !ok {
			return bk.False
		}
		return bk.Eq(bk.RScale(bk.ToReal(a.T), new(big.Rat).SetFrac(big.NewInt(1), pow10(a.K))), bk.RatC(v))
	}
	w.unsupported("atom %s equality with text", a.Kind)
	return nil
}

// ---- conversions

func (w *Worker) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			fi, ti := fb.Info(), tb.Info()
			switch {
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				return x
			case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
				bits, signed, _ := intInfo(to)
				switch v := x.(type) {
				case int64:
					return wrapInt(v, bits, signed)
				case *sym.Term:
					return w.intVal(w.wrapTerm(v, bits, signed))
				}
			case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
				switch v := x.(type) {
				case int64:
					_, signed, _ := intInfo(from)
					if signed {
						return float64(v)
					}
					return float64(uint64(v))
				case *sym.Term:
					if v.Lo != nil && v.Hi != nil && new(big.Int).Abs(v.Lo).Cmp(pow2[53]) <= 0 && new(big.Int).Abs(v.Hi).Cmp(pow2[53]) <= 0 {
						return &SymFloat{M: v, Exact: true}
					}
					return &SymFloat{Real: w.rounded(w.bank.ToReal(v))}
				}
			case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
				bits, signed, _ := intInfo(to)
				switch v := x.(type) {
				case float64:
					if signed {
						return wrapInt(int64(v), bits, signed)
					}
					return wrapInt(int64(uint64(v)), bits, signed)
				case *SymFloat:
					b := w.bank
					t := w.trueReal(v)
					var it *sym.Term
					if v.Exact && v.K == 0 {
						it = v.M
					} else if w.isDec(v) {
						// truncation of the nearest float of a decimal equals truncation of the decimal unless
						// rounding crosses an integer, which it cannot for at most 15 digits
						d := b.IntC(pow10(v.K))
						it = b.QuoTrunc(v.M, d)
					} else {
						zero := b.RatC(new(big.Rat))
						it = b.Ite(b.Le(zero, t), b.Floor(t), b.Neg(b.Floor(b.Neg(t))))
					}
					lo, hi := intRange(bits, signed)
					in := b.And(b.Le(b.IntC(lo), it), b.Le(it, b.IntC(hi)))
					if !w.branch(in) {
						return int64(math.MinInt64) // amd64 behaviour for out-of-range conversions
					}
					return w.intVal(w.clampBounds(it, lo, hi))
				}
			case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
				if f, ok := x.(float64); ok && tb.Kind() == types.Float32 {
					return float64(float32(f))
				}
				return x
			case ti&types.IsString != 0 && fi&types.IsInteger != 0:
				r, ok := x.(int64)
				if !ok {
					t := x.(*sym.Term)
					if w.branch(w.bank.And(w.bank.Le(w.bank.Int64(0), t), w.bank.Lt(t, w.bank.Int64(128)))) {
						return &SymStr{E: []Value{t}}
					}
					b := w.bank
					in := func(lo, hi int64) bool { return w.branch(b.And(b.Le(b.Int64(lo), t), b.Le(t, b.Int64(hi)))) }
					part := func(div, mod, base int64) Value {
						x := t
						if div > 1 {
							x = b.Div(x, b.Int64(div))
						}
						if mod > 0 {
							x = b.Mod(x, b.Int64(mod))
						}
						return w.intVal(b.Add(x, b.Int64(base)))
					}
					switch {
					case in(0x80, 0x7ff):
						return &SymStr{E: []Value{part(64, 0, 0xC0), part(1, 64, 0x80)}}
					case in(0x800, 0xd7ff), in(0xe000, 0xffff):
						return &SymStr{E: []Value{part(4096, 0, 0xE0), part(64, 64, 0x80), part(1, 64, 0x80)}}
					case in(0x10000, 0x10ffff):
						return &SymStr{E: []Value{part(262144, 0, 0xF0), part(4096, 64, 0x80), part(64, 64, 0x80), part(1, 64, 0x80)}}
					}
					return "\uFFFD"
				}
				if r < 0 || r > utf8.MaxRune {
					r = utf8.RuneError
				}
				return string(rune(r))
			case ti&types.IsString != 0 && fi&types.IsString != 0:
				return x
			case fi&types.IsBoolean != 0 && ti&types.IsBoolean != 0:
				return x
			case ti&types.IsComplex != 0:
				return x
			}
		}
		if fs, ok := fu.(*types.Slice); ok && tb.Info()&types.IsString != 0 {
			s := x.(Slice)
			if eb, ok := fs.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return normStr(append([]Value{}, s...))
			}
			// []rune -> string
			var r Value = ""
			for _, e := range s {
				r = concatStr(r, w.convert(e, types.Typ[types.Int32], types.Typ[types.String]))
			}
			return r
		}
		if tb.Kind() == types.UnsafePointer {
			return x
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if eb, ok := ts.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				return Slice(append([]Value{}, strElems(x)...))
			}
			out := Slice{}
			it := w.newIter(x, nil)
			for {
				t := it.next(w).(Tuple)
				if t[0] == false {
					return out
				}
				out = append(out, t[2])
			}
		}
		return x
	}
	switch tu.(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	w.unsupported("convert %s to %s (%T)", from, to, x)
	return nil
}

// clampBounds tells the simplifier that t lies in [lo,hi] (established on the path).
func (w *Worker) clampBounds(t *sym.Term, lo, hi *big.Int) *sym.Term {
	if t.IsConst() || t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	v := w.fresh("clamp", sym.Int, lo, hi)
	w.rawPC(w.bank.Eq(v, t))
	return v
}

var _ = fmt.Sprint
