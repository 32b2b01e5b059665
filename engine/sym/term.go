// Package sym: hash-consed SMT terms over Bool, Int and Real with light simplification and interval bounds.
package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	Bool Sort = iota
	Int
	Real
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real"}[s] }

type Op uint8

const (
	OpConst  Op = iota
	OpVar       // named constant
	OpLin       // Int: sum Coef_i*Args_i + C
	OpRLin      // Real: sum RCoef_i*Args_i + R
	OpMul       // nonlinear Int/Real product
	OpDiv       // SMT Int div (floor for positive divisor)
	OpMod       // SMT Int mod
	OpRDiv      // Real division
	OpIte
	OpLe0 // Args[0] <= 0 (Int)
	OpEq0 // Args[0] == 0 (Int)
	OpRLe0
	OpRLt0
	OpREq0
	OpAnd
	OpOr
	OpNot
	OpIff
	OpToReal
	OpFloor // Real -> Int
	OpUF    // uninterpreted function
)

type Term struct {
	ID    int
	Op    Op
	Sort  Sort
	Args  []*Term
	Coef  []*big.Int
	RCoef []*big.Rat
	C     *big.Int // Int const / Lin constant
	R     *big.Rat
	B     bool
	Name  string
	Lo    *big.Int // Int bounds, nil = unbounded
	Hi    *big.Int
	neg   *Term // cached negation
	def   bool  // defined in solver
}

type Bank struct {
	tab   map[string]*Term
	terms []*Term
	Vars  map[string]*Term
	UFs   map[string]string // name -> declaration
	True  *Term
	False *Term
	kb    []byte
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	ratZero = new(big.Rat)
	ratOne  = big.NewRat(1, 1)
)

func NewBank() *Bank {
	b := &Bank{tab: map[string]*Term{}, Vars: map[string]*Term{}, UFs: map[string]string{}}
	b.True = b.mk(&Term{Op: OpConst, Sort: Bool, B: true})
	b.False = b.mk(&Term{Op: OpConst, Sort: Bool, B: false})
	return b
}

func (b *Bank) NumTerms() int { return len(b.terms) }

func (b *Bank) mk(t *Term) *Term {
	k := b.kb[:0]
	k = append(k, byte(t.Op), byte(t.Sort), '|')
	for i, a := range t.Args {
		k = appendInt(k, a.ID)
		if t.Coef != nil {
			k = append(k, '*')
			k = t.Coef[i].Append(k, 36)
		}
		if t.RCoef != nil {
			k = append(k, '*')
			k = append(k, t.RCoef[i].RatString()...)
		}
		k = append(k, ',')
	}
	k = append(k, '|')
	if t.C != nil {
		k = t.C.Append(k, 36)
	}
	k = append(k, '|')
	if t.R != nil {
		k = append(k, t.R.RatString()...)
	}
	k = append(k, t.Name...)
	if t.B {
		k = append(k, 'T')
	}
	b.kb = k
	if o, ok := b.tab[string(k)]; ok {
		return o
	}
	t.ID = len(b.terms)
	b.terms = append(b.terms, t)
	b.tab[string(k)] = t
	b.bounds(t)
	return t
}

func appendInt(k []byte, n int) []byte { return strconv.AppendInt(k, int64(n), 36) }

func addB(x, y *big.Int) *big.Int {
	if x == nil || y == nil {
		return nil
	}
	return new(big.Int).Add(x, y)
}

func (b *Bank) bounds(t *Term) {
	if t.Sort != Int {
		return
	}
	switch t.Op {
	case OpConst:
		t.Lo, t.Hi = t.C, t.C
	case OpLin:
		lo, hi := t.C, t.C
		for i, a := range t.Args {
			c := t.Coef[i]
			al, ah := a.Lo, a.Hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if al != nil && lo != nil {
				lo = addB(lo, new(big.Int).Mul(al, c))
			} else {
				lo = nil
			}
			if ah != nil && hi != nil {
				hi = addB(hi, new(big.Int).Mul(ah, c))
			} else {
				hi = nil
			}
		}
		t.Lo, t.Hi = lo, hi
	case OpIte:
		x, y := t.Args[1], t.Args[2]
		if x.Lo != nil && y.Lo != nil {
			t.Lo = x.Lo
			if y.Lo.Cmp(t.Lo) < 0 {
				t.Lo = y.Lo
			}
		}
		if x.Hi != nil && y.Hi != nil {
			t.Hi = x.Hi
			if y.Hi.Cmp(t.Hi) > 0 {
				t.Hi = y.Hi
			}
		}
	case OpMul:
		x, y := t.Args[0], t.Args[1]
		if x.Lo != nil && x.Hi != nil && y.Lo != nil && y.Hi != nil {
			for _, p := range []*big.Int{x.Lo, x.Hi} {
				for _, q := range []*big.Int{y.Lo, y.Hi} {
					v := new(big.Int).Mul(p, q)
					if t.Lo == nil || v.Cmp(t.Lo) < 0 {
						t.Lo = v
					}
					if t.Hi == nil || v.Cmp(t.Hi) > 0 {
						t.Hi = v
					}
				}
			}
		}
	case OpDiv:
		x, y := t.Args[0], t.Args[1]
		if y.Op == OpConst && y.C.Sign() > 0 {
			if x.Lo != nil {
				t.Lo = new(big.Int).Div(x.Lo, y.C)
			}
			if x.Hi != nil {
				t.Hi = new(big.Int).Div(x.Hi, y.C)
			}
		} else if y.Lo != nil && y.Lo.Sign() > 0 && x.Lo != nil && x.Hi != nil {
			m := new(big.Int).Abs(x.Lo)
			if n := new(big.Int).Abs(x.Hi); n.Cmp(m) > 0 {
				m = n
			}
			t.Hi = m
			t.Lo = new(big.Int).Neg(m)
			if x.Lo.Sign() >= 0 {
				t.Lo = bigZero
			}
		}
	case OpMod:
		x, y := t.Args[0], t.Args[1]
		t.Lo = bigZero
		if y.Op == OpConst && y.C.Sign() != 0 {
			t.Hi = new(big.Int).Sub(new(big.Int).Abs(y.C), bigOne)
		} else if y.Lo != nil && y.Hi != nil && y.Lo.Sign() > 0 {
			t.Hi = new(big.Int).Sub(y.Hi, bigOne)
		}
		_ = x
	}
}

func (t *Term) IsConst() bool { return t.Op == OpConst }
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.Sort == Bool && t.B }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.Sort == Bool && !t.B }

func (b *Bank) BoolC(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *Bank) IntC(v *big.Int) *Term {
	return b.mk(&Term{Op: OpConst, Sort: Int, C: v})
}
func (b *Bank) Int64(v int64) *Term { return b.IntC(big.NewInt(v)) }
func (b *Bank) RatC(v *big.Rat) *Term {
	return b.mk(&Term{Op: OpConst, Sort: Real, R: v})
}

// Var returns the variable of that name; bounds (may be nil) apply to Int variables and are part of its identity.
func (b *Bank) Var(name string, s Sort, lo, hi *big.Int) *Term {
	if t, ok := b.Vars[name]; ok && t.Sort == s && eqB(t.Lo, lo) && eqB(t.Hi, hi) {
		return t
	}
	n := name
	for i := 1; ; i++ {
		if o, ok := b.Vars[n]; !ok {
			break
		} else if o.Sort == s && eqB(o.Lo, lo) && eqB(o.Hi, hi) {
			return o
		}
		n = fmt.Sprintf("%s~%d", name, i)
	}
	t := &Term{Op: OpVar, Sort: s, Name: n, Lo: lo, Hi: hi}
	t = b.mk(t)
	b.Vars[n] = t
	return t
}

func eqB(x, y *big.Int) bool {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return x.Cmp(y) == 0
}

// UF applies an uninterpreted function.
func (b *Bank) UF(name string, res Sort, args ...*Term) *Term {
	if _, ok := b.UFs[name]; !ok {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-fun |%s| (", name)
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.Sort.String())
		}
		fmt.Fprintf(&sb, ") %s)", res)
		b.UFs[name] = sb.String()
	}
	return b.mk(&Term{Op: OpUF, Sort: res, Name: name, Args: args})
}

// ---- linear integer arithmetic

type linAcc struct {
	atoms map[*Term]*big.Int
	c     *big.Int
}

func (b *Bank) linAdd(acc *linAcc, t *Term, k *big.Int) {
	switch t.Op {
	case OpConst:
		acc.c = new(big.Int).Add(acc.c, new(big.Int).Mul(t.C, k))
	case OpLin:
		acc.c = new(big.Int).Add(acc.c, new(big.Int).Mul(t.C, k))
		for i, a := range t.Args {
			acc.add(a, new(big.Int).Mul(t.Coef[i], k))
		}
	default:
		acc.add(t, k)
	}
}
func (acc *linAcc) add(a *Term, k *big.Int) {
	if o, ok := acc.atoms[a]; ok {
		acc.atoms[a] = new(big.Int).Add(o, k)
	} else {
		acc.atoms[a] = k
	}
}
func (b *Bank) linDone(acc *linAcc) *Term {
	var ats []*Term
	for a, c := range acc.atoms {
		if c.Sign() != 0 {
			ats = append(ats, a)
		}
	}
	if len(ats) == 0 {
		return b.IntC(acc.c)
	}
	sort.Slice(ats, func(i, j int) bool { return ats[i].ID < ats[j].ID })
	if len(ats) == 1 && acc.c.Sign() == 0 && acc.atoms[ats[0]].Cmp(bigOne) == 0 {
		return ats[0]
	}
	cs := make([]*big.Int, len(ats))
	for i, a := range ats {
		cs[i] = acc.atoms[a]
	}
	return b.mk(&Term{Op: OpLin, Sort: Int, Args: ats, Coef: cs, C: acc.c})
}

func (b *Bank) Add(x, y *Term) *Term { return b.lin2(x, bigOne, y, bigOne) }

var bigM1 = big.NewInt(-1)

func (b *Bank) Sub(x, y *Term) *Term { return b.lin2(x, bigOne, y, bigM1) }
func (b *Bank) Neg(x *Term) *Term    { return b.Scale(x, bigM1) }
func (b *Bank) lin2(x *Term, kx *big.Int, y *Term, ky *big.Int) *Term {
	if x.Sort == Real || y.Sort == Real {
		return b.rlin2(b.ToReal(x), new(big.Rat).SetInt(kx), b.ToReal(y), new(big.Rat).SetInt(ky))
	}
	acc := &linAcc{atoms: map[*Term]*big.Int{}, c: bigZero}
	b.linAdd(acc, x, kx)
	b.linAdd(acc, y, ky)
	return b.linDone(acc)
}
func (b *Bank) Scale(x *Term, k *big.Int) *Term {
	if x.Sort == Real {
		return b.RScale(x, new(big.Rat).SetInt(k))
	}
	acc := &linAcc{atoms: map[*Term]*big.Int{}, c: bigZero}
	b.linAdd(acc, x, k)
	return b.linDone(acc)
}
func (b *Bank) Mul(x, y *Term) *Term {
	if x.Sort == Real || y.Sort == Real {
		x, y = b.ToReal(x), b.ToReal(y)
		if x.IsConst() {
			return b.RScale(y, x.R)
		}
		if y.IsConst() {
			return b.RScale(x, y.R)
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return b.mk(&Term{Op: OpMul, Sort: Real, Args: []*Term{x, y}})
	}
	if x.IsConst() {
		return b.Scale(y, x.C)
	}
	if y.IsConst() {
		return b.Scale(x, y.C)
	}
	if x.Op == OpIte && x.Args[1].IsConst() && x.Args[2].IsConst() {
		return b.Ite(x.Args[0], b.Mul(x.Args[1], y), b.Mul(x.Args[2], y))
	}
	if y.Op == OpIte && y.Args[1].IsConst() && y.Args[2].IsConst() {
		return b.Ite(y.Args[0], b.Mul(x, y.Args[1]), b.Mul(x, y.Args[2]))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpMul, Sort: Int, Args: []*Term{x, y}})
}

// Div is SMT-LIB div (Euclidean).
func (b *Bank) Div(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.C.Sign() != 0 {
		return b.IntC(new(big.Int).Div(x.C, y.C))
	}
	if y.IsConst() {
		if y.C.Cmp(bigOne) == 0 {
			return x
		}
		if y.C.Sign() > 0 {
			if x.Lo != nil && x.Hi != nil {
				ql, qh := new(big.Int).Div(x.Lo, y.C), new(big.Int).Div(x.Hi, y.C)
				if ql.Cmp(qh) == 0 {
					return b.IntC(ql)
				}
			}
			// pull out multiples of the divisor
			if x.Op == OpLin {
				if q, r, ok := b.splitMul(x, y.C); ok {
					return b.Add(q, b.Div(r, y))
				}
			}
			if x.Op == OpDiv && x.Args[1].IsConst() && x.Args[1].C.Sign() > 0 {
				return b.Div(x.Args[0], b.IntC(new(big.Int).Mul(y.C, x.Args[1].C)))
			}
		}
	}
	return b.mk(&Term{Op: OpDiv, Sort: Int, Args: []*Term{x, y}})
}

// splitMul writes x = q*k + r where q is nontrivial; ok only if something could be extracted.
func (b *Bank) splitMul(x *Term, k *big.Int) (q, r *Term, ok bool) {
	qa := &linAcc{atoms: map[*Term]*big.Int{}, c: bigZero}
	ra := &linAcc{atoms: map[*Term]*big.Int{}, c: bigZero}
	for i, a := range x.Args {
		m := new(big.Int)
		d, _ := new(big.Int).DivMod(x.Coef[i], k, m)
		if m.Sign() == 0 {
			qa.add(a, d)
			ok = true
		} else {
			ra.add(a, x.Coef[i])
		}
	}
	m := new(big.Int)
	d, _ := new(big.Int).DivMod(x.C, k, m)
	if d.Sign() != 0 {
		ok = true
	}
	qa.c, ra.c = d, m
	if !ok {
		return nil, nil, false
	}
	return b.linDone(qa), b.linDone(ra), true
}

func (b *Bank) Mod(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() && y.C.Sign() != 0 {
		return b.IntC(new(big.Int).Mod(x.C, y.C))
	}
	if y.IsConst() && y.C.Sign() > 0 {
		if y.C.Cmp(bigOne) == 0 {
			return b.Int64(0)
		}
		if x.Lo != nil && x.Hi != nil {
			ql, qh := new(big.Int).Div(x.Lo, y.C), new(big.Int).Div(x.Hi, y.C)
			if ql.Cmp(qh) == 0 {
				return b.Sub(x, b.IntC(new(big.Int).Mul(ql, y.C)))
			}
		}
		if x.Op == OpLin {
			if _, r, ok := b.splitMul(x, y.C); ok {
				return b.Mod(r, y)
			}
		}
		if x.Op == OpMod && x.Args[1].IsConst() && new(big.Int).Mod(x.Args[1].C, y.C).Sign() == 0 {
			return b.Mod(x.Args[0], y)
		}
	}
	return b.mk(&Term{Op: OpMod, Sort: Int, Args: []*Term{x, y}})
}

// QuoTrunc / RemTrunc: Go's truncated division; y must be nonzero on the path.
func (b *Bank) QuoTrunc(x, y *Term) *Term {
	ypos := y.Lo != nil && y.Lo.Sign() > 0
	yneg := y.Hi != nil && y.Hi.Sign() < 0
	if yneg {
		return b.Neg(b.QuoTrunc(x, b.Neg(y)))
	}
	q := func(y *Term) *Term {
		if x.Lo != nil && x.Lo.Sign() >= 0 {
			return b.Div(x, y)
		}
		if x.Hi != nil && x.Hi.Sign() <= 0 {
			return b.Neg(b.Div(b.Neg(x), y))
		}
		return b.Ite(b.Le(b.Int64(0), x), b.Div(x, y), b.Neg(b.Div(b.Neg(x), y)))
	}
	if ypos {
		return q(y)
	}
	return b.Ite(b.Lt(b.Int64(0), y), q(y), b.Neg(q(b.Neg(y))))
}
func (b *Bank) RemTrunc(x, y *Term) *Term { return b.Sub(x, b.Mul(y, b.QuoTrunc(x, y))) }

// ---- reals

func (b *Bank) ToReal(x *Term) *Term {
	if x.Sort == Real {
		return x
	}
	if x.IsConst() {
		return b.RatC(new(big.Rat).SetInt(x.C))
	}
	if x.Op == OpLin {
		acc := &rlinAcc{atoms: map[*Term]*big.Rat{}, c: new(big.Rat).SetInt(x.C)}
		for i, a := range x.Args {
			acc.add(b.ToReal(a), new(big.Rat).SetInt(x.Coef[i]))
		}
		return b.rlinDone(acc)
	}
	return b.mk(&Term{Op: OpToReal, Sort: Real, Args: []*Term{x}})
}

type rlinAcc struct {
	atoms map[*Term]*big.Rat
	c     *big.Rat
}

func (acc *rlinAcc) add(a *Term, k *big.Rat) {
	if o, ok := acc.atoms[a]; ok {
		acc.atoms[a] = new(big.Rat).Add(o, k)
	} else {
		acc.atoms[a] = k
	}
}
func (b *Bank) rlinAdd(acc *rlinAcc, t *Term, k *big.Rat) {
	switch t.Op {
	case OpConst:
		acc.c = new(big.Rat).Add(acc.c, new(big.Rat).Mul(t.R, k))
	case OpRLin:
		acc.c = new(big.Rat).Add(acc.c, new(big.Rat).Mul(t.R, k))
		for i, a := range t.Args {
			acc.add(a, new(big.Rat).Mul(t.RCoef[i], k))
		}
	default:
		acc.add(t, k)
	}
}
func (b *Bank) rlinDone(acc *rlinAcc) *Term {
	var ats []*Term
	for a, c := range acc.atoms {
		if c.Sign() != 0 {
			ats = append(ats, a)
		}
	}
	if len(ats) == 0 {
		return b.RatC(acc.c)
	}
	sort.Slice(ats, func(i, j int) bool { return ats[i].ID < ats[j].ID })
	if len(ats) == 1 && acc.c.Sign() == 0 && acc.atoms[ats[0]].Cmp(ratOne) == 0 {
		return ats[0]
	}
	cs := make([]*big.Rat, len(ats))
	for i, a := range ats {
		cs[i] = acc.atoms[a]
	}
	return b.mk(&Term{Op: OpRLin, Sort: Real, Args: ats, RCoef: cs, R: acc.c})
}
func (b *Bank) rlin2(x *Term, kx *big.Rat, y *Term, ky *big.Rat) *Term {
	acc := &rlinAcc{atoms: map[*Term]*big.Rat{}, c: ratZero}
	b.rlinAdd(acc, x, kx)
	b.rlinAdd(acc, y, ky)
	return b.rlinDone(acc)
}
func (b *Bank) RScale(x *Term, k *big.Rat) *Term {
	acc := &rlinAcc{atoms: map[*Term]*big.Rat{}, c: ratZero}
	b.rlinAdd(acc, b.ToReal(x), k)
	return b.rlinDone(acc)
}
func (b *Bank) RDiv(x, y *Term) *Term {
	x, y = b.ToReal(x), b.ToReal(y)
	if y.IsConst() && y.R.Sign() != 0 {
		return b.RScale(x, new(big.Rat).Inv(y.R))
	}
	return b.mk(&Term{Op: OpRDiv, Sort: Real, Args: []*Term{x, y}})
}
func (b *Bank) Floor(x *Term) *Term {
	if x.Sort == Int {
		return x
	}
	if x.IsConst() {
		return b.IntC(new(big.Int).Div(x.R.Num(), x.R.Denom()))
	}
	if x.Op == OpToReal {
		return x.Args[0]
	}
	if x.Op == OpRLin { // rational combination of integers -> integer division
		den := new(big.Int).Set(x.R.Denom())
		okk := true
		for i, a := range x.Args {
			if a.Op != OpToReal {
				okk = false
				break
			}
			den = lcm(den, x.RCoef[i].Denom())
		}
		if okk {
			den = lcm(den, x.R.Denom())
			acc := &linAcc{atoms: map[*Term]*big.Int{}, c: new(big.Int).Mul(x.R.Num(), new(big.Int).Quo(den, x.R.Denom()))}
			for i, a := range x.Args {
				acc.add(a.Args[0], new(big.Int).Mul(x.RCoef[i].Num(), new(big.Int).Quo(den, x.RCoef[i].Denom())))
			}
			return b.Div(b.linDone(acc), b.IntC(den))
		}
	}
	return b.mk(&Term{Op: OpFloor, Sort: Int, Args: []*Term{x}})
}
func lcm(x, y *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, x, y)
	return new(big.Int).Mul(x, new(big.Int).Quo(y, g))
}

// ---- comparisons

func (b *Bank) le0(d *Term) *Term {
	if d.Sort == Real {
		if d.IsConst() {
			return b.BoolC(d.R.Sign() <= 0)
		}
		return b.mk(&Term{Op: OpRLe0, Sort: Bool, Args: []*Term{d}})
	}
	if d.IsConst() {
		return b.BoolC(d.C.Sign() <= 0)
	}
	if d.Hi != nil && d.Hi.Sign() <= 0 {
		return b.True
	}
	if d.Lo != nil && d.Lo.Sign() > 0 {
		return b.False
	}
	if d.Op == OpLin && len(d.Args) == 1 && d.Args[0].Op == OpIte {
		it := d.Args[0]
		if it.Args[1].IsConst() || it.Args[2].IsConst() {
			k, c := d.Coef[0], b.IntC(d.C)
			return b.Ite(it.Args[0], b.le0(b.Add(b.Scale(it.Args[1], k), c)), b.le0(b.Add(b.Scale(it.Args[2], k), c)))
		}
	}
	if d.Op == OpIte {
		return b.Ite(d.Args[0], b.le0(d.Args[1]), b.le0(d.Args[2]))
	}
	// normalise by gcd of coefficients (tightening)
	if d.Op == OpLin {
		g := new(big.Int)
		for _, c := range d.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			acc := &linAcc{atoms: map[*Term]*big.Int{}}
			for i, a := range d.Args {
				acc.add(a, new(big.Int).Quo(d.Coef[i], g))
			}
			// g*s + C <= 0  <=> s <= floor(-C/g) <=> s - floor(-C/g) <= 0
			fl := new(big.Int).Div(new(big.Int).Neg(d.C), g)
			acc.c = fl.Neg(fl)
			d = b.linDone(acc)
		}
	}
	return b.mk(&Term{Op: OpLe0, Sort: Bool, Args: []*Term{d}})
}
func (b *Bank) Le(x, y *Term) *Term { return b.le0(b.Sub(x, y)) }
func (b *Bank) Lt(x, y *Term) *Term {
	d := b.Sub(x, y)
	if d.Sort == Real {
		if d.IsConst() {
			return b.BoolC(d.R.Sign() < 0)
		}
		return b.mk(&Term{Op: OpRLt0, Sort: Bool, Args: []*Term{d}})
	}
	return b.le0(b.Add(d, b.Int64(1)))
}
func (b *Bank) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.Sort == Bool {
		return b.Iff(x, y)
	}
	d := b.Sub(x, y)
	if d.Sort == Real {
		if d.IsConst() {
			return b.BoolC(d.R.Sign() == 0)
		}
		return b.mk(&Term{Op: OpREq0, Sort: Bool, Args: []*Term{d}})
	}
	return b.eq0(d)
}
func (b *Bank) eq0(d *Term) *Term {
	if d.IsConst() {
		return b.BoolC(d.C.Sign() == 0)
	}
	if d.Hi != nil && d.Hi.Sign() < 0 || d.Lo != nil && d.Lo.Sign() > 0 {
		return b.False
	}
	if d.Op == OpIte {
		return b.Ite(d.Args[0], b.eq0(d.Args[1]), b.eq0(d.Args[2]))
	}
	if d.Op == OpLin {
		if len(d.Args) == 1 && d.Args[0].Op == OpIte {
			it := d.Args[0]
			if it.Args[1].IsConst() || it.Args[2].IsConst() {
				k, c := d.Coef[0], b.IntC(d.C)
				return b.Ite(it.Args[0], b.eq0(b.Add(b.Scale(it.Args[1], k), c)), b.eq0(b.Add(b.Scale(it.Args[2], k), c)))
			}
		}
		g := new(big.Int)
		for _, c := range d.Coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if d.Coef[0].Sign() < 0 {
			g.Neg(g)
		}
		if g.Cmp(bigOne) != 0 {
			m := new(big.Int)
			q, _ := new(big.Int).DivMod(d.C, g, m)
			if m.Sign() != 0 {
				return b.False
			}
			acc := &linAcc{atoms: map[*Term]*big.Int{}, c: q}
			for i, a := range d.Args {
				acc.add(a, new(big.Int).Quo(d.Coef[i], g))
			}
			d = b.linDone(acc)
		}
	}
	return b.mk(&Term{Op: OpEq0, Sort: Bool, Args: []*Term{d}})
}

// ---- booleans

func (b *Bank) Not(x *Term) *Term {
	if x.neg != nil {
		return x.neg
	}
	var r *Term
	switch x.Op {
	case OpConst:
		r = b.BoolC(!x.B)
	case OpNot:
		r = x.Args[0]
	case OpLe0: // d<=0 -> d>=1 -> 1-d<=0
		r = b.le0(b.Sub(b.Int64(1), x.Args[0]))
	case OpRLe0: // d<=0 -> -d<0
		r = b.mk(&Term{Op: OpRLt0, Sort: Bool, Args: []*Term{b.RScale(x.Args[0], big.NewRat(-1, 1))}})
	case OpRLt0:
		r = b.mk(&Term{Op: OpRLe0, Sort: Bool, Args: []*Term{b.RScale(x.Args[0], big.NewRat(-1, 1))}})
	case OpAnd:
		as := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			as[i] = b.Not(a)
		}
		r = b.Or(as...)
	case OpOr:
		as := make([]*Term, len(x.Args))
		for i, a := range x.Args {
			as[i] = b.Not(a)
		}
		r = b.And(as...)
	case OpIte:
		r = b.Ite(x.Args[0], b.Not(x.Args[1]), b.Not(x.Args[2]))
	default:
		r = b.mk(&Term{Op: OpNot, Sort: Bool, Args: []*Term{x}})
	}
	x.neg = r
	if r.neg == nil {
		r.neg = x
	}
	return r
}
func (b *Bank) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.Op == op {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if x.neg != nil && seen[x.neg] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return b.mk(&Term{Op: op, Sort: Bool, Args: out})
}
func (b *Bank) And(xs ...*Term) *Term     { return b.nary(OpAnd, b.True, b.False, xs) }
func (b *Bank) Or(xs ...*Term) *Term      { return b.nary(OpOr, b.False, b.True, xs) }
func (b *Bank) Implies(x, y *Term) *Term  { return b.Or(b.Not(x), y) }
func (b *Bank) Iff(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.IsConst() {
		if x.B {
			return y
		}
		return b.Not(y)
	}
	if y.IsConst() {
		return b.Iff(y, x)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OpIff, Sort: Bool, Args: []*Term{x, y}})
}
func (b *Bank) Ite(c, x, y *Term) *Term {
	if c.IsConst() {
		if c.B {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.Sort == Bool {
		if x.IsTrue() {
			return b.Or(c, y)
		}
		if x.IsFalse() {
			return b.And(b.Not(c), y)
		}
		if y.IsTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.IsFalse() {
			return b.And(c, x)
		}
	}
	if x.Sort != y.Sort {
		x, y = b.ToReal(x), b.ToReal(y)
	}
	if c.Op == OpNot {
		return b.Ite(c.Args[0], y, x)
	}
	return b.mk(&Term{Op: OpIte, Sort: x.Sort, Args: []*Term{c, x, y}})
}

// ---- printing

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}
func ratLit(v *big.Rat) string {
	n := v.Num()
	s := new(big.Int).Abs(n).String() + ".0"
	if v.Denom().Cmp(bigOne) != 0 {
		s = "(/ " + s + " " + v.Denom().String() + ".0)"
	}
	if n.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

func (t *Term) ref() string {
	switch t.Op {
	case OpConst:
		switch t.Sort {
		case Bool:
			if t.B {
				return "true"
			}
			return "false"
		case Int:
			return intLit(t.C)
		default:
			return ratLit(t.R)
		}
	case OpVar:
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t!%d", t.ID)
}

func (t *Term) body() string {
	var sb strings.Builder
	app := func(op string) string {
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(a.ref())
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.Op {
	case OpConst, OpVar:
		return t.ref()
	case OpLin, OpRLin:
		sb.WriteString("(+")
		for i, a := range t.Args {
			if t.Op == OpLin {
				if t.Coef[i].Cmp(bigOne) == 0 {
					sb.WriteString(" " + a.ref())
				} else {
					sb.WriteString(" (* " + intLit(t.Coef[i]) + " " + a.ref() + ")")
				}
			} else {
				sb.WriteString(" (* " + ratLit(t.RCoef[i]) + " " + a.ref() + ")")
			}
		}
		if t.Op == OpLin {
			sb.WriteString(" " + intLit(t.C) + ")")
		} else {
			sb.WriteString(" " + ratLit(t.R) + ")")
		}
		return sb.String()
	case OpMul:
		return app("*")
	case OpDiv:
		return app("div")
	case OpMod:
		return app("mod")
	case OpRDiv:
		return app("/")
	case OpIte:
		return app("ite")
	case OpLe0:
		return "(<= " + t.Args[0].ref() + " 0)"
	case OpEq0:
		return "(= " + t.Args[0].ref() + " 0)"
	case OpRLe0:
		return "(<= " + t.Args[0].ref() + " 0.0)"
	case OpRLt0:
		return "(< " + t.Args[0].ref() + " 0.0)"
	case OpREq0:
		return "(= " + t.Args[0].ref() + " 0.0)"
	case OpAnd:
		return app("and")
	case OpOr:
		return app("or")
	case OpNot:
		return app("not")
	case OpIff:
		return app("=")
	case OpToReal:
		return app("to_real")
	case OpFloor:
		return app("to_int")
	case OpUF:
		if len(t.Args) == 0 {
			return "|" + t.Name + "|"
		}
		return app("|" + t.Name + "|")
	}
	panic("bad op")
}

// String renders a term as a (possibly large) tree, for diagnostics.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	if t.Op == OpConst || t.Op == OpVar {
		return t.ref()
	}
	s := t.body()
	for _, a := range t.Args {
		if a.Op != OpConst && a.Op != OpVar {
			s = strings.ReplaceAll(s, a.ref()+" ", a.str(d-1)+" ")
			s = strings.ReplaceAll(s, a.ref()+")", a.str(d-1)+")")
		}
	}
	return s
}

// RawLe0 builds d <= 0 without folding by bounds (used to state the bounds themselves).
func (b *Bank) RawLe0(d *Term) *Term {
	if d.IsConst() {
		return b.BoolC(d.C.Sign() <= 0)
	}
	return b.mk(&Term{Op: OpLe0, Sort: Bool, Args: []*Term{d}, Name: "raw"})
}

// AsDecimal recognises a real term equal to m/10^k with m an integer term and k <= 18.
func (b *Bank) AsDecimal(t *Term) (m *Term, k int, ok bool) {
	switch t.Op {
	case OpToReal:
		return t.Args[0], 0, true
	case OpRLin:
	default:
		return nil, 0, false
	}
	ten := big.NewInt(10)
	p := big.NewInt(1)
	for k = 0; k <= 18; k++ {
		pr := new(big.Rat).SetInt(p)
		all := new(big.Rat).Mul(t.R, pr).IsInt()
		for i := range t.Args {
			if t.Args[i].Op != OpToReal {
				return nil, 0, false
			}
			all = all && new(big.Rat).Mul(t.RCoef[i], pr).IsInt()
		}
		if all {
			m = b.IntC(new(big.Rat).Mul(t.R, pr).Num())
			for i := range t.Args {
				m = b.Add(m, b.Scale(t.Args[i].Args[0], new(big.Rat).Mul(t.RCoef[i], pr).Num()))
			}
			return m, k, true
		}
		p = new(big.Int).Mul(p, ten)
	}
	return nil, 0, false
}

// DivExact divides a linear term by k when every coefficient is a multiple of k.
func (b *Bank) DivExact(x *Term, k *big.Int) (*Term, bool) {
	if x.C == nil {
		return nil, false
	}
	q, r, ok := b.splitMul(x, k)
	if !ok || !r.IsConst() || r.C.Sign() != 0 {
		return nil, false
	}
	return q, true
}
