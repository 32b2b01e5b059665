// Package interp: symbolic interpreter for go/ssa programs.
package interp

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// Value is one of:
//
//	bool | *sym.Term(Bool)                          booleans
//	int64 (bit pattern) | *sym.Term(Int)             all integer kinds
//	float64 | *SymFloat                              floats
//	complex128
//	string | *SymStr                                 strings
//	Ptr                                              pointers (nil: Ptr(nil))
//	Struct, Array, Slice, *Map, *Chan, Iface, Tuple
//	*ssa.Function | *Closure | *ssa.Builtin | *NativeFunc
//	*sym.Term(Int)                                   struct value of math/big.Int
//	*Native                                          opaque native objects
type Value = any

type Ptr = *Value

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type NativeFunc struct {
	Name string
	F    func(fr *frame, args []Value) Value
}

// Native wraps an opaque engine-side object (for example a *regexp.Regexp).
type Native struct {
	Kind string
	V    any
}

// SymFloat is a symbolic float64. If Exact, the float is the one nearest to M/10^K with |M| <= 10^15.
// Otherwise Real is a real-valued term standing for the float's value.
type SymFloat struct {
	M     *sym.Term
	K     int
	Exact bool
	Real  *sym.Term
	Src   *sym.Term // the float is the one nearest to Src/10^SrcK (inexact floats only)
	SrcK  int
}

// SymStr is a string (or, as []byte contents, a byte sequence) with symbolic parts.
type SymStr struct {
	E []Value // int64 byte | *sym.Term byte | *Atom
}

// Atom is a run of bytes of unknown content.
type Atom struct {
	Kind string    // "dec": decimal rendering of T; "fdec": shortest decimal rendering of M/10^K; "opq": injective function
	T    *sym.Term // dec, fdec
	K    int
	Name string  // opq: function name
	Args []Value // opq: arguments
	Len  int     // known length, or -1
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents  []*mapEntry
	idx   map[any]*mapEntry // concrete keys
	nsym  int               // number of live entries with symbolic keys
	n     int
	old   bool // created during package initialisation: changes are undone at the end of a path
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	timer  bool
	epoch  int64
}

// intInfo describes an integer type.
func intInfo(t types.Type) (bits uint, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func wrapInt(x int64, bits uint, signed bool) int64 {
	if bits == 64 {
		return x
	}
	sh := 64 - bits
	if signed {
		return x << sh >> sh
	}
	return int64(uint64(x) << sh >> sh)
}

var pow2 [130]*big.Int

func init() {
	for i := range pow2 {
		pow2[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
	}
}

func intRange(bits uint, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2[bits-1]), new(big.Int).Sub(pow2[bits-1], pow2[0])
	}
	return new(big.Int), new(big.Int).Sub(pow2[bits], pow2[0])
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isBigInt(types.Unalias(a))
		}
		return false
	}
	o := n.Obj()
	return o.Name() == "Int" && o.Pkg() != nil && o.Pkg().Path() == "math/big"
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		if isBigInt(u) {
			return w.zeroBig
		}
		if u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == "reflect" && u.Obj().Name() == "Value" {
			return &RValue{}
		}
		return w.zero(u.Underlying())
	case *types.Alias:
		return w.zero(types.Unalias(u))
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		panic("zero basic " + u.String())
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := w.zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return w.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero %T", t))
}

// copyVal copies aggregates so that loads and stores have value semantics.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

func isNil(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case Ptr:
		return v == nil
	case Slice:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case Iface:
		return v.T == nil
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	}
	return false
}

// ---- maps

// hkey gives a canonical comparable key for concrete values; ok is false when v has symbolic parts.
func (w *Worker) hkey(v Value) (any, bool) {
	switch v := v.(type) {
	case int64, bool, string, float64, Ptr, *Chan, *Native:
		return v, true
	case Iface:
		if v.T == nil {
			return Iface{}, true
		}
		k, ok := w.hkey(v.V)
		if !ok {
			return nil, false
		}
		return [2]any{w.typeKey(v.T), k}, true
	case Struct:
		var sb strings.Builder
		for _, f := range v {
			k, ok := w.hkey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return sb.String(), true
	case Array:
		return w.hkey(Struct(v))
	case *sym.Term:
		if v.IsConst() {
			switch v.Sort {
			case sym.Bool:
				return v.B, true
			case sym.Int:
				return "bigconst:" + v.C.String(), true
			}
		}
		return nil, false
	case *SymStr, *SymFloat:
		return nil, false
	}
	w.unsupported("map key %T", v)
	return nil, false
}

func (w *Worker) typeKey(t types.Type) string {
	if s, ok := w.tkeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	w.tkeys[t] = s
	return s
}

func (w *Worker) newMap() *Map {
	return &Map{idx: map[any]*mapEntry{}, old: w.initDepth > 0}
}

// mapFind locates the entry equal to k, forking on symbolic equalities.
func (w *Worker) mapFind(m *Map, k Value, kt types.Type) *mapEntry {
	if m == nil || m.n == 0 {
		return nil
	}
	hk, ok := w.hkey(k)
	if ok {
		if e, ok := m.idx[hk]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, conc := w.hkey(e.k); conc {
				continue
			}
		}
		if w.truth(w.equals(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v Value, kt types.Type) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k, kt); e != nil {
		if m.old && w.initDepth == 0 {
			o := e.v
			w.undoFn(func() { e.v = o })
		}
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	hk, ok := w.hkey(k)
	if ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
	if m.old && w.initDepth == 0 {
		w.undoFn(func() { m.remove(w, e) })
	}
}

func (m *Map) remove(w *Worker, e *mapEntry) {
	if e.dead {
		return
	}
	e.dead = true
	m.n--
	hk, ok := w.hkey(e.k)
	if ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEntry{}, m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

func (w *Worker) mapDelete(m *Map, k Value, kt types.Type) {
	e := w.mapFind(m, k, kt)
	if e == nil {
		return
	}
	m.remove(w, e)
	if m.old && w.initDepth == 0 {
		w.undoFn(func() {
			ne := e
			ne.dead = false
			m.ents = append(m.ents, ne)
			m.n++
			if hk, ok := w.hkey(e.k); ok {
				m.idx[hk] = ne
			} else {
				m.nsym++
			}
		})
	}
}

// ---- strings

func normStr(e []Value) Value {
	for _, x := range e {
		if _, ok := x.(int64); !ok {
			return &SymStr{E: e}
		}
	}
	b := make([]byte, len(e))
	for i, x := range e {
		b[i] = byte(x.(int64))
	}
	return string(b)
}

func strElems(v Value) []Value {
	switch v := v.(type) {
	case string:
		e := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			e[i] = int64(v[i])
		}
		return e
	case *SymStr:
		return v.E
	case *Native:
		return []Value{v}
	}
	panic(fmt.Sprintf("strElems %T", v))
}

func (s *SymStr) hasAtom() bool {
	for _, x := range s.E {
		if _, ok := x.(*Atom); ok {
			return true
		}
	}
	return false
}

func (s *SymStr) String() string {
	var sb strings.Builder
	for _, x := range s.E {
		switch x := x.(type) {
		case int64:
			sb.WriteByte(byte(x))
		case *sym.Term:
			sb.WriteString("‹" + x.String() + "›")
		case *Atom:
			fmt.Fprintf(&sb, "‹%s %s %v›", x.Kind, x.Name, x.T)
		}
	}
	return sb.String()
}

func concatStr(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
	}
	ex, ey := strElems(x), strElems(y)
	e := make([]Value, 0, len(ex)+len(ey))
	e = append(append(e, ex...), ey...)
	return normStr(e)
}

// sortedKeys is used where a deterministic order of a Go map is needed.
func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
