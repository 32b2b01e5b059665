package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// abort ends the execution of a path.
type abort struct {
	kind string // infeasible, unsupported, limit, panic, deadlock, kill, done
	msg  string
	pos  string
}

func (a *abort) Error() string { return a.kind + ": " + a.msg + " @ " + a.pos }

// goPanic is a Go panic of the interpreted program.
type goPanic struct {
	v     Value // Iface
	where string
}

// Input is one nondeterministic input drawn by the harness.
type Input struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Value string `json:"value"`
	terms []*sym.Term
	aux   int
	conc  string
}

type Observation struct {
	Label string `json:"label"`
	Value string `json:"value"`
	v     Value
}

type Violation struct {
	Label  string
	Where  string
	Inputs []Input
	Stack  []string
	Obs    []Observation
	Prefix []int32
	MapND  bool
}

type Worker struct {
	eng     *Engine
	id      int
	bank    *sym.Bank
	solver  *sym.Solver
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	initDepth int
	code    map[*ssa.Function]*cfn
	consts  map[*ssa.Const]Value
	tkeys   map[types.Type]string
	implC   map[[2]types.Type]bool
	methC   map[methKey]*ssa.Function
	zeroBig *sym.Term
	strInit map[string]int

	// path state
	pc       []*sym.Term
	pcset    map[*sym.Term]bool
	prefix   []int32
	pos      int
	decs     []int32
	epoch    int64
	undo     []undoEnt
	undoFns  []func()
	steps    int64
	nextCheck int64
	inputs   []*Input
	names    map[string]int
	obs      []Observation
	reached  map[string]bool
	viols    []*Violation
	asserts  int
	nfresh   int
	uuidN    int
	cur      *goroutine
	gs       []*goroutine
	nextG    int
	pathErr  *abort
	killing  bool
	clock    int64 // virtual ns
	timers   []*vtimer
	mutexes  map[Ptr]*mutexState
	wgs      map[Ptr]int64
	onces    map[Ptr]bool
	side     map[any]any
	schedND  bool
	schedBudget int
	mapND    bool
	mapUsed  bool
	model    map[*sym.Term]any
	memo     map[*sym.Term]any
	modelOK  bool
	nowFn    *ssa.Function
	inconcl  []string
	lastPos  token.Pos
	curFr    *frame
	allowDL  bool
	callDepth int
	rtypes   map[any]Ptr
	jfields  map[*types.Struct][]jsonField
}

type undoEnt struct {
	p Ptr
	v Value
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) undoFn(f func()) { w.undoFns = append(w.undoFns, f); w.undo = append(w.undo, undoEnt{nil, f}) }

func (w *Worker) store(p Ptr, v Value) {
	if p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.initDepth == 0 {
		w.undo = append(w.undo, undoEnt{p, *p})
	}
	*p = v
}

func (w *Worker) rollback() {
	w.epoch++
	for i := len(w.undo) - 1; i >= 0; i-- {
		e := &w.undo[i]
		if e.p == nil {
			e.v.(func())()
		} else {
			*e.p = e.v
		}
		e.v = nil
	}
	w.undo = w.undo[:0]
	w.undoFns = w.undoFns[:0]
}

func (w *Worker) where() string {
	fr := w.curFr
	var s []string
	for i := 0; fr != nil && i < 14; i++ {
		p := w.eng.Fset.Position(fr.pos())
		f := p.Filename
		if j := strings.LastIndex(f, "/"); j >= 0 {
			f = f[j+1:]
		}
		s = append(s, fmt.Sprintf("%s(%s:%d)", fr.fn.fn.Name(), f, p.Line))
		fr = fr.caller
	}
	return strings.Join(s, " < ")
}

func (w *Worker) stack() []string {
	fr := w.curFr
	var s []string
	for i := 0; fr != nil && i < 60; i++ {
		p := w.eng.Fset.Position(fr.pos())
		s = append(s, fmt.Sprintf("%s %s:%d", fr.fn.fn.String(), p.Filename, p.Line))
		fr = fr.caller
	}
	return s
}

func (w *Worker) unsupported(f string, a ...any) {
	panic(&abort{kind: "unsupported", msg: fmt.Sprintf(f, a...), pos: w.where()})
}

func (w *Worker) rtPanic(msg string) {
	panic(&goPanic{v: Iface{T: w.eng.rtErr, V: msg}, where: w.where()})
}

func (w *Worker) goPanicf(f string, a ...any) {
	panic(&goPanic{v: Iface{T: types.Typ[types.String], V: fmt.Sprintf(f, a...)}, where: w.where()})
}

// ---- path condition

func (w *Worker) addPC(c *sym.Term) {
	if c.IsTrue() {
		return
	}
	if c.Op == sym.OpAnd {
		for _, a := range c.Args {
			w.addPC(a)
		}
		return
	}
	if w.pcset[c] {
		return
	}
	w.pc = append(w.pc, c)
	w.pcset[c] = true
	if w.modelOK {
		if v, ok := sym.Eval(c, w.model, w.memo).(bool); !ok || !v {
			w.modelOK = false
		}
	}
}

// check decides pc ∧ c, using the last model as a shortcut for satisfiable answers.
func (w *Worker) check(c *sym.Term) sym.Result {
	if c.IsFalse() {
		return sym.Unsat
	}
	if w.modelOK {
		if v, ok := sym.Eval(c, w.model, w.memo).(bool); ok && v {
			return sym.Sat
		}
	}
	r := w.solver.Check(w.pc, c)
	if r == sym.Sat && !w.modelOK {
		w.fetchModel()
		// the model satisfies pc ∧ c, hence pc
	}
	if r == sym.Unknown {
		w.note("solver answered unknown at " + w.where())
	}
	return r
}

func (w *Worker) allVars() []*sym.Term {
	var vs []*sym.Term
	for _, in := range w.inputs {
		vs = append(vs, in.terms...)
	}
	for _, t := range w.extraVars() {
		vs = append(vs, t)
	}
	return vs
}

func (w *Worker) extraVars() []*sym.Term {
	v, _ := w.side["extravars"].([]*sym.Term)
	return v
}

func (w *Worker) fetchModel() {
	m, err := w.solver.Model(w.allVars())
	if err != nil {
		w.modelOK = false
		return
	}
	w.model, w.memo, w.modelOK = m, map[*sym.Term]any{}, true
	// uninterpreted functions are not evaluated: distrust models when any is present
	if len(w.bank.UFs) > 0 {
		w.modelOK = false
	}
}

func (w *Worker) note(s string) {
	if len(w.inconcl) < 50 {
		w.inconcl = append(w.inconcl, s)
	}
}

// decision digits: branch: 0 true,1 false (free); 2 true,3 false (forced). choose: the chosen index.
func (w *Worker) branch(c *sym.Term) bool {
	if c.IsConst() {
		return c.B
	}
	if w.pcset[c] {
		return true
	}
	nc := w.bank.Not(c)
	if w.pcset[nc] {
		return false
	}
	if w.initDepth > 0 {
		w.unsupported("symbolic branch during package initialisation")
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		switch d {
		case 0, 2:
			w.addPC(c)
			return true
		case 1, 3:
			w.addPC(nc)
			return false
		}
		panic(&abort{kind: "unsupported", msg: "nondeterministic replay", pos: w.where()})
	}
	w.pos++
	rt := w.check(c)
	if rt == sym.Unsat {
		w.decs = append(w.decs, 3)
		w.addPC(nc)
		return false
	}
	rf := w.check(nc)
	if rf == sym.Unsat {
		w.decs = append(w.decs, 2)
		w.addPC(c)
		return true
	}
	w.eng.noteFork(w)
	w.pushAlt(1)
	w.decs = append(w.decs, 0)
	w.addPC(c)
	return true
}

func (w *Worker) pushAlt(d int32) {
	p := make([]int32, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	w.eng.ex.push(p)
}

// choose picks one of n alternatives, exploring all of them.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		return int(d)
	}
	w.pos++
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(int32(i))
	}
	w.decs = append(w.decs, 0)
	return 0
}

// truth converts a boolean value to a Go bool, forking if symbolic.
func (w *Worker) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *sym.Term:
		return w.branch(v)
	}
	w.unsupported("truth of %T", v)
	return false
}

func (w *Worker) boolTerm(v Value) *sym.Term {
	switch v := v.(type) {
	case bool:
		return w.bank.BoolC(v)
	case *sym.Term:
		return v
	}
	w.unsupported("boolTerm %T", v)
	return nil
}

func (w *Worker) fromBool(t *sym.Term) Value {
	if t.IsConst() {
		return t.B
	}
	return t
}

func (w *Worker) assume(c *sym.Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(&abort{kind: "infeasible"})
	}
	if w.pcset[c] {
		return
	}
	if w.pos < len(w.prefix) { // replay: feasibility was established before
		w.addPC(c)
		return
	}
	if w.check(c) == sym.Unsat {
		panic(&abort{kind: "infeasible"})
	}
	w.addPC(c)
}

// assert checks a property; replayed prefixes do not re-check.
func (w *Worker) assert(c *sym.Term, label string) {
	w.asserts++
	w.reached["assert:"+label] = true
	if c.IsTrue() {
		w.eng.countAssert(label, true)
		return
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
		return
	}
	nc := w.bank.Not(c)
	w.eng.countAssert(label, false)
	if w.pcset[c] {
		return
	}
	wasOK := w.modelOK
	_ = wasOK
	r := w.check(nc)
	switch r {
	case sym.Unsat:
		w.addPC(c)
		return
	case sym.Unknown:
		w.eng.noteUnknownAssert(w, label)
		w.addPC(c)
		return
	}
	w.violation(label, nc)
	// continue on the part of the path where the property holds
	if c.IsFalse() {
		panic(&abort{kind: "done", msg: "assertion always false"})
	}
	w.modelOK = false
	if w.check(c) == sym.Unsat {
		panic(&abort{kind: "done"})
	}
	w.addPC(c)
}

// violation records a counterexample for the current path condition plus extra.
func (w *Worker) violation(label string, extra *sym.Term) {
	v := &Violation{MapND: w.mapUsed, Label: label, Where: w.where(), Stack: w.stack(), Prefix: append([]int32{}, w.decs...)}
	pc := append([]*sym.Term{}, w.pc...)
	if extra != nil {
		pc = append(pc, extra)
	}
	m := w.niceModel(pc)
	if m == nil {
		w.note("no model for violation " + label)
		return
	}
	v.Inputs = w.concretize(m)
	memo := map[*sym.Term]any{}
	for _, o := range w.obs {
		v.Obs = append(v.Obs, Observation{Label: o.Label, Value: w.render(o.v, m, memo)})
	}
	w.viols = append(w.viols, v)
	w.eng.ex.foundViolation(w, v)
}

// niceModel asks for a model, preferring small absolute values.
func (w *Worker) niceModel(pc []*sym.Term) map[*sym.Term]any {
	if w.solver.Check(pc) != sym.Sat {
		return nil
	}
	vars := w.allVars()
	m, err := w.solver.Model(vars)
	if err != nil {
		return nil
	}
	return m
}

func (w *Worker) concretize(m map[*sym.Term]any) []Input {
	memo := map[*sym.Term]any{}
	var r []Input
	for _, in := range w.inputs {
		c := Input{Name: in.Name, Kind: in.Kind, Value: in.conc}
		if in.terms != nil {
			switch in.Kind {
			case "bytes":
				b := make([]byte, len(in.terms))
				for i, t := range in.terms {
					b[i] = byte(sym.Eval(t, m, memo).(*big.Int).Int64())
				}
				c.Value = fmt.Sprintf("%x", b)
			case "decimal":
				c.Value = sym.Eval(in.terms[0], m, memo).(*big.Int).String() + "/" + fmt.Sprint(in.aux)
			default:
				switch x := sym.Eval(in.terms[0], m, memo).(type) {
				case *big.Int:
					c.Value = x.String()
				case bool:
					c.Value = fmt.Sprint(x)
				case *big.Rat:
					c.Value = x.RatString()
				}
			}
		}
		r = append(r, c)
	}
	return r
}

// render prints an observed value under a model.
func (w *Worker) render(v Value, m map[*sym.Term]any, memo map[*sym.Term]any) string {
	switch v := v.(type) {
	case Iface:
		if v.T == nil {
			return "<nil>"
		}
		if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			if i, ok := v.V.(int64); ok {
				return fmt.Sprint(uint64(i))
			}
		}
		return w.render(v.V, m, memo)
	case *sym.Term:
		switch x := sym.Eval(v, m, memo).(type) {
		case *big.Int:
			return x.String()
		case bool:
			return fmt.Sprint(x)
		case *big.Rat:
			return x.RatString()
		}
	case *SymStr:
		var sb strings.Builder
		for _, e := range v.E {
			switch e := e.(type) {
			case int64:
				sb.WriteByte(byte(e))
			case *sym.Term:
				sb.WriteByte(byte(sym.Eval(e, m, memo).(*big.Int).Int64()))
			case *Atom:
				switch e.Kind {
				case "dec":
					sb.WriteString(sym.Eval(e.T, m, memo).(*big.Int).String())
				default:
					sb.WriteString("?" + e.Kind)
				}
			}
		}
		return sb.String()
	case Ptr:
		if v == nil {
			return "<nil>"
		}
		return w.render(*v, m, memo)
	case int64, bool, string, float64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%T", v)
}

// ---- fresh symbols

func (w *Worker) fresh(prefix string, s sym.Sort, lo, hi *big.Int) *sym.Term {
	w.nfresh++
	t := w.bank.Var(fmt.Sprintf("%s!%d", prefix, w.nfresh), s, lo, hi)
	w.side["extravars"] = append(w.extraVars(), t)
	w.boundVar(t)
	return t
}

func (w *Worker) boundVar(t *sym.Term) {
	w.modelOK = false
	if t.Lo != nil {
		w.rawPC(w.rawLe(t.Lo, t))
	}
	if t.Hi != nil {
		w.rawPC(w.rawGe(t.Hi, t))
	}
}

func (w *Worker) rawPC(c *sym.Term) { w.pc = append(w.pc, c) }

// bounds of variables must reach the solver even though the simplifier folds them to true
func (w *Worker) rawLe(lo *big.Int, t *sym.Term) *sym.Term {
	return w.bank.RawLe0(w.bank.Sub(w.bank.IntC(lo), t))
}
func (w *Worker) rawGe(hi *big.Int, t *sym.Term) *sym.Term {
	return w.bank.RawLe0(w.bank.Sub(t, w.bank.IntC(hi)))
}

func (w *Worker) uniq(name string) string {
	n := w.names[name]
	w.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// ---- terms from values

func (w *Worker) intTerm(v Value, t types.Type) *sym.Term {
	switch v := v.(type) {
	case int64:
		if _, signed, ok := intInfo(t); ok && !signed && v < 0 {
			return w.bank.IntC(new(big.Int).SetUint64(uint64(v)))
		}
		return w.bank.Int64(v)
	case *sym.Term:
		return v
	}
	w.unsupported("intTerm %T", v)
	return nil
}

// intVal folds a term in the range of type t back to a concrete value.
func (w *Worker) intVal(t *sym.Term) Value {
	if t.IsConst() {
		if t.C.IsInt64() {
			return t.C.Int64()
		}
		return int64(t.C.Uint64())
	}
	return t
}

// wrapTerm reduces a mathematical integer to the range of a machine type.
func (w *Worker) wrapTerm(t *sym.Term, bits uint, signed bool) *sym.Term {
	lo, hi := intRange(bits, signed)
	if t.Lo != nil && t.Hi != nil && t.Lo.Cmp(lo) >= 0 && t.Hi.Cmp(hi) <= 0 {
		return t
	}
	b := w.bank
	m := b.IntC(pow2[bits])
	if signed {
		off := b.IntC(pow2[bits-1])
		return b.Sub(b.Mod(b.Add(t, off), m), off)
	}
	return b.Mod(t, m)
}

// concInt demands a concrete integer; symbolic ones are enumerated by forking when their range is small.
func (w *Worker) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *sym.Term:
		if v.IsConst() {
			return v.C.Int64()
		}
		if v.Lo != nil && v.Hi != nil {
			d := new(big.Int).Sub(v.Hi, v.Lo)
			if d.IsInt64() && d.Int64() <= 64 {
				lo := v.Lo.Int64()
				for k := lo; k < v.Hi.Int64(); k++ {
					if w.branch(w.bank.Eq(v, w.bank.Int64(k))) {
						return k
					}
				}
				w.assume(w.bank.Eq(v, w.bank.IntC(v.Hi)))
				return v.Hi.Int64()
			}
		}
		// enumerate through models up to a limit
		for n := 0; n < 40; n++ {
			if w.pos < len(w.prefix) {
				// replay: the digit carries the candidate through the side list
				break
			}
			break
		}
		w.unsupported("symbolic integer where a concrete one is needed: %s", v)
	}
	w.unsupported("concInt %T", v)
	return 0
}

// concStr demands a concrete string.
func (w *Worker) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		w.unsupported("symbolic string where a concrete one is needed: %s", v)
	}
	w.unsupported("concStr %T", v)
	return ""
}

// ---- running a path

func (w *Worker) resetPath(prefix []int32) {
	w.pc = w.pc[:0]
	w.pcset = map[*sym.Term]bool{}
	w.prefix = prefix
	w.pos = 0
	w.decs = w.decs[:0]
	w.steps = 0
	w.nextCheck = 20000
	w.inputs = nil
	w.names = map[string]int{}
	w.obs = nil
	w.reached = map[string]bool{}
	w.viols = nil
	w.asserts = 0
	w.nfresh = 0
	w.uuidN = 0
	w.gs = nil
	w.nextG = 0
	w.pathErr = nil
	w.killing = false
	w.clock = 0
	w.timers = nil
	w.mutexes = map[Ptr]*mutexState{}
	w.wgs = map[Ptr]int64{}
	w.onces = map[Ptr]bool{}
	w.side = map[any]any{}
	w.schedND = false
	w.schedBudget = 0
	w.mapND, w.mapUsed = false, false
	w.modelOK = false
	w.nowFn = nil
	w.inconcl = nil
	w.curFr = nil
	w.allowDL = false
	w.callDepth = 0
}

type PathResult struct {
	Kind    string
	Msg     string
	Steps   int64
	Decs    int
	Inconcl []string
	Reached map[string]bool
	Sample  *Sample
	Asserts int
}

type Sample struct {
	Inputs []Input       `json:"inputs"`
	Obs    []Observation `json:"obs"`
}

// RunPath executes the harness along the decision prefix to the end of one path.
func (w *Worker) RunPath(h *ssa.Function, prefix []int32, wantSample bool) (res *PathResult) {
	w.resetPath(prefix)
	res = &PathResult{Kind: "ok"}
	main := w.newG("main")
	w.cur = main
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case *abort:
				res.Kind, res.Msg = r.kind, r.msg+" @ "+r.pos
			case *goPanic:
				res.Kind, res.Msg = "panic", w.panicString(r)
				w.onPanic(r)
			default:
				if os.Getenv("VERIF_ENGINE_PANIC") != "" {
					panic(r)
				}
				res.Kind, res.Msg = "unsupported", fmt.Sprintf("engine: %v @ %s", r, w.where())
			}
		}()
		w.call(nil, h, nil)
	}()
	w.killAll()
	if (res.Kind == "ok" || res.Kind == "done") && wantSample && len(w.viols) == 0 {
		if m := w.niceModel(w.pc); m != nil {
			s := &Sample{Inputs: w.concretize(m)}
			memo := map[*sym.Term]any{}
			for _, o := range w.obs {
				s.Obs = append(s.Obs, Observation{Label: o.Label, Value: w.render(o.v, m, memo)})
			}
			res.Sample = s
		}
	}
	res.Steps, res.Decs, res.Inconcl, res.Reached, res.Asserts = w.steps, len(w.decs), w.inconcl, w.reached, w.asserts
	w.rollback()
	return res
}

func (w *Worker) panicString(p *goPanic) string {
	s := "panic"
	func() {
		defer func() { recover() }()
		s = fmt.Sprint(w.toStringSafe(p.v))
	}()
	return s + " @ " + p.where
}

// onPanic reports an uncaught panic of the code under test as a violation (confirmed by native replay).
func (w *Worker) onPanic(p *goPanic) {
	defer func() { recover() }()
	w.violationAt("uncaught panic: "+w.panicString(p), p.where)
}

func (w *Worker) violationAt(label, where string) {
	v := &Violation{MapND: w.mapUsed, Label: label, Where: where, Prefix: append([]int32{}, w.decs...)}
	m := w.niceModel(w.pc)
	if m == nil {
		return
	}
	v.Inputs = w.concretize(m)
	w.viols = append(w.viols, v)
	w.eng.ex.foundViolation(w, v)
}

var _ = time.Now
