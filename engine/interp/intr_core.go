package interp

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

// fast gives native evaluation of pure string functions when all arguments are concrete.
var fast = map[string]func(a []Value) (Value, bool){}

func formatFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func b2(x Value) bool { v, _ := x.(bool); return v }

func (w *Worker) mkError(msg string) Value {
	t := w.eng.errString()
	var s Value = Struct{msg}
	return Iface{T: types.NewPointer(t), V: Ptr(&s)}
}

func (w *Worker) mkErrorV(msg Value) Value {
	t := w.eng.errString()
	var s Value = Struct{msg}
	return Iface{T: w.eng.ptrTo(t), V: Ptr(&s)}
}

func (e *Engine) errString() types.Type { return e.Pkgs["errors"].Type("errorString").Type() }

var ptrCache = map[types.Type]types.Type{}

func (e *Engine) ptrTo(t types.Type) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if p, ok := ptrCache[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	ptrCache[t] = p
	return p
}

const vf = "github.com/blnkfinance/blnk/internal/vf."

func (w *Worker) addInput(name, kind string) *Input {
	in := &Input{Name: w.uniq(name), Kind: kind}
	w.inputs = append(w.inputs, in)
	return in
}

func init() {
	nop := func(fr *frame, a []Value) Value { return nil }
	// ---- harness API
	reg(vf+"Symbolic", func(fr *frame, a []Value) Value { return true })
	reg(vf+"Bool", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "bool")
		t := w.bank.Var(in.Name, sym.Bool, nil, nil)
		w.modelOK = false
		in.terms = []*sym.Term{t}
		return t
	})
	intIn := func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "int")
		lo, hi := w.concInt(a[1]), w.concInt(a[2])
		if lo == hi {
			in.conc = fmt.Sprint(lo)
			return lo
		}
		t := w.bank.Var(in.Name, sym.Int, big.NewInt(lo), big.NewInt(hi))
		w.boundVar(t)
		in.terms = []*sym.Term{t}
		return t
	}
	reg(vf+"Int", intIn)
	reg(vf+"Int64", intIn)
	reg(vf+"Choose", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "choice")
		k := w.choose(int(w.concInt(a[1])))
		in.conc = fmt.Sprint(k)
		return int64(k)
	})
	reg(vf+"Big", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "big")
		lo, ok1 := new(big.Int).SetString(w.concStr(a[1]), 10)
		hi, ok2 := new(big.Int).SetString(w.concStr(a[2]), 10)
		if !ok1 || !ok2 {
			w.unsupported("vf.Big bounds")
		}
		t := w.bank.Var(in.Name, sym.Int, lo, hi)
		w.boundVar(t)
		in.terms = []*sym.Term{t}
		return w.newBig(t)
	})
	reg(vf+"DecimalM", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "decimal")
		lo, hi, k := w.concInt(a[1]), w.concInt(a[2]), w.concInt(a[3])
		t := w.bank.Var(in.Name, sym.Int, big.NewInt(lo), big.NewInt(hi))
		w.boundVar(t)
		in.terms = []*sym.Term{t}
		in.aux = int(k)
		return Tuple{&SymFloat{M: t, K: int(k), Exact: true}, w.newBig(t)}
	})
	reg(vf+"Decimal", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "decimal")
		lo, hi, k := w.concInt(a[1]), w.concInt(a[2]), w.concInt(a[3])
		t := w.bank.Var(in.Name, sym.Int, big.NewInt(lo), big.NewInt(hi))
		w.boundVar(t)
		in.terms = []*sym.Term{t}
		in.aux = int(k)
		return &SymFloat{M: t, K: int(k), Exact: true}
	})
	reg(vf+"Str", func(fr *frame, a []Value) Value {
		w := fr.w
		in := w.addInput(w.concStr(a[0]), "bytes")
		lo, hi := w.concInt(a[1]), w.concInt(a[2])
		n := lo + int64(w.choose(int(hi-lo+1)))
		set := w.concStr(a[3])
		e := make([]Value, n)
		in.terms = []*sym.Term{}
		for i := range e {
			t := w.byteVar(fmt.Sprintf("%s[%d]", in.Name, i), set)
			in.terms = append(in.terms, t)
			e[i] = t
		}
		return normStr(e)
	})
	reg(vf+"Assume", func(fr *frame, a []Value) Value { fr.w.assume(fr.w.boolTerm(a[0])); return nil })
	reg(vf+"Assert", func(fr *frame, a []Value) Value {
		fr.w.curFr = fr.caller
		fr.w.assert(fr.w.boolTerm(a[0]), fr.w.concStr(a[1]))
		return nil
	})
	reg(vf+"Reach", func(fr *frame, a []Value) Value { fr.w.reached[fr.w.concStr(a[0])] = true; return nil })
	reg(vf+"Observe", func(fr *frame, a []Value) Value {
		w := fr.w
		v := a[1]
		// snapshot pointers to big integers
		if f, ok := v.(Iface); ok {
			if p, ok := f.V.(Ptr); ok && p != nil {
				v = copyVal(*p)
			}
		}
		w.obs = append(w.obs, Observation{Label: w.concStr(a[0]), v: v})
		return nil
	})
	reg(vf+"Debug", func(fr *frame, a []Value) Value {
		fmt.Println("DEBUG", fr.w.toStringSafe(a[0]), fr.w.fmtAll(fr, "%v", []Value{a[1]}))
		return nil
	})
	reg(vf+"Thorough", func(fr *frame, a []Value) Value { return fr.w.eng.Thorough })
	reg(vf+"gid", func(fr *frame, a []Value) Value { return int64(fr.w.cur.id) })
	reg(vf+"BigEq", func(fr *frame, a []Value) Value { w := fr.w; return w.fromBool(w.bank.Eq(w.bigOf(a[0]), w.bigOf(a[1]))) })
	reg(vf+"BigLe", func(fr *frame, a []Value) Value { w := fr.w; return w.fromBool(w.bank.Le(w.bigOf(a[0]), w.bigOf(a[1]))) })
	reg(vf+"BigLt", func(fr *frame, a []Value) Value { w := fr.w; return w.fromBool(w.bank.Lt(w.bigOf(a[0]), w.bigOf(a[1]))) })
	reg(vf+"Sched", func(fr *frame, a []Value) Value {
		n := fr.w.concInt(a[0])
		fr.w.schedND, fr.w.schedBudget = n > 0, int(n)
		return nil
	})
	reg(vf+"MapOrder", func(fr *frame, a []Value) Value { fr.w.mapND = b2(a[0]); fr.w.mapUsed = fr.w.mapUsed || fr.w.mapND; return nil })
	reg(vf+"Inconclusive", func(fr *frame, a []Value) Value {
		panic(&abort{kind: "unsupported", msg: "harness: " + fr.w.concStr(a[0]), pos: fr.w.where()})
	})
	reg(vf+"Stop", func(fr *frame, a []Value) Value { panic(&abort{kind: "done"}) })
	reg(vf+"And", func(fr *frame, a []Value) Value { return fr.w.fromBool(fr.w.bank.And(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1]))) })
	reg(vf+"Or", func(fr *frame, a []Value) Value { return fr.w.fromBool(fr.w.bank.Or(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1]))) })
	reg(vf+"Not", func(fr *frame, a []Value) Value { return fr.w.fromBool(fr.w.bank.Not(fr.w.boolTerm(a[0]))) })
	reg(vf+"Implies", func(fr *frame, a []Value) Value {
		return fr.w.fromBool(fr.w.bank.Implies(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1])))
	})
	reg(vf+"Iff", func(fr *frame, a []Value) Value {
		return fr.w.fromBool(fr.w.bank.Iff(fr.w.boolTerm(a[0]), fr.w.boolTerm(a[1])))
	})
	reg(vf+"IteBig", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.newBig(w.bank.Ite(w.boolTerm(a[0]), w.bigOf(a[1]), w.bigOf(a[2])))
	})
	reg(vf+"StrEq", func(fr *frame, a []Value) Value { return fr.w.equals(types.Typ[types.String], a[0], a[1]) })
	reg(vf+"IsConcrete", func(fr *frame, a []Value) Value { _, ok := a[0].(string); return ok })
	// Opaque stands for a collision-free function of its arguments (hashes, ciphertexts).
	reg(vf+"Opaque", func(fr *frame, a []Value) Value {
		return fr.w.opaque(fr.w.concStr(a[0]), int(fr.w.concInt(a[1])), []Value(a[2].(Slice)))
	})
	reg(vf+"OpaqueArgs", func(fr *frame, a []Value) Value { // inverse: arguments of an opaque text, or nil
		w := fr.w
		e := strElems(a[1])
		if len(e) == 1 {
			if at, ok := e[0].(*Atom); ok && at.Kind == "opq" && at.Name == w.concStr(a[0]) {
				return Slice(append([]Value{}, at.Args...))
			}
		}
		return Slice(nil)
	})
	// Field reads an unexported field of the struct behind a pointer.
	reg(vf+"Field", func(fr *frame, a []Value) Value {
		w := fr.w
		f := a[0].(Iface)
		name := w.concStr(a[1])
		pt, ok := f.T.Underlying().(*types.Pointer)
		if !ok || isNil(f.V) {
			w.unsupported("vf.Field")
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			w.unsupported("vf.Field")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				v := copyVal((*f.V.(Ptr)).(Struct)[i])
				if types.IsInterface(st.Field(i).Type()) {
					return v
				}
				return Iface{T: st.Field(i).Type(), V: v}
			}
		}
		w.unsupported("vf.Field: no field %s", name)
		return nil
	})
	reg(vf+"Clock", func(fr *frame, a []Value) Value { return fr.w.clock })
	reg(vf+"Advance", func(fr *frame, a []Value) Value { fr.w.clock += fr.w.concInt(a[0]); return nil })
	reg(vf+"Spawnable", func(fr *frame, a []Value) Value { return true })
	reg(vf+"WaitAll", func(fr *frame, a []Value) Value { // block until every other goroutine finished or is stuck
		w := fr.w
		me := w.cur
		w.block(func() bool {
			for _, g := range w.gs {
				if g != me && !g.done && (g.ready == nil || g.ready()) {
					return false
				}
			}
			return true
		})
		return nil
	})

	// ---- runtime, unsafe helpers
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "(*strings.Builder).copyCheck",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "runtime.ReadMemStats", "os.Exit0"} {
		reg(n, nop)
	}
	reg("runtime.Gosched", func(fr *frame, a []Value) Value { fr.w.yield(); return nil })
	reg("runtime.NumCPU", func(fr *frame, a []Value) Value { return int64(8) })
	reg("runtime.NumGoroutine", func(fr *frame, a []Value) Value { return int64(len(fr.w.gs)) })
	reg("runtime.GOMAXPROCS", func(fr *frame, a []Value) Value { return int64(8) })
	reg("runtime.Caller", func(fr *frame, a []Value) Value { return Tuple{int64(0), "", int64(0), false} })
	reg("runtime.Stack", func(fr *frame, a []Value) Value { return int64(0) })
	reg("internal/abi.NoEscape", func(fr *frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(fr *frame, a []Value) Value { return a[0] })
	reg("os.Exit", func(fr *frame, a []Value) Value { fr.w.goPanicf("os.Exit"); return nil })
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf"} {
		n := n
		f := func(fr *frame, a []Value) Value { fr.w.goPanicf("log.%s", n); return nil }
		reg("log."+n, f)
		reg("github.com/sirupsen/logrus."+n, f)
		reg("(*github.com/sirupsen/logrus.Entry)."+n, f)
		reg("(*github.com/sirupsen/logrus.Logger)."+n, f)
	}
	reg("os.Getenv", func(fr *frame, a []Value) Value { return "" })
	reg("os.LookupEnv", func(fr *frame, a []Value) Value { return Tuple{"", false} })
	reg("os.Hostname", func(fr *frame, a []Value) Value { return Tuple{"host", Iface{}} })
	reg("os.Getpid", func(fr *frame, a []Value) Value { return int64(1) })
	reg("(*strings.Builder).String", func(fr *frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		return normStr(append([]Value{}, s[1].(Slice)...))
	})
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []Value) Value {
		n := fr.w.concInt(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})

	// ---- errors
	reg("errors.Is", func(fr *frame, a []Value) Value { return fr.w.errorsIs(fr, a[0].(Iface), a[1].(Iface)) })
	reg("errors.As", func(fr *frame, a []Value) Value {
		w := fr.w
		tgt := a[1].(Iface)
		if tgt.T == nil {
			w.goPanicf("errors: target cannot be nil")
		}
		pt, ok := tgt.T.Underlying().(*types.Pointer)
		if !ok || isNil(tgt.V) {
			w.goPanicf("errors: target must be a non-nil pointer")
		}
		return w.errorsAs(fr, a[0].(Iface), tgt.V.(Ptr), pt.Elem())
	})
	reg("fmt.Errorf", func(fr *frame, a []Value) Value { return fr.w.errorf(fr, a[0], []Value(a[1].(Slice))) })
	reg("fmt.Sprintf", func(fr *frame, a []Value) Value { return fr.w.fmtAll(fr, fr.w.concStr(a[0]), []Value(a[1].(Slice))) })
	reg("fmt.Sprint", func(fr *frame, a []Value) Value {
		var r Value = ""
		for _, v := range a[0].(Slice) {
			r = concatStr(r, fr.w.fmtVal(fr, 'v', "", v.(Iface)))
		}
		return r
	})
	reg("fmt.Sprintln", func(fr *frame, a []Value) Value {
		var r Value = ""
		for i, v := range a[0].(Slice) {
			if i > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, fr.w.fmtVal(fr, 'v', "", v.(Iface)))
		}
		return concatStr(r, "\n")
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(fr *frame, a []Value) Value { return Tuple{int64(0), Iface{}} })
	}
	fpr := func(format bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			w := fr.w
			var s Value
			if format {
				s = w.fmtAll(fr, w.concStr(a[1]), []Value(a[2].(Slice)))
			} else {
				s = intrinsics["fmt.Sprint"](fr, a[1:])
			}
			wr := a[0].(Iface)
			if wr.T == nil {
				return Tuple{int64(0), Iface{}}
			}
			m := w.eng.lookupMethod(wr.T, nil, "Write")
			return w.call(fr, m, []Value{wr.V, Slice(append([]Value{}, strElems(s)...))})
		}
	}
	reg("fmt.Fprintf", fpr(true))
	reg("fmt.Fprint", fpr(false))

	// ---- sync
	lock := func(fr *frame, a []Value) Value {
		w := fr.w
		m := w.mutex(a[0].(Ptr))
		if w.initDepth > 0 {
			return nil
		}
		w.block(func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
		return nil
	}
	unlock := func(fr *frame, a []Value) Value {
		w := fr.w
		if w.initDepth > 0 {
			return nil
		}
		m := w.mutex(a[0].(Ptr))
		if !m.locked {
			w.goPanicf("sync: unlock of unlocked mutex")
		}
		m.locked = false
		return nil
	}
	for _, p := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		reg(p+"Lock", lock)
		reg(p+"Unlock", unlock)
		reg(p+"TryLock", func(fr *frame, a []Value) Value {
			m := fr.w.mutex(a[0].(Ptr))
			if m.locked || m.readers > 0 {
				return false
			}
			m.locked = true
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []Value) Value {
		w := fr.w
		if w.initDepth > 0 {
			return nil
		}
		m := w.mutex(a[0].(Ptr))
		w.block(func() bool { return !m.locked })
		m.readers++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []Value) Value {
		w := fr.w
		if w.initDepth > 0 {
			return nil
		}
		m := w.mutex(a[0].(Ptr))
		if m.readers <= 0 {
			w.goPanicf("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []Value) Value {
		w := fr.w
		p := a[0].(Ptr)
		w.wgs[p] += w.concInt(a[1])
		if w.wgs[p] < 0 {
			w.goPanicf("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []Value) Value {
		w := fr.w
		p := a[0].(Ptr)
		w.wgs[p]--
		if w.wgs[p] < 0 {
			w.goPanicf("sync: negative WaitGroup counter")
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []Value) Value {
		w := fr.w
		p := a[0].(Ptr)
		w.block(func() bool { return w.wgs[p] == 0 })
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, a []Value) Value {
		w := fr.w
		p := a[0].(Ptr)
		f := a[1]
		w.wgs[p]++
		w.spawn(&NativeFunc{F: func(fr *frame, _ []Value) Value {
			w.call(fr, f, nil)
			w.wgs[p]--
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(fr *frame, a []Value) Value {
		w := fr.w
		p := a[0].(Ptr)
		s := (*p).(Struct)
		// the done flag lives in the struct so that it follows rollback
		if w.onces[p] || s[0] == int64(1) {
			return nil
		}
		if w.initDepth == 0 {
			w.onces[p] = true
		}
		w.call(fr, a[1], nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		nf := s[len(s)-1]
		if isNil(nf) {
			return Iface{}
		}
		return fr.w.call(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", nop)
	smap := func(w *Worker, p Value) *Map {
		k := [2]any{"syncmap", p.(Ptr)}
		m, ok := w.side[k].(*Map)
		if !ok {
			m = w.newMap()
			w.side[k] = m
		}
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg("(*sync.Map).Load", func(fr *frame, a []Value) Value {
		if e := fr.w.mapFind(smap(fr.w, a[0]), a[1], anyT); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []Value) Value { fr.w.mapSet(smap(fr.w, a[0]), a[1], a[2], anyT); return nil })
	reg("(*sync.Map).Delete", func(fr *frame, a []Value) Value { fr.w.mapDelete(smap(fr.w, a[0]), a[1], anyT); return nil })
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []Value) Value {
		m := smap(fr.w, a[0])
		if e := fr.w.mapFind(m, a[1], anyT); e != nil {
			return Tuple{e.v, true}
		}
		fr.w.mapSet(m, a[1], a[2], anyT)
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr.w, a[0])
		if e := fr.w.mapFind(m, a[1], anyT); e != nil {
			v := e.v
			fr.w.mapDelete(m, a[1], anyT)
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Range", func(fr *frame, a []Value) Value {
		for _, e := range append([]*mapEntry{}, smap(fr.w, a[0]).ents...) {
			if !fr.w.truth(fr.w.call(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	})
	// sync/atomic
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		k := k
		var ty types.Type = types.Typ[types.Int64]
		switch k {
		case "Int32":
			ty = types.Typ[types.Int32]
		case "Uint32":
			ty = types.Typ[types.Uint32]
		case "Uint64", "Uintptr":
			ty = types.Typ[types.Uint64]
		}
		load := func(fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			if p == nil {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			return *p
		}
		reg("sync/atomic.Load"+k, load)
		reg("sync/atomic.Store"+k, func(fr *frame, a []Value) Value { fr.w.store(a[0].(Ptr), a[1]); return nil })
		reg("sync/atomic.Swap"+k, func(fr *frame, a []Value) Value {
			o := *a[0].(Ptr)
			fr.w.store(a[0].(Ptr), a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+k, func(fr *frame, a []Value) Value {
			if fr.w.truth(fr.w.equals(ty, *a[0].(Ptr), a[1])) {
				fr.w.store(a[0].(Ptr), a[2])
				return true
			}
			return false
		})
		if k != "Pointer" {
			reg("sync/atomic.Add"+k, func(fr *frame, a []Value) Value {
				n := fr.w.binopVal(token.ADD, ty, *a[0].(Ptr), a[1])
				fr.w.store(a[0].(Ptr), n)
				return n
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []Value) Value { return (*a[0].(Ptr)).(Struct)[0] })
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		fr.w.store(&s[0], a[1])
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		o := s[0]
		fr.w.store(&s[0], a[1])
		return o
	})

	// ---- context: deadlines never fire by themselves
	noDeadline := func(fr *frame, a []Value) Value {
		f := fr.w.eng.Pkgs["context"].Func("WithCancel")
		return fr.w.call(fr, f, []Value{a[0]})
	}
	reg("context.WithValue", func(fr *frame, a []Value) Value {
		w := fr.w
		if isNil(a[0]) || isNil(a[1]) {
			w.rtPanic("context.WithValue: nil parent or key")
		}
		v := Value(Struct{a[0], a[1], a[2]})
		return Iface{T: w.eng.ptrTo(w.eng.Pkgs["context"].Type("valueCtx").Type()), V: Ptr(&v)}
	})
	reg("context.WithTimeout", noDeadline)
	reg("context.WithDeadline", noDeadline)
	reg("context.WithTimeoutCause", noDeadline)
	reg("context.WithDeadlineCause", noDeadline)

	// ---- time
	reg("time.Now", func(fr *frame, a []Value) Value { return fr.w.timeNow(fr) })
	reg("time.now", func(fr *frame, a []Value) Value { fr.w.unsupported("time.now"); return nil })
	reg("time.Since", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.call(fr, w.eng.method("time", "Time", "Sub"), []Value{w.timeNow(fr), a[0]})
	})
	reg("time.Until", func(fr *frame, a []Value) Value {
		w := fr.w
		return w.call(fr, w.eng.method("time", "Time", "Sub"), []Value{a[0], w.timeNow(fr)})
	})
	reg("time.Sleep", func(fr *frame, a []Value) Value { fr.w.sleep(fr.w.durOf(a[0])); return nil })
	reg("time.runtimeNano", func(fr *frame, a []Value) Value { return fr.w.clock })
	reg("time.After", func(fr *frame, a []Value) Value {
		t := fr.w.newTimer(fr, a[0], Value(nil), false)
		return (*t).(Struct)[0]
	})
	reg("time.NewTimer", func(fr *frame, a []Value) Value { return fr.w.newTimer(fr, a[0], nil, false) })
	reg("time.AfterFunc", func(fr *frame, a []Value) Value { return fr.w.newTimer(fr, a[0], a[1], false) })
	reg("time.NewTicker", func(fr *frame, a []Value) Value { return fr.w.newTimer(fr, a[0], nil, true) })
	reg("time.Tick", func(fr *frame, a []Value) Value { return (*fr.w.newTimer(fr, a[0], nil, true)).(Struct)[0] })
	stop := func(fr *frame, a []Value) Value {
		t, _ := fr.w.side[[2]any{"timer", a[0]}].(*vtimer)
		if t == nil || t.dead {
			return false
		}
		t.dead = true
		return true
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(fr *frame, a []Value) Value { stop(fr, a); return nil })
	reg("(*time.Timer).Reset", func(fr *frame, a []Value) Value {
		t, _ := fr.w.side[[2]any{"timer", a[0]}].(*vtimer)
		if t == nil {
			return false
		}
		was := !t.dead
		t.dead = true
		n := fr.w.addTimer(fr.w.durOf(a[1]), t.fire)
		fr.w.side[[2]any{"timer", a[0]}] = n
		return was
	})
	reg("(time.Time).Format", func(fr *frame, a []Value) Value {
		w := fr.w
		if t, ok := w.goTime(a[0]); ok {
			return t.Format(w.concStr(a[1]))
		}
		return w.symTimeFmt(a[0], w.concStr(a[1]))
	})
	reg("(time.Time).String", func(fr *frame, a []Value) Value {
		w := fr.w
		if t, ok := w.goTime(a[0]); ok {
			return t.String()
		}
		return w.symTimeFmt(a[0], "String")
	})
	reg("(time.Duration).String", func(fr *frame, a []Value) Value {
		if d, ok := a[0].(int64); ok {
			return time.Duration(d).String()
		}
		return fr.w.opaque("dur", -1, []Value{fr.w.decStr(a[0].(*sym.Term))})
	})
	reg("time.Parse", func(fr *frame, a []Value) Value {
		w := fr.w
		if s, ok := a[1].(*SymStr); ok {
			if len(s.E) == 1 {
				if at, ok := s.E[0].(*Atom); ok && at.Kind == "opq" && at.Name == "time:"+w.concStr(a[0]) {
					if tv, ok := w.side[[2]any{"timeatom", at}]; ok {
						return Tuple{copyVal(tv), Iface{}}
					}
				}
			}
			w.unsupported("time.Parse of symbolic text")
		}
		t, err := time.Parse(w.concStr(a[0]), w.concStr(a[1]))
		if err != nil {
			return Tuple{w.mkTime(fr, time.Time{}), w.mkError(err.Error())}
		}
		return Tuple{w.mkTime(fr, t), Iface{}}
	})
	reg("time.ParseDuration", func(fr *frame, a []Value) Value {
		d, err := time.ParseDuration(fr.w.concStr(a[0]))
		if err != nil {
			return Tuple{int64(0), fr.w.mkError(err.Error())}
		}
		return Tuple{int64(d), Iface{}}
	})
	reg("time.LoadLocation", func(fr *frame, a []Value) Value {
		return Tuple{fr.w.globalAddrByName("time", "utcLoc"), Iface{}}
	})

	// ---- strings and friends: concrete fast paths, symbolic versions where the source is unsuitable
	s1 := func(n string, f func(string) Value) {
		fast[n] = func(a []Value) (Value, bool) {
			if x, ok := a[0].(string); ok {
				return f(x), true
			}
			return nil, false
		}
	}
	s2 := func(n string, f func(x, y string) Value) {
		fast[n] = func(a []Value) (Value, bool) {
			x, ok1 := a[0].(string)
			y, ok2 := a[1].(string)
			if ok1 && ok2 {
				return f(x, y), true
			}
			return nil, false
		}
	}
	ss := func(l []string) Value {
		r := make(Slice, len(l))
		for i, x := range l {
			r[i] = x
		}
		return r
	}
	s1("strings.ToUpper", func(x string) Value { return strings.ToUpper(x) })
	s1("strings.ToLower", func(x string) Value { return strings.ToLower(x) })
	s1("strings.TrimSpace", func(x string) Value { return strings.TrimSpace(x) })
	s1("strings.Fields", func(x string) Value { return ss(strings.Fields(x)) })
	s2("strings.Contains", func(x, y string) Value { return strings.Contains(x, y) })
	s2("strings.HasPrefix", func(x, y string) Value { return strings.HasPrefix(x, y) })
	s2("strings.HasSuffix", func(x, y string) Value { return strings.HasSuffix(x, y) })
	s2("strings.Index", func(x, y string) Value { return int64(strings.Index(x, y)) })
	s2("strings.LastIndex", func(x, y string) Value { return int64(strings.LastIndex(x, y)) })
	s2("strings.Count", func(x, y string) Value { return int64(strings.Count(x, y)) })
	s2("strings.Split", func(x, y string) Value { return ss(strings.Split(x, y)) })
	s2("strings.EqualFold", func(x, y string) Value { return strings.EqualFold(x, y) })
	s2("strings.Trim", func(x, y string) Value { return strings.Trim(x, y) })
	s2("strings.TrimLeft", func(x, y string) Value { return strings.TrimLeft(x, y) })
	s2("strings.TrimRight", func(x, y string) Value { return strings.TrimRight(x, y) })
	s2("strings.TrimPrefix", func(x, y string) Value { return strings.TrimPrefix(x, y) })
	s2("strings.TrimSuffix", func(x, y string) Value { return strings.TrimSuffix(x, y) })
	s2("strings.ContainsAny", func(x, y string) Value { return strings.ContainsAny(x, y) })
	s2("strings.IndexAny", func(x, y string) Value { return int64(strings.IndexAny(x, y)) })
	fast["strings.ReplaceAll"] = func(a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		if ok1 && ok2 && ok3 {
			return strings.ReplaceAll(x, y, z), true
		}
		return nil, false
	}
	fast["strings.Repeat"] = func(a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		n, ok2 := a[1].(int64)
		if ok1 && ok2 && n >= 0 {
			return strings.Repeat(x, int(n)), true
		}
		return nil, false
	}
	atomOf := func(v Value) *Atom {
		if s, ok := v.(*SymStr); ok && len(s.E) == 1 {
			if a, ok := s.E[0].(*Atom); ok {
				return a
			}
		}
		return nil
	}
	fast["strings.Replace"] = func(a []Value) (Value, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		z, ok3 := a[2].(string)
		n, ok4 := a[3].(int64)
		if ok1 && ok2 && ok3 && ok4 {
			return strings.Replace(x, y, z, int(n)), true
		}
		if at := atomOf(a[0]); at != nil && ok2 && ok3 && ok4 && y == "." && z == "" && n != 0 {
			// a decimal number without its point
			switch at.Kind {
			case "dec":
				return a[0], true
			case "fdec":
				return &SymStr{E: []Value{&Atom{Kind: "digits", T: at.T, K: at.K, Len: -1}}}, true
			}
		}
		return nil, false
	}
	trimLeft := fast["strings.TrimLeft"]
	fast["strings.TrimLeft"] = func(a []Value) (Value, bool) {
		if at := atomOf(a[0]); at != nil && at.T != nil && at.T.Lo != nil && at.T.Lo.Sign() > 0 && a[1] == "0" {
			switch at.Kind {
			case "dec":
				return a[0], true
			case "digits":
				return &SymStr{E: []Value{&Atom{Kind: "sdigits", T: at.T, K: at.K, Len: -1}}}, true
			}
		}
		return trimLeft(a)
	}
	caseMap := func(lo, hi, d int64) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			w := fr.w
			if s, ok := a[0].(string); ok {
				if d < 0 {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			}
			return w.asciiCase(a[0], lo, hi, d)
		}
	}
	reg("strings.ToUpper", caseMap('a', 'z', -32))
	reg("strings.ToLower", caseMap('A', 'Z', 32))
	delete(fast, "strings.ToUpper")
	delete(fast, "strings.ToLower")
	reg("strings.EqualFold", func(fr *frame, a []Value) Value {
		w := fr.w
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.EqualFold(x, y)
		}
		return w.fromBool(w.strEq(strElems(w.asciiCase(a[0], 'A', 'Z', 32)), strElems(w.asciiCase(a[1], 'A', 'Z', 32))))
	})
	delete(fast, "strings.EqualFold")
	reg("strings.Clone", func(fr *frame, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(fr *frame, a []Value) Value { return a[0] })
	idx := func(fr *frame, a []Value) Value {
		w := fr.w
		s, sub := bytesOf(a[0]), bytesOf(a[1])
		return w.indexBytes(s, sub)
	}
	reg("strings.Index", idx)
	reg("internal/stringslite.Index", idx)
	reg("bytes.Index", idx)
	reg("internal/bytealg.IndexString", idx)
	reg("internal/bytealg.Index", idx)
	delete(fast, "strings.Index")
	ib := func(fr *frame, a []Value) Value { return fr.w.indexBytes(bytesOf(a[0]), []Value{a[1]}) }
	reg("internal/bytealg.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ib)
	reg("strings.IndexByte", ib)
	reg("bytes.IndexByte", ib)
	reg("internal/stringslite.IndexByte", ib)
	lib := func(fr *frame, a []Value) Value {
		w := fr.w
		s := bytesOf(a[0])
		c := w.byteTerm(a[1])
		for i := len(s) - 1; i >= 0; i-- {
			if w.branch(w.bank.Eq(w.byteTerm(s[i]), c)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	reg("internal/bytealg.LastIndexByteString", lib)
	reg("internal/bytealg.LastIndexByte", lib)
	cnt := func(fr *frame, a []Value) Value {
		w := fr.w
		c := w.byteTerm(a[1])
		t := w.bank.Int64(0)
		for _, x := range bytesOf(a[0]) {
			t = w.bank.Add(t, w.bank.Ite(w.bank.Eq(w.byteTerm(x), c), w.bank.Int64(1), w.bank.Int64(0)))
		}
		return w.intVal(t)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.Equal", func(fr *frame, a []Value) Value {
		return fr.w.fromBool(fr.w.strEq(bytesOf(a[0]), bytesOf(a[1])))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("crypto/subtle.ConstantTimeCompare", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.strEq(bytesOf(a[0]), bytesOf(a[1]))
		return w.intVal(w.bank.Ite(t, w.bank.Int64(1), w.bank.Int64(0)))
	})
	reg("internal/bytealg.Compare", func(fr *frame, a []Value) Value {
		w := fr.w
		lt, gt := w.strLess(bytesOf(a[0]), bytesOf(a[1])), w.strLess(bytesOf(a[1]), bytesOf(a[0]))
		return w.intVal(w.bank.Ite(lt, w.bank.Int64(-1), w.bank.Ite(gt, w.bank.Int64(1), w.bank.Int64(0))))
	})
	reg("internal/bytealg.CompareString", intrinsics["internal/bytealg.Compare"])
	reg("strings.Compare", intrinsics["internal/bytealg.Compare"])
	reg("strings.Join", func(fr *frame, a []Value) Value {
		var r Value = ""
		for i, s := range a[0].(Slice) {
			if i > 0 {
				r = concatStr(r, a[1])
			}
			r = concatStr(r, s)
		}
		return r
	})

	// ---- strconv
	itoa := func(fr *frame, a []Value) Value {
		if len(a) > 1 && fr.w.concInt(a[1]) != 10 {
			return strconv.FormatInt(fr.w.concInt(a[0]), int(fr.w.concInt(a[1])))
		}
		return fr.w.decStr(fr.w.intTerm(a[0], types.Typ[types.Int64]))
	}
	reg("strconv.Itoa", itoa)
	reg("strconv.FormatInt", itoa)
	reg("strconv.FormatUint", func(fr *frame, a []Value) Value {
		if fr.w.concInt(a[1]) != 10 {
			return strconv.FormatUint(uint64(fr.w.concInt(a[0])), int(fr.w.concInt(a[1])))
		}
		return fr.w.decStr(fr.w.intTerm(a[0], types.Typ[types.Uint64]))
	})
	reg("strconv.FormatFloat", func(fr *frame, a []Value) Value {
		w := fr.w
		f, p, bs := byte(w.concInt(a[1])), int(w.concInt(a[2])), int(w.concInt(a[3]))
		if x, ok := a[0].(float64); ok {
			return strconv.FormatFloat(x, f, p, bs)
		}
		return w.fmtFloat(a[0].(*SymFloat), f, p)
	})
	reg("strconv.ParseFloat", func(fr *frame, a []Value) Value {
		w := fr.w
		if s, ok := a[0].(string); ok {
			f, err := strconv.ParseFloat(s, int(w.concInt(a[1])))
			if err != nil {
				return Tuple{f, w.mkError(err.Error())}
			}
			return Tuple{f, Iface{}}
		}
		f := w.parseFloat(a[0].(*SymStr))
		if f == nil {
			return Tuple{float64(0), w.mkError("strconv.ParseFloat: invalid syntax")}
		}
		return Tuple{f, Iface{}}
	})
	pint := func(name string, bits func(fr *frame, a []Value) uint, signed bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			w := fr.w
			nb := bits(fr, a)
			base := 10
			if len(a) > 1 {
				base = int(w.concInt(a[1]))
			}
			if s, ok := a[0].(string); ok {
				if signed {
					v, err := strconv.ParseInt(s, base, int(nb))
					if err != nil {
						return Tuple{v, w.mkError(strings.Replace(err.Error(), "ParseInt", name, 1))}
					}
					return Tuple{v, Iface{}}
				}
				v, err := strconv.ParseUint(s, base, int(nb))
				if err != nil {
					return Tuple{int64(v), w.mkError(err.Error())}
				}
				return Tuple{int64(v), Iface{}}
			}
			t, ok := w.parseBig(a[0], base)
			if !ok {
				return Tuple{int64(0), w.mkError("strconv." + name + ": invalid syntax")}
			}
			lo, hi := intRange(nb, signed)
			if !w.branch(w.bank.And(w.bank.Le(w.bank.IntC(lo), t), w.bank.Le(t, w.bank.IntC(hi)))) {
				return Tuple{int64(math.MaxInt64), w.mkError("strconv." + name + ": value out of range")}
			}
			return Tuple{w.intVal(w.clampBounds(t, lo, hi)), Iface{}}
		}
	}
	b64 := func(fr *frame, a []Value) uint { return 64 }
	bArg := func(fr *frame, a []Value) uint {
		n := uint(fr.w.concInt(a[2]))
		if n == 0 {
			n = 64
		}
		return n
	}
	reg("strconv.Atoi", pint("Atoi", b64, true))
	reg("strconv.ParseInt", pint("ParseInt", bArg, true))
	reg("strconv.ParseUint", pint("ParseUint", bArg, false))
	reg("strconv.Quote", func(fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return concatStr(concatStr("\"", a[0]), "\"")
	})

	// ---- sort
	ssort := func(fr *frame, a []Value) Value {
		w := fr.w
		s := a[0].(Iface).V.(Slice)
		// insertion sort: stable, and deterministic in the number of comparisons
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !w.truth(w.call(fr, a[1], []Value{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				w.store(&s[j], y)
				w.store(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", ssort)
	reg("sort.SliceStable", ssort)

	// ---- identifiers and randomness
	uuid := func(fr *frame) string {
		w := fr.w
		w.uuidN++
		return fmt.Sprintf("00000000-0000-4000-8000-%012x", w.uuidN)
	}
	reg("github.com/google/uuid.NewString", func(fr *frame, a []Value) Value { return uuid(fr) })
	mkUUID := func(fr *frame) Value {
		s := strings.ReplaceAll(uuid(fr), "-", "")
		b, _ := hex.DecodeString(s)
		return Array(strElems(string(b)))
	}
	reg("github.com/google/uuid.New", func(fr *frame, a []Value) Value { return mkUUID(fr) })
	reg("github.com/google/uuid.NewRandom", func(fr *frame, a []Value) Value { return Tuple{mkUUID(fr), Iface{}} })
	reg("(github.com/google/uuid.UUID).String", func(fr *frame, a []Value) Value {
		b := []byte(fr.w.concStr(normStr(a[0].(Array))))
		h := hex.EncodeToString(b)
		return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
	})
	crnd := func(fr *frame, a []Value) Value {
		w := fr.w
		s := a[0].(Slice)
		n, _ := w.side["rand"].(int)
		for i := range s {
			n++
			w.store(&s[i], int64((n*37+n/7)%251))
		}
		w.side["rand"] = n
		return Tuple{int64(len(s)), Iface{}}
	}
	reg("crypto/rand.Read", crnd)
	reg("(*crypto/rand.reader).Read", func(fr *frame, a []Value) Value { return crnd(fr, a[1:]) })
	reg("io.ReadFull#rand", crnd)
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		reg(p+".Float64", func(fr *frame, a []Value) Value { return 0.5 })
		reg(p+".Int63", func(fr *frame, a []Value) Value { return int64(4) })
		one := func(fr *frame, a []Value) Value { return fr.w.concInt(a[0]) / 2 }
		for _, n := range []string{"Intn", "Int63n", "IntN", "Int64N", "Int31n", "N"} {
			reg(p+"."+n, one)
		}
	}

	// ---- hashing
	reg("crypto/sha256.Sum256", func(fr *frame, a []Value) Value {
		w := fr.w
		s := normStr(append([]Value{}, a[0].(Slice)...))
		if c, ok := s.(string); ok {
			h := sha256.Sum256([]byte(c))
			return Array(strElems(string(h[:])))
		}
		at := w.opaqueAtom("sha256", 32, []Value{s})
		r := make(Array, 32)
		r[0] = at
		for i := 1; i < 32; i++ {
			r[i] = padAtom
		}
		return r
	})
	reg("encoding/hex.EncodeToString", func(fr *frame, a []Value) Value {
		w := fr.w
		s := a[0].(Slice)
		if len(s) > 0 {
			if at, ok := s[0].(*Atom); ok {
				return w.opaque("hex", at.Len*2, []Value{&SymStr{E: []Value{at}}})
			}
		}
		if c, ok := normStr(append([]Value{}, s...)).(string); ok {
			return hex.EncodeToString([]byte(c))
		}
		w.unsupported("hex of symbolic bytes")
		return nil
	})
	// ---- regexp (concrete subjects natively)
	reg("regexp.MustCompile", func(fr *frame, a []Value) Value {
		re := regexp.MustCompile(fr.w.concStr(a[0]))
		var v Value = &Native{Kind: "regexp", V: re}
		return Ptr(&v)
	})
	reg("regexp.Compile", func(fr *frame, a []Value) Value {
		re, err := regexp.Compile(fr.w.concStr(a[0]))
		if err != nil {
			return Tuple{Ptr(nil), fr.w.mkError(err.Error())}
		}
		var v Value = &Native{Kind: "regexp", V: re}
		return Tuple{Ptr(&v), Iface{}}
	})
	re := func(v Value) *regexp.Regexp { return (*v.(Ptr)).(*Native).V.(*regexp.Regexp) }
	reg("(*regexp.Regexp).MatchString", func(fr *frame, a []Value) Value {
		if s, ok := a[1].(string); ok {
			return re(a[0]).MatchString(s)
		}
		return fr.w.reMatch(re(a[0]).String(), a[1])
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(fr *frame, a []Value) Value {
		t := fr.w.concStr(a[2])
		if s, ok := a[1].(string); ok {
			return re(a[0]).ReplaceAllString(s, t)
		}
		return fr.w.reReplace(re(a[0]), a[1], func(c []int, e []Value) []Value { return fr.w.reTemplate(t, c, e) })
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(fr *frame, a []Value) Value {
		if s, ok := a[1].(string); ok {
			if t, ok := a[2].(string); ok {
				return re(a[0]).ReplaceAllLiteralString(s, t)
			}
		}
		return fr.w.reReplace(re(a[0]), a[1], func([]int, []Value) []Value { return strElems(a[2]) })
	})
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(fr *frame, a []Value) Value {
		return fr.w.reReplace(re(a[0]), a[1], func(c []int, e []Value) []Value {
			return strElems(fr.w.call(fr, a[2], []Value{normStr(append([]Value{}, e[c[0]:c[1]]...))}))
		})
	})
	reg("(*regexp.Regexp).String", func(fr *frame, a []Value) Value { return re(a[0]).String() })
	reg("(*regexp.Regexp).FindStringSubmatch", func(fr *frame, a []Value) Value {
		m := re(a[0]).FindStringSubmatch(fr.w.concStr(a[1]))
		if m == nil {
			return Slice(nil)
		}
		return ss(m)
	})
	reg("regexp.MatchString", func(fr *frame, a []Value) Value {
		pat := fr.w.concStr(a[0])
		r, err := regexp.Compile(pat)
		if err != nil {
			return Tuple{false, fr.w.mkError(err.Error())}
		}
		if s, ok := a[1].(string); ok {
			return Tuple{r.MatchString(s), Iface{}}
		}
		return Tuple{fr.w.reMatch(pat, a[1]), Iface{}}
	})

	// ---- math
	m1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(fr *frame, a []Value) Value {
			w := fr.w
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			sf := a[0].(*SymFloat)
			b := w.bank
			z := b.RatC(new(big.Rat))
			t := w.trueReal(sf)
			if w.isDec(sf) {
				t = w.decReal(sf)
			}
			neg := b.Lt(t, z)
			mk := func(i *sym.Term) Value {
				lim := pow2[53]
				if i.Lo != nil && i.Hi != nil && new(big.Int).Abs(i.Lo).Cmp(lim) <= 0 && new(big.Int).Abs(i.Hi).Cmp(lim) <= 0 {
					return &SymFloat{M: i, Exact: true}
				}
				return &SymFloat{Real: b.ToReal(i)}
			}
			half := b.RatC(big.NewRat(1, 2))
			switch n {
			case "Abs":
				if sf.Exact {
					return &SymFloat{M: w.absTerm(sf.M), K: sf.K, Exact: true}
				}
				return &SymFloat{Real: b.Ite(neg, b.Neg(t), t)}
			case "Floor":
				return mk(b.Floor(t))
			case "Ceil":
				return mk(b.Neg(b.Floor(b.Neg(t))))
			case "Trunc":
				return mk(b.Ite(neg, b.Neg(b.Floor(b.Neg(t))), b.Floor(t)))
			case "Round":
				return mk(b.Ite(neg, b.Neg(b.Floor(b.Add(b.Neg(t), half))), b.Floor(b.Add(t, half))))
			}
			w.unsupported("math.%s of symbolic float", n)
			return nil
		})
	}
	m1("Abs", math.Abs)
	m1("Floor", math.Floor)
	m1("Ceil", math.Ceil)
	m1("Trunc", math.Trunc)
	m1("Round", math.Round)
	m1("Sqrt", math.Sqrt)
	m1("Log", math.Log)
	m1("Log10", math.Log10)
	m1("Log2", math.Log2)
	m1("Exp", math.Exp)
	reg("math.Float64bits", func(fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		if !ok {
			fr.w.unsupported("Float64bits of symbolic float")
		}
		return int64(math.Float64bits(f))
	})
	reg("math.Float64frombits", func(fr *frame, a []Value) Value { return math.Float64frombits(uint64(fr.w.concInt(a[0]))) })
	reg("math.Float32bits", func(fr *frame, a []Value) Value { return int64(math.Float32bits(float32(a[0].(float64)))) })
	reg("math.Float32frombits", func(fr *frame, a []Value) Value { return float64(math.Float32frombits(uint32(fr.w.concInt(a[0])))) })
	reg("math.IsNaN", func(fr *frame, a []Value) Value { f, ok := a[0].(float64); return ok && math.IsNaN(f) })
	reg("math.IsInf", func(fr *frame, a []Value) Value {
		f, ok := a[0].(float64)
		return ok && math.IsInf(f, int(fr.w.concInt(a[1])))
	})
	reg("math.Pow", func(fr *frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			fr.w.unsupported("math.Pow of symbolic float")
		}
		return math.Pow(x, y)
	})
	reg("math.Mod", func(fr *frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if !ok1 || !ok2 {
			fr.w.unsupported("math.Mod of symbolic float")
		}
		return math.Mod(x, y)
	})
	mm := func(min bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			w := fr.w
			if x, ok := a[0].(float64); ok {
				if y, ok := a[1].(float64); ok {
					if min {
						return math.Min(x, y)
					}
					return math.Max(x, y)
				}
			}
			if w.truth(w.floatOp(token.LSS, a[0], a[1])) == min {
				return a[0]
			}
			return a[1]
		}
	}
	reg("math.Min", mm(true))
	reg("math.Max", mm(false))
}

var padAtom = &Atom{Kind: "pad", Len: 0}

func bytesOf(v Value) []Value {
	switch v := v.(type) {
	case Slice:
		return v
	default:
		return strElems(v)
	}
}

// byteVar declares a symbolic byte in a character set such as "a-z0-9_" (empty: any byte).
func (w *Worker) byteVar(name, set string) *sym.Term {
	lo, hi := int64(255), int64(0)
	type r struct{ a, b int64 }
	var rs []r
	for i := 0; i < len(set); {
		if i+2 < len(set) && set[i+1] == '-' {
			rs = append(rs, r{int64(set[i]), int64(set[i+2])})
			i += 3
		} else {
			rs = append(rs, r{int64(set[i]), int64(set[i])})
			i++
		}
	}
	if len(rs) == 0 {
		rs = []r{{0, 255}}
	}
	for _, x := range rs {
		if x.a < lo {
			lo = x.a
		}
		if x.b > hi {
			hi = x.b
		}
	}
	t := w.bank.Var(name, sym.Int, big.NewInt(lo), big.NewInt(hi))
	w.boundVar(t)
	if len(rs) > 1 {
		var ors []*sym.Term
		for _, x := range rs {
			ors = append(ors, w.bank.And(w.bank.Le(w.bank.Int64(x.a), t), w.bank.Le(t, w.bank.Int64(x.b))))
		}
		w.rawPC(w.bank.Or(ors...))
	}
	return t
}

func (w *Worker) asciiCase(v Value, lo, hi, d int64) Value {
	b := w.bank
	var e []Value
	for _, x := range strElems(v) {
		switch x := x.(type) {
		case int64:
			if x >= 0x80 {
				w.unsupported("case mapping of non-ASCII text")
			}
			if x >= lo && x <= hi {
				x += d
			}
			e = append(e, x)
		case *sym.Term:
			if !w.branch(b.Lt(x, b.Int64(128))) {
				w.unsupported("case mapping of non-ASCII byte")
			}
			e = append(e, w.intVal(b.Ite(b.And(b.Le(b.Int64(lo), x), b.Le(x, b.Int64(hi))), b.Add(x, b.Int64(d)), x)))
		case *Atom:
			if cs, ok := atomChars(x); ok && !strings.ContainsFunc(cs, func(c rune) bool { return int64(c) >= lo && int64(c) <= hi }) {
				e = append(e, x)
				continue
			}
			w.unsupported("case mapping of opaque text")
		}
	}
	return normStr(e)
}

func init() {
	elemsOf := func(v Value) []Value {
		switch v := v.(type) {
		case string:
			return strElems(v)
		case *SymStr:
			return v.E
		}
		return nil
	}
	has := func(name string, suffix bool, bytes bool) {
		reg(name, func(fr *frame, a []Value) Value {
			w := fr.w
			var s, fix []Value
			if bytes {
				s, fix = []Value(a[0].(Slice)), []Value(a[1].(Slice))
			} else {
				s, fix = elemsOf(a[0]), elemsOf(a[1])
			}
			if len(fix) == 1 {
				if at, ok := fix[0].(*Atom); ok {
					// the same atom at the edge
					i := 0
					if suffix {
						i = len(s) - 1
					}
					if len(s) > 0 && s[i] == Value(at) {
						return true
					}
				}
			}
			for _, x := range fix {
				if _, ok := x.(*Atom); ok {
					w.unsupported("prefix or suffix of unknown length")
				}
			}
			t, ok := w.affix(s, fix, suffix)
			if !ok {
				w.unsupported("prefix or suffix test inside unknown-length part of %s", &SymStr{E: s})
			}
			return w.fromBool(t)
		})
	}
	has("strings.HasPrefix", false, false)
	has("strings.HasSuffix", true, false)
	has("internal/stringslite.HasPrefix", false, false)
	has("internal/stringslite.HasSuffix", true, false)
	has("bytes.HasPrefix", false, true)
	has("bytes.HasSuffix", true, true)
}

// indexBytes finds the first occurrence, forking per position.
func (w *Worker) indexBytes(s, sub []Value) Value {
	if cs, ok := normStr(s).(string); ok {
		if cb, ok := normStr(sub).(string); ok {
			return int64(strings.Index(cs, cb))
		}
	}
	n := len(sub)
	if n == 0 {
		return int64(0)
	}
	pos := int64(0)
	for i := 0; i+n <= len(s); i++ {
		if a, ok := s[i].(*Atom); ok {
			// digits only: a pattern whose first byte is no digit, sign or dot cannot start inside
			c, ok := sub[0].(int64)
			if cs, known := atomChars(a); ok && known && !strings.ContainsRune(cs, rune(c)) {
				pos = -1 // offset unknown from here on
				continue
			}
			w.unsupported("search in unknown-length text")
		}
		hasAt, miss := false, false
		for j, x := range s[i : i+n] {
			d, okd := sub[j].(int64)
			if a, ok := x.(*Atom); ok {
				hasAt = true
				// no such text is empty: its first byte must be one it can have
				if cs, known := atomChars(a); okd && known && !strings.ContainsRune(cs, rune(d)) {
					miss = true
				}
				break
			}
			if c, ok := x.(int64); ok && okd && c != d {
				miss = true
				break
			}
		}
		if miss {
			continue
		}
		if hasAt {
			w.unsupported("search across unknown-length text")
		}
		if w.branch(w.strEq(s[i:i+n], sub)) {
			if pos < 0 {
				w.unsupported("offset after unknown-length text")
			}
			return int64(i)
		}
	}
	return int64(-1)
}

// atomChars lists the bytes a text of unknown length can have.
func atomChars(a *Atom) (string, bool) {
	switch {
	case a.Kind == "dec":
		return "-0123456789", true
	case a.Kind == "fdec":
		return "-.0123456789", true
	case a.Kind == "fun" && strings.HasPrefix(a.Name, "floatf"), a.Kind == "opq" && strings.HasPrefix(a.Name, "fixed"):
		return "-.0123456789", true
	case a.Kind == "fun" && strings.HasPrefix(a.Name, "float"):
		return "-+.e0123456789", true
	case a.Kind == "opq" && a.Name == "hex":
		return "0123456789abcdef", true
	case a.Kind == "opq" && strings.HasPrefix(a.Name, "fmt%"):
		return " -+0123456789", true
	}
	return "", false
}

func (w *Worker) opaqueAtom(name string, n int, args []Value) *Atom {
	// identical applications share the atom
	k := "opq:" + name
	l, _ := w.side[k].([]*Atom)
	for _, a := range l {
		if len(a.Args) == len(args) {
			same := true
			for i := range args {
				if !sameElems(strElems(a.Args[i]), strElems(args[i])) {
					same = false
					break
				}
			}
			if same {
				return a
			}
		}
	}
	a := &Atom{Kind: "opq", Name: name, Args: args, Len: n}
	w.side[k] = append(l, a)
	return a
}

func sameElems(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *Worker) opaque(name string, n int, args []Value) Value {
	return &SymStr{E: []Value{w.opaqueAtom(name, n, args)}}
}

func (w *Worker) fmtFloat(f *SymFloat, verb byte, prec int) Value {
	b := w.bank
	if !f.Exact {
		k := [2]any{fmt.Sprintf("funatom%c%d", verb, prec), f.Real}
		if a, ok := w.side[k].(*Atom); ok {
			return &SymStr{E: []Value{a}}
		}
		a := &Atom{Kind: "fun", Name: fmt.Sprintf("float%c%d", verb, prec), T: f.Real, Len: -1}
		w.side[k] = a
		return &SymStr{E: []Value{a}}
	}
	if verb != 'f' && verb != 'g' {
		w.unsupported("symbolic float format %c", verb)
	}
	if prec < 0 {
		if f.K == 0 {
			return w.decStr(f.M)
		}
		return w.fdecStr(f.M, f.K)
	}
	// fixed digits: round half to even on the exact binary value; decimals with at most prec digits are exact
	if f.K <= prec {
		m := b.Scale(f.M, pow10(prec-f.K))
		if prec == 0 {
			return w.decStr(m)
		}
		return &SymStr{E: []Value{&Atom{Kind: "opq", Name: fmt.Sprintf("fixed%d", prec), Args: []Value{w.decStr(m)}, Len: -1}}}
	}
	return w.opaque(fmt.Sprintf("fixed%d", prec), -1, []Value{w.fdecStr(f.M, f.K)})
}

func (w *Worker) parseFloat(s *SymStr) Value {
	if len(s.E) == 1 {
		if a, ok := s.E[0].(*Atom); ok {
			switch a.Kind {
			case "fun":
				return &SymFloat{Real: a.T}
			case "fdec":
				return &SymFloat{M: a.T, K: a.K, Exact: true}
			case "dec":
				return w.convert(a.T, types.Typ[types.Int64], types.Typ[types.Float64])
			}
		}
	}
	w.unsupported("parse float from %s", s)
	return nil
}

func (w *Worker) mutex(p Ptr) *mutexState {
	if p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := w.mutexes[p]
	if m == nil {
		m = &mutexState{}
		w.mutexes[p] = m
	}
	return m
}

// ---- time

const (
	wallBase   = 1767225600 // 2026-01-01T00:00:00Z
	unixToYear = 62135596800
)

func (w *Worker) timeStruct(sec Value, nsec int64) Value {
	return Struct{nsec, sec, Ptr(nil)}
}

func (w *Worker) timeNow(fr *frame) Value {
	w.clock += 1000
	return w.timeStruct(int64(wallBase+unixToYear)+w.clock/1e9, w.clock%1e9)
}

func (w *Worker) mkTime(fr *frame, t time.Time) Value {
	t = t.UTC()
	if t.IsZero() {
		return w.timeStruct(int64(0), 0)
	}
	return w.timeStruct(t.Unix()+unixToYear, int64(t.Nanosecond()))
}

// goTime converts a concrete time value.
func (w *Worker) goTime(v Value) (time.Time, bool) {
	s := v.(Struct)
	wall, ok1 := s[0].(int64)
	ext, ok2 := s[1].(int64)
	if !ok1 || !ok2 {
		return time.Time{}, false
	}
	if uint64(wall)>>63 != 0 {
		sec := int64(59453308800) + int64(uint64(wall)<<1>>(30+1))
		return time.Unix(sec-unixToYear, wall&(1<<30-1)).UTC(), true
	}
	return time.Unix(ext-unixToYear, wall&(1<<30-1)).UTC(), true
}

func (w *Worker) symTimeFmt(v Value, layout string) Value {
	s := v.(Struct)
	ext := w.intTerm(s[1], types.Typ[types.Int64])
	nsec := w.intTerm(s[0], types.Typ[types.Int64])
	args := []Value{w.decStr(ext)}
	if strings.Contains(layout, ".") || layout == "String" {
		args = append(args, w.decStr(nsec))
	}
	r := w.opaque("time:"+layout, -1, args)
	w.side[[2]any{"timeatom", r.(*SymStr).E[0].(*Atom)}] = copyVal(v)
	return r
}

func (w *Worker) durOf(v Value) int64 {
	if d, ok := v.(int64); ok {
		return d
	}
	return 1
}

func (w *Worker) newTimer(fr *frame, d Value, f Value, tick bool) Ptr {
	name := "Timer"
	if tick {
		name = "Ticker"
	}
	t := w.eng.Pkgs["time"].Type(name).Type()
	v := w.zero(t)
	c := &Chan{cap: 1, timer: true}
	v.(Struct)[0] = c
	p := Ptr(&v)
	var fire func()
	dur := w.durOf(d)
	if tick && dur <= 0 {
		w.goPanicf("non-positive interval for NewTicker")
	}
	fire = func() {
		if f != nil {
			w.spawn(f, nil)
			return
		}
		if len(c.buf) < 1 {
			w.trySend(c, w.timeStruct(int64(wallBase+unixToYear)+w.clock/1e9, w.clock%1e9))
		}
		if tick {
			w.side[[2]any{"timer", p}] = w.addTimer(dur, fire)
		}
	}
	w.side[[2]any{"timer", p}] = w.addTimer(dur, fire)
	return p
}

func (e *Engine) method(pkg, typ, name string) *ssa.Function {
	t := e.Pkgs[pkg].Type(typ).Type()
	f := e.lookupMethod(t, e.Pkgs[pkg].Pkg, name)
	if f == nil {
		f = e.lookupMethod(types.NewPointer(t), e.Pkgs[pkg].Pkg, name)
	}
	return f
}

func (w *Worker) globalAddrByName(pkg, name string) Ptr {
	return w.globalAddr(w.eng.Pkgs[pkg].Var(name))
}

// ---- errors

func (w *Worker) callMethod(fr *frame, v Iface, name string, args ...Value) (Value, bool) {
	m := w.eng.lookupMethod(v.T, nil, name)
	if m == nil {
		return nil, false
	}
	return w.call(fr, m, append([]Value{v.V}, args...)), true
}

func (w *Worker) hasMethod(t types.Type, name string) *types.Signature {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return f.Type().(*types.Signature)
}

func (w *Worker) unwrap(fr *frame, err Iface) []Iface {
	sig := w.hasMethod(err.T, "Unwrap")
	if sig == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	r, ok := w.callMethod(fr, err, "Unwrap")
	if !ok {
		return nil
	}
	switch r := r.(type) {
	case Iface:
		if r.T == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var l []Iface
		for _, x := range r {
			if f := x.(Iface); f.T != nil {
				l = append(l, f)
			}
		}
		return l
	}
	return nil
}

func (w *Worker) errorsIs(fr *frame, err, target Iface) Value {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	if types.Comparable(target.T) && w.sameType(err.T, target.T) && w.truth(w.equals(err.T, err.V, target.V)) {
		return true
	}
	if sig := w.hasMethod(err.T, "Is"); sig != nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 {
		if r, ok := w.callMethod(fr, err, "Is", target); ok && w.truth(r) {
			return true
		}
	}
	for _, u := range w.unwrap(fr, err) {
		if b2(w.errorsIs(fr, u, target)) {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(fr *frame, err Iface, p Ptr, t types.Type) Value {
	if err.T == nil {
		return false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if w.implements(err.T, it, t) {
			w.store(p, err)
			return true
		}
	} else if w.sameType(err.T, t) {
		w.store(p, copyVal(err.V))
		return true
	}
	if sig := w.hasMethod(err.T, "As"); sig != nil && sig.Params().Len() == 1 {
		if r, ok := w.callMethod(fr, err, "As", Iface{T: types.NewPointer(t), V: p}); ok && w.truth(r) {
			return true
		}
	}
	for _, u := range w.unwrap(fr, err) {
		if b2(w.errorsAs(fr, u, p, t)) {
			return true
		}
	}
	return false
}

var _ = sort.Strings

func init() {
	reg("flag.Lookup", func(fr *frame, a []Value) Value { return Ptr(nil) })
}
