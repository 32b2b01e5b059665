package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"verif/engine/sym"
)

type operand struct {
	idx int
	val Value
	g   *ssa.Global
}

func (o *operand) get(fr *frame) Value {
	if o.idx >= 0 {
		return fr.env[o.idx]
	}
	if o.g != nil {
		return fr.w.globalAddr(o.g)
	}
	return o.val
}

const (
	ctlNext = iota
	ctlJump
	ctlReturn
)

type cinstr func(fr *frame) int

type cblock struct {
	phis []cphi
	code []cinstr
	srcs []ssa.Instruction
}

type cphi struct {
	dst   int
	edges []operand
}

type cfn struct {
	fn        *ssa.Function
	nregs     int
	blocks    []cblock
	params    int
	recover_  int
	intrinsic func(fr *frame, args []Value) Value
	fast      func(a []Value) (Value, bool)
	memo      map[string]Value
	name      string
	stub      bool
	nobody    bool
	override  *ssa.Function
	results   *types.Tuple
}

type deferred struct {
	fn   Value
	args []Value
	pos  token.Pos
}

type frame struct {
	w         *Worker
	caller    *frame
	fn        *cfn
	env       []Value
	block     int
	prev      int
	ip        int
	defers    []deferred
	result    Value
	panicking *goPanic
	recovered bool
	native    token.Pos
	depth     int
}

func (fr *frame) pos() token.Pos {
	if fr.fn == nil || len(fr.fn.blocks) == 0 {
		return token.NoPos
	}
	b := &fr.fn.blocks[fr.block]
	for i := fr.ip; i >= 0 && i < len(b.srcs); i-- {
		if p := b.srcs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return fr.fn.fn.Pos()
}

// ---- compile

func (w *Worker) compiled(fn *ssa.Function) *cfn {
	if c, ok := w.code[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, recover_: -1}
	w.code[fn] = c
	orig := fn
	if fn.Origin() != nil {
		orig = fn.Origin()
	}
	c.name = orig.String()
	c.results = fn.Signature.Results()
	if ov := w.eng.overrides[c.name]; ov != nil && ov != fn {
		c.override = ov
		return c
	}
	if f, ok := intrinsics[c.name]; ok {
		c.intrinsic = f
		return c
	}
	if w.eng.autoStub(orig, c.name) {
		c.stub = true
		return c
	}
	c.fast = fast[c.name]
	if w.eng.memoFns[c.name] {
		c.memo = map[string]Value{}
	}
	if fn.Blocks == nil {
		w.eng.buildPkg(fn)
	}
	if fn.Blocks == nil {
		c.nobody = true
		return c
	}
	w.eng.noteEncoded(c.name)
	idx := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	c.nregs = n
	c.blocks = make([]cblock, len(fn.Blocks))
	op := func(v ssa.Value) operand {
		switch v := v.(type) {
		case *ssa.Const:
			return operand{idx: -1, val: w.constVal(v)}
		case *ssa.Global:
			return operand{idx: -1, g: v}
		case *ssa.Function, *ssa.Builtin:
			return operand{idx: -1, val: v}
		}
		i, ok := idx[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v", v))
		}
		return operand{idx: i}
	}
	cc := &compiler{w: w, fn: fn, op: op, idx: idx}
	for i, b := range fn.Blocks {
		cb := &c.blocks[i]
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: idx[phi]}
				for _, e := range phi.Edges {
					p.edges = append(p.edges, op(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.code = append(cb.code, cc.instr(in))
			cb.srcs = append(cb.srcs, in)
		}
	}
	if fn.Recover != nil {
		c.recover_ = fn.Recover.Index
	}
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	v := w.constVal0(c)
	w.consts[c] = v
	return v
}

func (w *Worker) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return i
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return int64(u)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	panic(fmt.Sprintf("constVal %v %v", c, c.Type()))
}

func (w *Worker) globalAddr(g *ssa.Global) Ptr {
	if g.Pkg != nil && !w.inited[g.Pkg] {
		w.ensureInit(g.Pkg)
	}
	p, ok := w.globals[g]
	if !ok {
		v := w.zero(g.Type().(*types.Pointer).Elem())
		p = &v
		w.globals[g] = p
	}
	return p
}

// ensureInit runs the variable initialisers and init functions of a package the first time it is used.
func (w *Worker) ensureInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	path := p.Pkg.Path()
	if w.eng.skipInit(path) {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	w.eng.buildPkg(init)
	w.initDepth++
	saved := w.curFr
	w.curFr = nil
	defer func() {
		w.initDepth--
		w.curFr = saved
		if r := recover(); r != nil {
			if a, ok := r.(*abort); ok {
				w.eng.warn("init of %s: %s", path, a.Error())
				return
			}
			if g, ok := r.(*goPanic); ok {
				w.eng.warn("init of %s: %s", path, w.panicString(g))
				return
			}
			panic(r)
		}
	}()
	w.call(nil, init, nil)
}

// ---- calls

func (w *Worker) call(caller *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.callSSA(caller, f, args, nil)
	case *Closure:
		if f == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.callSSA(caller, f.Fn, args, f.Env)
	case *NativeFunc:
		return f.F(caller, args)
	case *ssa.Builtin:
		return w.builtin(caller, f, args, nil)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.unsupported("call of %T", fn)
	return nil
}

func (w *Worker) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := w.compiled(fn)
	if c.override != nil {
		if w.eng.overrideActive(w, c) {
			return w.callSSA(caller, c.override, args, nil)
		}
	}
	if c.intrinsic != nil {
		fr := &frame{w: w, caller: caller, fn: c}
		old := w.curFr
		w.curFr = fr
		r := c.intrinsic(fr, args)
		w.curFr = old
		return r
	}
	if c.fast != nil {
		if r, ok := c.fast(args); ok {
			return r
		}
	}
	if c.memo != nil && len(args) == 1 {
		if k, ok := args[0].(string); ok {
			if r, ok := c.memo[k]; ok {
				return r
			}
			// run outside the path's undo log: the result is immutable and shared by all paths
			m := c.memo
			c.memo = nil
			w.initDepth++
			func() {
				defer func() { w.initDepth--; c.memo = m }()
				m[k] = w.callSSA(caller, fn, args, env)
			}()
			return m[k]
		}
	}
	if c.stub {
		return w.stubResult(c, args)
	}
	if c.nobody {
		if w.initDepth > 0 {
			w.eng.warn("init calls %s", c.name)
			return w.zero(c.results)
		}
		w.unsupported("function without body: %s", c.name)
	}
	if w.initDepth > 0 && fn.Synthetic == "package initializer" {
		if caller != nil { // dependency initialisers run lazily
			return nil
		}
	}
	w.callDepth++
	if w.callDepth > 3000 {
		w.unsupported("call depth")
	}
	fr := &frame{w: w, caller: caller, fn: c}
	fr.env = make([]Value, c.nregs)
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	old := w.curFr
	w.curFr = fr
	fr.depth = w.callDepth
	w.run(fr)
	w.curFr = old
	w.callDepth = fr.depth - 1
	return fr.result
}

func (w *Worker) run(fr *frame) {
	if !fr.exec() {
		return
	}
}

// exec runs the frame to completion, handling panics and defers.
func (fr *frame) exec() bool {
	w := fr.w
	if !hasDefer(fr.fn) {
		fr.loop()
		return true
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			w.curFr = fr
			w.callDepth = fr.depth
			fr.panicking = gp
			fr.runDefers()
		}()
		fr.loop()
	}()
	if fr.recovered {
		// panic was recovered: run the recover block to load named results
		fr.recovered = false
		w.curFr = fr
		if fr.fn.recover_ >= 0 {
			fr.prev, fr.block = -1, fr.fn.recover_
			fr.loop()
		} else {
			fr.result = w.zero(fr.fn.results)
		}
	}
	return true
}

func hasDefer(c *cfn) bool { return c.recover_ >= 0 || c.fn.Recover != nil }

// runDefers executes deferred calls; on exit re-panics unless recovered.
func (fr *frame) runDefers() {
	w := fr.w
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				w.curFr = fr
				fr.panicking = gp
				fr.recovered = false
			}()
			depth := w.callDepth
			w.call(fr, d.fn, d.args)
			w.callDepth = depth
		}()
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
}

func (fr *frame) loop() {
	w := fr.w
	var tmp [16]Value
	for {
		b := &fr.fn.blocks[fr.block]
		if len(b.phis) > 0 {
			// find predecessor index
			preds := fr.fn.fn.Blocks[fr.block].Preds
			pi := -1
			for i, p := range preds {
				if p.Index == fr.prev {
					pi = i
					break
				}
			}
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, b.phis[i].edges[pi].get(fr))
			}
			for i := range b.phis {
				fr.env[b.phis[i].dst] = vals[i]
			}
		}
		w.steps += int64(len(b.code)) + 1
		if w.steps > w.eng.MaxSteps && w.initDepth == 0 {
			panic(&abort{kind: "limit", msg: "step limit", pos: w.where()})
		}
		if w.steps > w.nextCheck {
			w.nextCheck = w.steps + 20000
			if w.eng.ex != nil && w.eng.ex.halt.Load() {
				panic(&abort{kind: "halted"})
			}
		}
		jumped := false
		for i, ci := range b.code {
			fr.ip = i
			switch ci(fr) {
			case ctlNext:
			case ctlJump:
				jumped = true
			case ctlReturn:
				return
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("fell off block in " + fr.fn.name)
		}
	}
}

// stubResult gives the zero results of an auto-stubbed call; context arguments pass through to context results.
func (w *Worker) stubResult(c *cfn, args []Value) Value {
	res := c.results
	mk := func(t types.Type) Value {
		if isContext(t) {
			for i, a := range args {
				if f, ok := a.(Iface); ok && f.T != nil {
					var pt types.Type
					if i < len(c.fn.Params) {
						pt = c.fn.Params[i].Type()
					}
					if pt != nil && isContext(pt) {
						return f
					}
				}
			}
		}
		return w.zero(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	tu := make(Tuple, res.Len())
	for i := range tu {
		tu[i] = mk(res.At(i).Type())
	}
	return tu
}

func isContext(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

// ---- instructions

type compiler struct {
	w   *Worker
	fn  *ssa.Function
	op  func(ssa.Value) operand
	idx map[ssa.Value]int
}

// localAlloc tells whether address v certainly points into memory allocated during this path by this function.
func localAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func (cc *compiler) instr(in ssa.Instruction) cinstr {
	w := cc.w
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = cc.idx[v]
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		return cc.unop(in, dst)
	case *ssa.BinOp:
		return cc.binop(in, dst)
	case *ssa.Call:
		return cc.callInstr(&in.Call, dst, in)
	case *ssa.ChangeInterface:
		x := cc.op(in.X)
		return func(fr *frame) int { fr.env[dst] = x.get(fr); return ctlNext }
	case *ssa.ChangeType:
		x := cc.op(in.X)
		return func(fr *frame) int { fr.env[dst] = x.get(fr); return ctlNext }
	case *ssa.Convert:
		x := cc.op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) int { fr.env[dst] = w.convert(x.get(fr), from, to); return ctlNext }
	case *ssa.MultiConvert:
		x := cc.op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) int { fr.env[dst] = w.convert(x.get(fr), from, to); return ctlNext }
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) int { w.unsupported("slice to array pointer"); return ctlNext }
	case *ssa.MakeInterface:
		x := cc.op(in.X)
		t := in.X.Type()
		return func(fr *frame) int { fr.env[dst] = Iface{T: t, V: x.get(fr)}; return ctlNext }
	case *ssa.Extract:
		x := cc.op(in.Tuple)
		i := in.Index
		return func(fr *frame) int { fr.env[dst] = x.get(fr).(Tuple)[i]; return ctlNext }
	case *ssa.Slice:
		return cc.slice(in, dst)
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(fr *frame) int { fr.result = nil; return ctlReturn }
		case 1:
			x := cc.op(in.Results[0])
			return func(fr *frame) int { fr.result = x.get(fr); return ctlReturn }
		}
		var ops []operand
		for _, r := range in.Results {
			ops = append(ops, cc.op(r))
		}
		return func(fr *frame) int {
			t := make(Tuple, len(ops))
			for i := range ops {
				t[i] = ops[i].get(fr)
			}
			fr.result = t
			return ctlReturn
		}
	case *ssa.RunDefers:
		return func(fr *frame) int { fr.runDefers(); return ctlNext }
	case *ssa.Panic:
		x := cc.op(in.X)
		return func(fr *frame) int { panic(&goPanic{v: x.get(fr), where: w.where()}) }
	case *ssa.Send:
		c, x := cc.op(in.Chan), cc.op(in.X)
		return func(fr *frame) int { w.chanSend(c.get(fr).(*Chan), x.get(fr)); w.curFr = fr; return ctlNext }
	case *ssa.Store:
		a, v := cc.op(in.Addr), cc.op(in.Val)
		if localAlloc(in.Addr) {
			return func(fr *frame) int {
				p := a.get(fr).(Ptr)
				if p == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				*p = copyVal(v.get(fr))
				return ctlNext
			}
		}
		return func(fr *frame) int {
			p, ok := a.get(fr).(Ptr)
			if !ok {
				w.unsupported("store through %T", a.get(fr))
			}
			w.store(p, copyVal(v.get(fr)))
			return ctlNext
		}
	case *ssa.If:
		c := cc.op(in.Cond)
		s0, s1 := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		return func(fr *frame) int {
			var t bool
			switch v := c.get(fr).(type) {
			case bool:
				t = v
			default:
				t = w.truth(v)
			}
			fr.prev = fr.block
			if t {
				fr.block = s0
			} else {
				fr.block = s1
			}
			return ctlJump
		}
	case *ssa.Jump:
		s := in.Block().Succs[0].Index
		return func(fr *frame) int { fr.prev, fr.block = fr.block, s; return ctlJump }
	case *ssa.Defer:
		if in.DeferStack != nil {
			return func(fr *frame) int { w.unsupported("defer stack"); return ctlNext }
		}
		prep := cc.prepCall(&in.Call)
		pos := in.Pos()
		return func(fr *frame) int {
			fn, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn, args, pos})
			return ctlNext
		}
	case *ssa.Go:
		prep := cc.prepCall(&in.Call)
		return func(fr *frame) int {
			fn, args := prep(fr)
			w.spawn(fn, args)
			return ctlNext
		}
	case *ssa.MakeChan:
		x := cc.op(in.Size)
		return func(fr *frame) int { fr.env[dst] = &Chan{cap: int(w.concInt(x.get(fr)))}; return ctlNext }
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if isAggregate(t) {
			return func(fr *frame) int { v := w.zero(t); fr.env[dst] = Ptr(&v); return ctlNext }
		}
		z := w.zero(t)
		return func(fr *frame) int { v := z; fr.env[dst] = Ptr(&v); return ctlNext }
	case *ssa.MakeSlice:
		l, c := cc.op(in.Len), cc.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) int {
			n, m := w.concInt(l.get(fr)), w.concInt(c.get(fr))
			if n < 0 || m < n {
				w.rtPanic("makeslice: len out of range")
			}
			if m > 1<<24 {
				w.unsupported("huge slice %d", m)
			}
			s := make(Slice, m)
			z := w.zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
			fr.env[dst] = s[:n]
			return ctlNext
		}
	case *ssa.MakeMap:
		return func(fr *frame) int { fr.env[dst] = w.newMap(); return ctlNext }
	case *ssa.Range:
		x := cc.op(in.X)
		mt, _ := in.X.Type().Underlying().(*types.Map)
		return func(fr *frame) int { fr.env[dst] = w.newIter(x.get(fr), mt); return ctlNext }
	case *ssa.Next:
		x := cc.op(in.Iter)
		return func(fr *frame) int { fr.env[dst] = x.get(fr).(iter).next(w); return ctlNext }
	case *ssa.FieldAddr:
		x := cc.op(in.X)
		f := in.Field
		return func(fr *frame) int {
			p, ok := x.get(fr).(Ptr)
			if !ok {
				w.unsupported("field address of %T", x.get(fr))
			}
			if p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				w.unsupported("field address in %T", *p)
			}
			fr.env[dst] = Ptr(&s[f])
			return ctlNext
		}
	case *ssa.Field:
		x := cc.op(in.X)
		f := in.Field
		return func(fr *frame) int { fr.env[dst] = copyVal(x.get(fr).(Struct)[f]); return ctlNext }
	case *ssa.IndexAddr:
		x, i := cc.op(in.X), cc.op(in.Index)
		return func(fr *frame) int {
			var s []Value
			switch v := x.get(fr).(type) {
			case Slice:
				s = v
			case Ptr:
				if v == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				s = (*v).(Array)
			default:
				w.unsupported("index address of %T", v)
			}
			k := w.index(i.get(fr), len(s))
			fr.env[dst] = Ptr(&s[k])
			return ctlNext
		}
	case *ssa.Index:
		x, i := cc.op(in.X), cc.op(in.Index)
		return func(fr *frame) int {
			switch v := x.get(fr).(type) {
			case Array:
				fr.env[dst] = copyVal(w.indexRead(v, i.get(fr)))
			case string:
				if k, ok := i.get(fr).(int64); ok {
					if k < 0 || k >= int64(len(v)) {
						w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(v)))
					}
					fr.env[dst] = int64(v[k])
					return ctlNext
				}
				fr.env[dst] = w.indexRead(strElems(v), i.get(fr))
			case *SymStr:
				if v.hasAtom() {
					fr.env[dst] = w.atomIndex(v, i.get(fr))
					return ctlNext
				}
				fr.env[dst] = w.indexRead(v.E, i.get(fr))
			default:
				w.unsupported("index of %T", v)
			}
			return ctlNext
		}
	case *ssa.Lookup:
		x, i := cc.op(in.X), cc.op(in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			kt, et := mt.Key(), mt.Elem()
			return func(fr *frame) int {
				m := x.get(fr).(*Map)
				e := w.mapFind(m, i.get(fr), kt)
				var v Value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = w.zero(et)
				}
				if in.CommaOk {
					fr.env[dst] = Tuple{v, e != nil}
				} else {
					fr.env[dst] = v
				}
				return ctlNext
			}
		}
		return func(fr *frame) int {
			fr.env[dst] = w.strIndex(x.get(fr), i.get(fr))
			return ctlNext
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(in.Map), cc.op(in.Key), cc.op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) int {
			w.mapSet(m.get(fr).(*Map), k.get(fr), copyVal(v.get(fr)), kt)
			return ctlNext
		}
	case *ssa.TypeAssert:
		x := cc.op(in.X)
		return func(fr *frame) int { fr.env[dst] = w.typeAssert(in, x.get(fr).(Iface)); return ctlNext }
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []operand
		for _, b := range in.Bindings {
			bs = append(bs, cc.op(b))
		}
		return func(fr *frame) int {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.env[dst] = &Closure{Fn: fn, Env: env}
			return ctlNext
		}
	case *ssa.Select:
		return cc.selectInstr(in, dst)
	}
	return func(fr *frame) int { w.unsupported("instruction %T", in); return ctlNext }
}

func isAggregate(t types.Type) bool {
	if isBigInt(t) {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (w *Worker) strIndex(x, i Value) Value {
	switch v := x.(type) {
	case string:
		if k, ok := i.(int64); ok {
			if k < 0 || k >= int64(len(v)) {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(v)))
			}
			return int64(v[k])
		}
		return w.indexRead(strElems(v), i)
	case *SymStr:
		if v.hasAtom() {
			return w.atomIndex(v, i)
		}
		return w.indexRead(v.E, i)
	}
	w.unsupported("string index of %T", x)
	return nil
}

// index resolves an index, checking bounds and forking over symbolic values.
func (w *Worker) index(i Value, n int) int {
	switch k := i.(type) {
	case int64:
		if k < 0 || k >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	case *sym.Term:
		b := w.bank
		if !w.branch(b.And(b.Le(b.Int64(0), k), b.Lt(k, b.Int64(int64(n))))) {
			w.rtPanic("index out of range [symbolic]")
		}
		for j := 0; j < n-1; j++ {
			if w.branch(b.Eq(k, b.Int64(int64(j)))) {
				return j
			}
		}
		return n - 1
	}
	w.unsupported("index %T", i)
	return 0
}

// indexRead reads s[i]; symbolic indexes over integer tables become if-then-else chains.
func (w *Worker) indexRead(s []Value, i Value) Value {
	if k, ok := i.(*sym.Term); ok && len(s) <= 256 {
		b := w.bank
		allInt := len(s) > 0
		for _, e := range s {
			switch e.(type) {
			case int64:
			default:
				allInt = false
			}
		}
		if allInt {
			if !w.branch(b.And(b.Le(b.Int64(0), k), b.Lt(k, b.Int64(int64(len(s)))))) {
				w.rtPanic("index out of range [symbolic]")
			}
			// runs of equal values
			r := b.Int64(s[len(s)-1].(int64))
			for j := len(s) - 2; j >= 0; j-- {
				v := s[j].(int64)
				if v == s[j+1].(int64) {
					continue
				}
				r = b.Ite(b.Le(k, b.Int64(int64(j))), b.Int64(v), r)
			}
			return w.intVal(r)
		}
	}
	return s[w.index(i, len(s))]
}

func (cc *compiler) slice(in *ssa.Slice, dst int) cinstr {
	w := cc.w
	x := cc.op(in.X)
	var lo, hi, mx *operand
	if in.Low != nil {
		o := cc.op(in.Low)
		lo = &o
	}
	if in.High != nil {
		o := cc.op(in.High)
		hi = &o
	}
	if in.Max != nil {
		o := cc.op(in.Max)
		mx = &o
	}
	return func(fr *frame) int {
		v := x.get(fr)
		var l, c int
		var sl Slice
		var str Value
		switch v := v.(type) {
		case string:
			l, c = len(v), len(v)
			str = v
		case *SymStr:
			if v.hasAtom() {
				if hi == nil && (lo == nil || lo.get(fr) == int64(0)) {
					fr.env[dst] = v
					return ctlNext
				}
				fr.env[dst] = w.sliceAtoms(v, lo, hi, fr)
				return ctlNext
			}
			l, c = len(v.E), len(v.E)
			str = v
		case Slice:
			sl, l, c = v, len(v), cap(v)
		case Ptr:
			if v == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*v).(Array)
			sl, l, c = Slice(a), len(a), len(a)
		default:
			w.unsupported("slice of %T", v)
		}
		a, b, m := 0, l, c
		if lo != nil {
			a = int(w.concInt(lo.get(fr)))
		}
		if hi != nil {
			b = int(w.concInt(hi.get(fr)))
		}
		if mx != nil {
			m = int(w.concInt(mx.get(fr)))
		}
		if a < 0 || b < a || b > c || m > c || b > m {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", a, b, c))
		}
		if str != nil {
			if s, ok := str.(string); ok {
				fr.env[dst] = s[a:b]
			} else {
				fr.env[dst] = normStr(str.(*SymStr).E[a:b])
			}
			return ctlNext
		}
		if sl == nil {
			fr.env[dst] = Slice(nil)
			return ctlNext
		}
		fr.env[dst] = sl[a:b:m]
		return ctlNext
	}
}

// sliceAtoms slices a string containing unknown-length parts when the bounds fall on element boundaries.
func (w *Worker) sliceAtoms(v *SymStr, lo, hi *operand, fr *frame) Value {
	a, b := 0, len(v.E)
	ok1, ok2 := true, true
	if lo != nil {
		a, ok1 = w.atomPos(v.E, lo.get(fr))
	}
	if hi != nil {
		b, ok2 = w.atomPos(v.E, hi.get(fr))
	}
	if !ok1 || !ok2 {
		w.unsupported("slice inside unknown-length part of %s", v)
	}
	if a > b {
		w.rtPanic("slice bounds out of range")
	}
	return normStr(v.E[a:b])
}

// atomPos finds the element boundary at the given byte offset.
func (w *Worker) atomPos(e []Value, off Value) (int, bool) {
	o := w.intTerm(off, types.Typ[types.Int])
	p := w.bank.Int64(0)
	for j := 0; ; j++ {
		if d := w.bank.Sub(o, p); d.IsConst() && d.C.Sign() == 0 {
			return j, true
		}
		if j == len(e) {
			return 0, false
		}
		p = w.bank.Add(p, w.intTerm(w.lenOf(&SymStr{E: e[j : j+1]}), types.Typ[types.Int]))
	}
}

// affix reports whether text ends (or begins) with the given plain text; ok is false when that cannot be told.
func (w *Worker) affix(s, fix []Value, suffix bool) (t *sym.Term, ok bool) {
	t = w.bank.True
	for k := range fix {
		i, f := k, fix[k]
		if suffix {
			i, f = len(s)-1-k, fix[len(fix)-1-k]
		}
		if i < 0 || i >= len(s) {
			return w.bank.False, true
		}
		at, isAtom := s[i].(*Atom)
		if !isAtom {
			t = w.bank.And(t, w.strEq(s[i:i+1], []Value{f}))
			if t.IsFalse() {
				return t, true
			}
			continue
		}
		c, conc := f.(int64)
		if conc && at.Len != 0 && (at.Kind == "dec" || at.Kind == "fdec" || at.Kind == "fun") && !(c >= '0' && c <= '9' || c == '-' || c == '.' || c == '+' || c == 'e' || c == 'N' || c == 'a' || c == 'I' || c == 'n' || c == 'f') {
			return w.bank.False, true
		}
		return nil, false
	}
	return t, true
}

// prepCall evaluates callee and arguments.
func (cc *compiler) prepCall(c *ssa.CallCommon) func(fr *frame) (Value, []Value) {
	w := cc.w
	var ops []operand
	for _, a := range c.Args {
		ops = append(ops, cc.op(a))
	}
	v := cc.op(c.Value)
	if c.IsInvoke() {
		m := c.Method
		return func(fr *frame) (Value, []Value) {
			args := make([]Value, 1, len(ops)+1)
			recv := v.get(fr).(Iface)
			for i := range ops {
				args = append(args, copyVal(ops[i].get(fr)))
			}
			fn := w.method(recv, m, c.Value.Type())
			args[0] = recv.V
			return fn, args
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var ts []types.Type
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		return func(fr *frame) (Value, []Value) {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			return &NativeFunc{Name: b.Name(), F: func(fr *frame, args []Value) Value { return w.builtin(fr, b, args, ts) }}, args
		}
	}
	return func(fr *frame) (Value, []Value) {
		args := make([]Value, len(ops))
		for i := range ops {
			args[i] = copyVal(ops[i].get(fr))
		}
		return v.get(fr), args
	}
}

func (cc *compiler) callInstr(c *ssa.CallCommon, dst int, in ssa.Instruction) cinstr {
	w := cc.w
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var ops []operand
		var ts []types.Type
		for _, a := range c.Args {
			ops = append(ops, cc.op(a))
			ts = append(ts, a.Type())
		}
		return func(fr *frame) int {
			args := make([]Value, len(ops))
			for i := range ops {
				args[i] = ops[i].get(fr)
			}
			fr.env[dst] = w.builtin(fr, b, args, ts)
			return ctlNext
		}
	}
	prep := cc.prepCall(c)
	return func(fr *frame) int {
		fn, args := prep(fr)
		r := w.call(fr, fn, args)
		w.curFr = fr
		fr.env[dst] = r
		return ctlNext
	}
}

// method finds the concrete method of an interface call.
func (w *Worker) method(recv Iface, m *types.Func, it types.Type) Value {
	if recv.T == nil {
		if w.eng.stubIface(it) {
			sig := m.Type().(*types.Signature)
			return &NativeFunc{Name: m.Name(), F: func(fr *frame, args []Value) Value {
				c := &cfn{results: sig.Results()}
				return w.stubIfaceResult(c, sig, args[1:])
			}}
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if nt, ok := recv.T.(*types.Named); ok && nt == w.eng.nativeErrT {
		_ = nt
	}
	return w.lookupMethod(recv.T, m)
}

func (w *Worker) stubIfaceResult(c *cfn, sig *types.Signature, args []Value) Value {
	mk := func(t types.Type) Value {
		if isContext(t) {
			for i := 0; i < sig.Params().Len() && i < len(args); i++ {
				if isContext(sig.Params().At(i).Type()) {
					return args[i]
				}
			}
		}
		return w.zero(t)
	}
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	tu := make(Tuple, res.Len())
	for i := range tu {
		tu[i] = mk(res.At(i).Type())
	}
	return tu
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methC[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		w.unsupported("no method %s on %s", m.Name(), t)
	}
	w.methC[k] = f
	return f
}

// implements caches interface satisfaction.
func (w *Worker) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if b, ok := w.implC[k]; ok {
		return b
	}
	b := types.Implements(t, it)
	w.implC[k] = b
	return b
}

func (w *Worker) sameType(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.T != nil && w.implements(x.T, it, in.AssertedType) {
			ok, v = true, x
		}
	} else if x.T != nil && w.sameType(x.T, in.AssertedType) {
		ok, v = true, copyVal(x.V)
	}
	if in.CommaOk {
		if !ok {
			v = w.zero(in.AssertedType)
		}
		return Tuple{v, ok}
	}
	if !ok {
		d := "nil"
		if x.T != nil {
			d = x.T.String()
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
	}
	return v
}

// ---- iterators

type iter interface{ next(w *Worker) Value }

type strIter struct {
	s string
	i int
}

func (it *strIter) next(w *Worker) Value {
	if it.i >= len(it.s) {
		return Tuple{false, int64(0), int64(0)}
	}
	for j, r := range it.s[it.i:] {
		_ = j
		p := it.i
		n := len(string(r))
		if r == 0xFFFD {
			// invalid byte advances by one; a literal U+FFFD by three
			if strings.HasPrefix(it.s[it.i:], "\uFFFD") {
				n = 3
			} else {
				n = 1
			}
		}
		it.i += n
		return Tuple{true, int64(p), int64(r)}
	}
	return nil
}

type symStrIter struct {
	e []Value
	i int
}

func (it *symStrIter) next(w *Worker) Value {
	if it.i >= len(it.e) {
		return Tuple{false, int64(0), int64(0)}
	}
	switch b := it.e[it.i].(type) {
	case int64:
		if b >= 0x80 {
			for j := it.i + 1; j < len(it.e) && j < it.i+4; j++ {
				if _, ok := it.e[j].(*sym.Term); ok {
					return it.decode(w)
				}
			}
			// decode a concrete multi-byte rune when all its bytes are concrete
			var bs []byte
			for j := it.i; j < len(it.e) && j < it.i+4; j++ {
				c, ok := it.e[j].(int64)
				if !ok {
					break
				}
				bs = append(bs, byte(c))
			}
			si := &strIter{s: string(bs)}
			t := si.next(w).(Tuple)
			p := it.i
			it.i += si.i
			return Tuple{true, int64(p), t[2]}
		}
		it.i++
		return Tuple{true, int64(it.i - 1), b}
	case *sym.Term:
		return it.decode(w)
	}
	w.unsupported("range over string with unknown-length part")
	return nil
}

// decode reads one rune from bytes of which some are symbolic.
func (it *symStrIter) decode(w *Worker) Value {
	p := it.i
	at := func(j int) *sym.Term {
		if p+j >= len(it.e) {
			return nil
		}
		switch b := it.e[p+j].(type) {
		case int64:
			return w.bank.Int64(b)
		case *sym.Term:
			return b
		}
		w.unsupported("range over string with unknown-length part")
		return nil
	}
	in := func(j int, lo, hi int64) bool {
		t := at(j)
		return t != nil && w.branch(w.bank.And(w.bank.Le(w.bank.Int64(lo), t), w.bank.Le(t, w.bank.Int64(hi))))
	}
	rune := func(n int, lead int64) Value {
		it.i += n
		r := w.bank.Sub(at(0), w.bank.Int64(lead))
		for j := 1; j < n; j++ {
			r = w.bank.Add(w.bank.Scale(r, big.NewInt(64)), w.bank.Sub(at(j), w.bank.Int64(0x80)))
		}
		return Tuple{true, int64(p), w.intVal(r)}
	}
	switch {
	case in(0, 0, 0x7f):
		it.i++
		return Tuple{true, int64(p), it.e[p]}
	case in(0, 0xC2, 0xDF):
		if in(1, 0x80, 0xBF) {
			return rune(2, 0xC0)
		}
	case in(0, 0xE0, 0xEF):
		var ok bool
		switch {
		case in(0, 0xE0, 0xE0):
			ok = in(1, 0xA0, 0xBF)
		case in(0, 0xED, 0xED):
			ok = in(1, 0x80, 0x9F)
		default:
			ok = in(1, 0x80, 0xBF)
		}
		if ok && in(2, 0x80, 0xBF) {
			return rune(3, 0xE0)
		}
	case in(0, 0xF0, 0xF4):
		var ok bool
		switch {
		case in(0, 0xF0, 0xF0):
			ok = in(1, 0x90, 0xBF)
		case in(0, 0xF4, 0xF4):
			ok = in(1, 0x80, 0x8F)
		default:
			ok = in(1, 0x80, 0xBF)
		}
		if ok && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF) {
			return rune(4, 0xF0)
		}
	}
	it.i++
	return Tuple{true, int64(p), int64(0xFFFD)}
}

type mapIter struct {
	m    *Map
	todo []*mapEntry
}

func (it *mapIter) next(w *Worker) Value {
	for len(it.todo) > 0 {
		i := 0
		if w.mapND && w.initDepth == 0 {
			live := it.todo[:0]
			for _, e := range it.todo {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.todo = live
			if len(it.todo) == 0 {
				break
			}
			if len(it.todo) <= 4 {
				i = w.choose(len(it.todo))
			}
		}
		e := it.todo[i]
		it.todo = append(append([]*mapEntry{}, it.todo[:i]...), it.todo[i+1:]...)
		if e.dead {
			continue
		}
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{false, nil, nil}
}

func (w *Worker) newIter(x Value, mt *types.Map) iter {
	switch v := x.(type) {
	case string:
		return &strIter{s: v}
	case *SymStr:
		return &symStrIter{e: v.E}
	case *Map:
		if v == nil {
			return &mapIter{}
		}
		return &mapIter{m: v, todo: append([]*mapEntry{}, v.ents...)}
	}
	w.unsupported("range over %T", x)
	return nil
}

// ---- builtins

func (w *Worker) lenOf(v Value) Value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *SymStr:
		n := int64(0)
		for _, e := range v.E {
			if a, ok := e.(*Atom); ok {
				if a.Len < 0 {
					return w.atomLen(v.E)
				}
				n += int64(a.Len)
			} else {
				n++
			}
		}
		return n
	case Slice:
		n := int64(0)
		for _, e := range v {
			if a, ok := e.(*Atom); ok {
				if a.Len < 0 {
					return w.atomLen(v)
				}
				n += int64(a.Len)
			} else {
				n++
			}
		}
		return n
	case Array:
		return int64(len(v))
	case Ptr:
		return int64(len((*v).(Array)))
	case *Map:
		if v == nil {
			return int64(0)
		}
		return int64(v.n)
	case *Chan:
		if v == nil {
			return int64(0)
		}
		return int64(len(v.buf))
	}
	w.unsupported("len of %T", v)
	return nil
}

// atomLen gives a symbolic length for byte sequences with unknown-length parts (each part at least 1, at most 64 bytes).
func (w *Worker) atomLen(e []Value) Value {
	t := w.bank.Int64(0)
	for _, x := range e {
		if a, ok := x.(*Atom); ok && a.Len < 0 {
			k := [2]any{"atomlen", a}
			l, ok := w.side[k].(*sym.Term)
			if !ok {
				if a.Kind == "dec" {
					l = w.decLen(a.T)
				} else if a.Kind == "sdigits" {
					// the digits of T less the zeros that end its last K places
					l = w.decLen(a.T)
					for j := 1; j <= a.K; j++ {
						l = w.bank.Sub(l, w.bank.Ite(w.bank.Eq(w.bank.Mod(a.T, w.bank.IntC(pow10(j))), w.bank.Int64(0)), w.bank.Int64(1), w.bank.Int64(0)))
					}
				} else {
					l = w.fresh("len", sym.Int, big.NewInt(1), big.NewInt(64))
				}
				w.side[k] = l
			}
			t = w.bank.Add(t, l)
		} else if ok {
			t = w.bank.Add(t, w.bank.Int64(int64(a.Len)))
		} else {
			t = w.bank.Add(t, w.bank.Int64(1))
		}
	}
	return w.intVal(t)
}

// decLen is the exact length of the decimal rendering of t (up to 40 digits).
func (w *Worker) decLen(t *sym.Term) *sym.Term {
	b := w.bank
	abs := t
	r := b.Int64(1)
	p := big.NewInt(10)
	if t.Lo == nil || t.Lo.Sign() < 0 {
		abs = b.Ite(b.Lt(t, b.Int64(0)), b.Neg(t), t)
		r = b.Ite(b.Lt(t, b.Int64(0)), b.Int64(2), b.Int64(1))
	}
	for i := 1; i < 40; i++ {
		r = b.Add(r, b.Ite(b.Le(b.IntC(new(big.Int).Set(p)), abs), b.Int64(1), b.Int64(0)))
		p = new(big.Int).Mul(p, big.NewInt(10))
		if t.Hi != nil && t.Lo != nil && p.Cmp(t.Hi) > 0 && new(big.Int).Neg(p).Cmp(t.Lo) < 0 {
			break
		}
	}
	return r
}

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []Value, ts []types.Type) Value {
	switch b.Name() {
	case "len":
		return w.lenOf(args[0])
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return int64(cap(v))
		case Array:
			return int64(len(v))
		case Ptr:
			return int64(len((*v).(Array)))
		case *Chan:
			if v == nil {
				return int64(0)
			}
			return int64(v.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(Slice)
		var add []Value
		switch v := args[1].(type) {
		case string, *SymStr:
			add = strElems(v)
		case Slice:
			add = v
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			for i, v := range add {
				if w.initDepth == 0 {
					w.undo = append(w.undo, undoEnt{&r[len(s)+i], r[len(s)+i]})
				}
				r[len(s)+i] = copyVal(v)
			}
			return r
		}
		c := cap(s) * 2
		if c < n {
			c = n
		}
		if c < 4 {
			c = 4
		}
		r := make(Slice, n, c)
		copy(r, s)
		for i, v := range add {
			r[len(s)+i] = copyVal(v)
		}
		if c > n { // spare capacity must hold proper zero values
			var z Value
			if ts != nil {
				z = w.zero(ts[0].Underlying().(*types.Slice).Elem())
			}
			full := r[:c]
			for i := n; i < c; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case string, *SymStr:
			src = strElems(v)
		case Slice:
			src = v
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if w.initDepth == 0 {
				w.undo = append(w.undo, undoEnt{&d[i], d[i]})
			}
			d[i] = tmp[i]
		}
		return int64(n)
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			w.mapDelete(m, args[1], ts[0].Underlying().(*types.Map).Key())
		}
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				for _, e := range append([]*mapEntry{}, v.ents...) {
					w.mapDelete(v, e.k, ts[0].Underlying().(*types.Map).Key())
				}
			}
		case Slice:
			z := w.zero(ts[0].Underlying().(*types.Slice).Elem())
			for i := range v {
				w.store(&v[i], copyVal(z))
			}
		}
		return nil
	case "close":
		w.chanClose(args[0].(*Chan))
		return nil
	case "panic":
		panic(&goPanic{v: args[0], where: w.where()})
	case "recover":
		// called by the deferred function; its caller frame is the panicking one
		if fr != nil && fr.caller != nil && fr.caller.panicking != nil && !fr.caller.recovered {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			fr.caller.recovered = true
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := w.binopVal(token.LSS, ts[0], a, r)
			if b.Name() == "max" {
				lt = w.binopVal(token.LSS, ts[0], r, a)
			}
			if t, ok := lt.(*sym.Term); ok {
				ra, ok1 := a.(*sym.Term)
				rr, ok2 := r.(*sym.Term)
				if _, _, isInt := intInfo(ts[0]); isInt && (ok1 || ok2) {
					ra, rr = w.intTerm(a, ts[0]), w.intTerm(r, ts[0])
					r = w.intVal(w.bank.Ite(t, ra, rr))
					continue
				}
			}
			if w.truth(lt) {
				r = a
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr(nil)
	case "String": // unsafe.String(ptr, len)
		if n, ok := args[1].(int64); ok && n >= 0 {
			if n == 0 {
				return ""
			}
			return normStr(append([]Value{}, unsafe.Slice(args[0].(Ptr), int(n))...))
		}
	case "Slice":
		if n, ok := args[1].(int64); ok && n >= 0 {
			p, ok := args[0].(Ptr)
			if !ok || p == nil {
				return Slice(nil)
			}
			return Slice(unsafe.Slice(p, int(n)))
		}
	case "StringData":
		e := strElems(args[0])
		if len(e) == 0 {
			return Ptr(nil)
		}
		for _, x := range e {
			if _, ok := x.(*Atom); ok {
				w.unsupported("StringData of a text with unknown parts")
			}
		}
		e = append([]Value{}, e...)
		return Ptr(&e[0])
	case "SliceData":
		if s, ok := args[0].(Slice); ok && cap(s) > 0 {
			return Ptr(&s[:1][0])
		}
	}
	w.unsupported("builtin %s", b.Name())
	return nil
}

func (w *Worker) atomIndex(v *SymStr, i Value) Value {
	j, ok := w.atomPos(v.E, i)
	if ok && j < len(v.E) {
		if _, isAtom := v.E[j].(*Atom); !isAtom {
			return v.E[j]
		}
	}
	w.unsupported("index inside unknown-length part of %s", v)
	return nil
}
