package interp

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"verif/engine/sym"
)

// Engine holds the loaded program; it is shared by all workers.
type Engine struct {
	Prog       *ssa.Program
	Fset       *token.FileSet
	Pkgs       map[string]*ssa.Package
	ByTypes    map[*types.Package]*ssa.Package
	overrides  map[string]*ssa.Function
	memoFns    map[string]bool
	Thorough   bool
	rtErr      types.Type
	nativeErrT types.Type
	MaxSteps   int64
	SolverMS   int
	SolverCmd  []string
	Stubs      []string
	ModulePath string

	ex *Explorer

	mu        sync.Mutex
	buildMu   sync.Mutex
	methMu    sync.Mutex
	encoded   map[string]bool
	warns     map[string]int
	forks     map[string]int
	asserts   map[string]*AssertStat
	floatRnd  int64
	LoadTime  time.Duration
	LoadErrs  []string
}

type AssertStat struct {
	Folded  int // decided by simplification
	Solver  int // decided by the solver
	Unknown int
}

var DefaultStubs = []string{
	"go.opentelemetry.io/", "github.com/sirupsen/logrus", "github.com/prometheus/", "google.golang.org/grpc",
	"log", "log/slog", "runtime/debug", "runtime/pprof", "runtime/trace", "internal/godebug", "internal/race", "github.com/posthog/",
}

type LoadConfig struct {
	Dir      string
	Patterns []string
	Overlay  map[string][]byte
	Env      []string
	Tags     string
}

// Load type-checks the patterns with all dependencies from source and prepares SSA.
func Load(c LoadConfig) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.Dir, Overlay: c.Overlay, Env: c.Env}
	if c.Tags != "" {
		cfg.BuildFlags = []string{"-tags=" + c.Tags}
	}
	ps, err := packages.Load(cfg, c.Patterns...)
	if err != nil {
		return nil, err
	}
	e := &Engine{Pkgs: map[string]*ssa.Package{}, ByTypes: map[*types.Package]*ssa.Package{}, overrides: map[string]*ssa.Function{}, memoFns: map[string]bool{}, MaxSteps: 30_000_000, SolverMS: 20000,
		encoded: map[string]bool{}, warns: map[string]int{}, forks: map[string]int{}, asserts: map[string]*AssertStat{}, Stubs: DefaultStubs,
		ModulePath: "github.com/blnkfinance/blnk"}
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			e.LoadErrs = append(e.LoadErrs, p.PkgPath+": "+er.Error())
		}
	})
	if len(e.LoadErrs) > 0 {
		return e, fmt.Errorf("load: %s", strings.Join(e.LoadErrs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BareInits*0)
	e.Prog = prog
	e.Fset = prog.Fset
	for _, p := range prog.AllPackages() {
		e.Pkgs[p.Pkg.Path()] = p
		e.ByTypes[p.Pkg] = p
	}
	prog.Build()
	if rt := e.Pkgs["runtime"]; rt != nil {
		e.rtErr = rt.Type("errorString").Type()
	}
	// override directives in harness packages
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, e.ModulePath) {
			return
		}
		sp := e.Pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if c.Text == "//verif:memo" {
						if fn := sp.Func(fd.Name.Name); fn != nil {
							e.memoFns[fn.String()] = true
						}
					}
					if rest, ok := strings.CutPrefix(c.Text, "//go:linkname "); ok && fd.Body == nil {
						// a function of another package pulled in by name
						if w := strings.Fields(rest); len(w) == 2 {
							i := strings.LastIndex(w[1], ".")
							if tp := e.Pkgs[w[1][:max(i, 0)]]; i > 0 && tp != nil && tp.Func(w[1][i+1:]) != nil {
								e.overrides[sp.Func(fd.Name.Name).String()] = tp.Func(w[1][i+1:])
							}
						}
					}
					if rest, ok := strings.CutPrefix(c.Text, "//verif:override "); ok {
						if fn := sp.Func(fd.Name.Name); fn != nil {
							e.overrides[strings.TrimSpace(rest)] = fn
						}
					}
				}
			}
		}
	})
	e.LoadTime = time.Since(t0)
	return e, nil
}

func (e *Engine) buildPkg(fn *ssa.Function) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.Prog.MethodValue(sel)
}

func (e *Engine) stubPath(path string) bool {
	for _, s := range e.Stubs {
		if strings.HasSuffix(s, "/") && strings.HasPrefix(path, s) || path == s || strings.HasPrefix(path, s+"/") && s != "log" {
			return true
		}
	}
	return false
}

func (e *Engine) autoStub(fn *ssa.Function, name string) bool {
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		p = o.Pkg()
	}
	if p == nil && fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			p = n.Obj().Pkg()
		}
	}
	return p != nil && e.stubPath(p.Path())
}

func (e *Engine) stubIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && e.stubPath(n.Obj().Pkg().Path())
}

// skipInit lists packages whose initialisers are not run (their globals stay zero).
func (e *Engine) skipInit(path string) bool {
	if e.stubPath(path) {
		return true
	}
	switch path {
	case "runtime", "os", "syscall", "internal/poll", "net", "crypto/tls", "crypto/x509", "internal/cpu", "reflect", "internal/reflectlite", "internal/testlog",
		"os/signal", "os/user", "crypto/internal/fips140", "testing", "flag", "internal/sysinfo":
		return true
	}
	return strings.HasPrefix(path, "crypto/internal/") || strings.HasPrefix(path, "internal/runtime") || strings.HasPrefix(path, "runtime/")
}

func (e *Engine) overrideActive(w *Worker, c *cfn) bool { return true }

func (e *Engine) noteEncoded(name string) {
	e.mu.Lock()
	e.encoded[name] = true
	e.mu.Unlock()
}

func (e *Engine) warn(f string, a ...any) {
	e.mu.Lock()
	e.warns[fmt.Sprintf(f, a...)]++
	e.mu.Unlock()
}

func (e *Engine) noteFork(w *Worker) {
	p := w.eng.Fset.Position(w.curFr.pos())
	k := fmt.Sprintf("%s %s:%d", w.curFr.fn.fn.Name(), p.Filename, p.Line)
	e.mu.Lock()
	e.forks[k]++
	e.mu.Unlock()
}

func (e *Engine) countAssert(label string, folded bool) {
	e.mu.Lock()
	s := e.asserts[label]
	if s == nil {
		s = &AssertStat{}
		e.asserts[label] = s
	}
	if folded {
		s.Folded++
	} else {
		s.Solver++
	}
	e.mu.Unlock()
}

func (e *Engine) noteUnknownAssert(w *Worker, label string) {
	e.mu.Lock()
	e.asserts[label].Unknown++
	e.mu.Unlock()
	w.note("assertion undecided: " + label)
}

func (e *Engine) noteFloatRounding() { atomic.AddInt64(&e.floatRnd, 1) }

func (e *Engine) TopForks(n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range e.forks {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	var r []string
	for i := 0; i < n && i < len(l); i++ {
		r = append(r, fmt.Sprintf("%d %s", l[i].v, l[i].k))
	}
	return r
}

func (e *Engine) Encoded() []string { return sortedKeys(e.encoded) }
func (e *Engine) Warns() []string   { return sortedKeys(e.warns) }

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{eng: e, id: id, epoch: 1, bank: sym.NewBank(), globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{}, code: map[*ssa.Function]*cfn{},
		consts: map[*ssa.Const]Value{}, tkeys: map[types.Type]string{}, implC: map[[2]types.Type]bool{}, methC: map[methKey]*ssa.Function{}, rtypes: map[any]Ptr{}, jfields: map[*types.Struct][]jsonField{}}
	w.zeroBig = w.bank.IntC(new(big.Int))
	w.solver = sym.NewSolver(w.bank, e.SolverMS, e.SolverCmd...)
	if f := os.Getenv("VERIF_SMTLOG"); f != "" {
		fh, err := os.Create(fmt.Sprintf("%s.%d", f, id))
		if err == nil {
			w.solver.Log = fh
		}
	}
	return w
}

// ---- exploration

type Explorer struct {
	eng     *Engine
	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]int32
	active  int
	stop    bool
	halt    atomic.Bool
	Timeout time.Duration
	MaxPaths int
	Workers int
	NSamples int
	StopOnViolation bool

	Result *Result
	h      *ssa.Function
	start  time.Time
}

type Result struct {
	Harness    string
	Paths      int
	Kinds      map[string]int
	Msgs       map[string]int
	Inconcl    map[string]int
	Reached    map[string]bool
	Violations []*Violation
	Samples    []*Sample
	Steps      int64
	MaxDecs    int
	Asserts    int
	Complete   bool
	Queries    int
	NSat, NUnsat, NUnk int
	SolverTime time.Duration
	MaxQuery   time.Duration
	SolverErrs []string
	Wall       time.Duration
	Left       int
}

func (x *Explorer) push(p []int32) {
	x.mu.Lock()
	x.queue = append(x.queue, p)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) foundViolation(w *Worker, v *Violation) {
	x.mu.Lock()
	defer x.mu.Unlock()
	n := 0
	for _, o := range x.Result.Violations {
		if o.Label == v.Label {
			n++
		}
	}
	if n < 12 {
		x.Result.Violations = append(x.Result.Violations, v)
	}
}

// Explore runs all paths of harness h within the limits.
func (e *Engine) Explore(h *ssa.Function, x *Explorer) *Result {
	x.eng = e
	x.h = h
	x.cond = sync.NewCond(&x.mu)
	x.start = time.Now()
	x.Result = &Result{Harness: h.Name(), Kinds: map[string]int{}, Msgs: map[string]int{}, Inconcl: map[string]int{}, Reached: map[string]bool{}}
	e.ex = x
	x.queue = [][]int32{nil}
	var wg sync.WaitGroup
	for i := 0; i < x.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := e.newWorker(i)
			defer w.solver.Close()
			x.work(w)
			x.mu.Lock()
			r := x.Result
			r.Queries += w.solver.Queries
			r.NSat += w.solver.NSat
			r.NUnsat += w.solver.NUnsat
			r.NUnk += w.solver.NUnk
			r.SolverTime += w.solver.Time
			if w.solver.MaxTime > r.MaxQuery {
				r.MaxQuery = w.solver.MaxTime
			}
			r.SolverErrs = append(r.SolverErrs, w.solver.Errors...)
			x.mu.Unlock()
		}(i)
	}
	if x.Timeout > 0 {
		t := time.AfterFunc(x.Timeout, func() { x.halt.Store(true); x.mu.Lock(); x.stop = true; x.mu.Unlock(); x.cond.Broadcast() })
		defer t.Stop()
	}
	wg.Wait()
	x.Result.Left = len(x.queue)
	x.Result.Complete = len(x.queue) == 0 && !x.stop
	x.Result.Wall = time.Since(x.start)
	return x.Result
}

func (x *Explorer) work(w *Worker) {
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.active > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.queue) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		p := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.active++
		want := len(x.Result.Samples) < x.NSamples
		x.mu.Unlock()

		r := w.RunPath(x.h, p, want)

		x.mu.Lock()
		x.active--
		if r.Kind == "halted" {
			x.queue = append(x.queue, p)
			x.mu.Unlock()
			x.cond.Broadcast()
			continue
		}
		res := x.Result
		res.Paths++
		res.Kinds[r.Kind]++
		if r.Kind != "ok" && r.Kind != "infeasible" && r.Kind != "done" {
			res.Msgs[r.Kind+": "+r.Msg]++
		}
		for _, s := range r.Inconcl {
			res.Inconcl[s]++
		}
		for k := range r.Reached {
			res.Reached[k] = true
		}
		if r.Sample != nil && len(res.Samples) < x.NSamples {
			res.Samples = append(res.Samples, r.Sample)
		}
		res.Steps += r.Steps
		res.Asserts += r.Asserts
		if r.Decs > res.MaxDecs {
			res.MaxDecs = r.Decs
		}
		if x.MaxPaths > 0 && res.Paths >= x.MaxPaths {
			x.stop = true
		}
		if x.StopOnViolation && len(res.Violations) > 0 {
			x.stop = true
		}
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}
