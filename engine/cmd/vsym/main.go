// Command vsym runs bounded symbolic checks of the repository's Go code.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/engine/interp"
)

var (
	repo  = env("VSYM_REPO", "/repo") // elsewhere only while developing
	verif = "/verif"
)

type Harness struct {
	Func      string `json:"func"`
	Quick     int    `json:"quick_s"`
	Thorough  int    `json:"thorough_s"`
	SkipQuick bool   `json:"thorough_only"`
	What      string `json:"what"`
	Bounds    string `json:"bounds"`
	Reach     []string `json:"reach"`
	SolverMS  int    `json:"solver_ms"`
	NoReplay  bool   `json:"no_sample_replay"`
	Package   string `json:"package"` // overrides the check's package ("." is the root)
}

type Check struct {
	Property    string    `json:"property"`
	Package     string    `json:"package"` // directory below the repository
	Files       []string  `json:"files"`   // harness files, relative to /verif/harness; the directory part names the overlay directory
	Harnesses   []Harness `json:"harnesses"`
	Level       string    `json:"level"`
	Assumptions []string  `json:"assumptions"`
	Outside     string    `json:"outside"`
}

type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

type Known struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym check|run ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "", "")
	harness := fs.String("harness", "", "only harnesses whose name contains this")
	timeout := fs.Int("timeout", 0, "")
	workers := fs.Int("workers", 8, "")
	verbose := fs.Bool("v", false, "")
	noreplay := fs.Bool("noreplay", false, "")
	samples := fs.Int("samples", 3, "")
	cpuprof := fs.String("cpuprofile", "", "")
	solver := fs.String("solver", "", "")
	maxPaths := fs.Int("maxpaths", 0, "")
	fs.StringVar(&repo, "repo", repo, "")
	fs.StringVar(&verif, "verif", verif, "")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var checks []Check
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(0)
	}
	if err := json.Unmarshal(b, &checks); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		os.Exit(0)
	}
	code := 0
	for i := range checks {
		if checks[i].Property == *prop {
			r := &runner{c: &checks[i], tier: *tier, only: *harness, timeout: *timeout, workers: *workers, verbose: *verbose, noreplay: *noreplay, nsamples: *samples, maxPaths: *maxPaths, dev: os.Args[1] == "run"}
			if *solver != "" {
				r.solver = strings.Fields(*solver)
			}
			code = r.run()
		}
	}
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type runner struct {
	c        *Check
	tier     string
	only     string
	timeout  int
	workers  int
	verbose  bool
	noreplay bool
	dev      bool
	nsamples int
	maxPaths int
	solver   []string
	tmp      string
	overlay  map[string]string

	builds map[string]*nativeBuild
}

type nativeBuild struct {
	once sync.Once
	bin  string
	err  error
	log  string
}

// repoEnv is the environment of the repository's own build.
func repoEnv() []string {
	env := []string{"HOME=/root", "TZ=UTC", "PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOROOT=/opt/veriftools/go1.25.14",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "CGO_ENABLED=1"}
	if t := os.Getenv("TMPDIR"); t != "" {
		env = append(env, "TMPDIR="+t)
	}
	return env
}

func (r *runner) run() int {
	t0 := time.Now()
	c := r.c
	var err error
	r.tmp, err = os.MkdirTemp("", "vsym")
	if err != nil {
		fmt.Println("note: no scratch directory:", err)
		return 0
	}
	defer os.RemoveAll(r.tmp)
	r.overlay = map[string]string{}
	contents := map[string][]byte{}
	fail := func(why string) int {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", c.Property, why)
		r.evidence(t0, nil, nil, 0, 0, nil, []string{why}, nil)
		return 0
	}
	files := append([]string{"internal/vf/vf.go"}, c.Files...)
	for _, f := range files {
		src := filepath.Join(verif, "harness", f)
		if f == "internal/vf/vf.go" {
			src = filepath.Join(verif, "harness", "vf", "vf.go")
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return fail("missing harness file " + src)
		}
		dst := filepath.Join(repo, filepath.Dir(f), "zz_verif_"+filepath.Base(f))
		if lib, ok := strings.CutPrefix(f, "lib/"); ok {
			dst = filepath.Join(repo, "internal", lib)
		}
		r.overlay[dst] = src
		contents[dst] = b
	}
	// native replay drivers, one per package
	if c.Package == "." {
		c.Package = ""
	}
	byPkg := map[string][]string{}
	var pkgs []string
	for i := range c.Harnesses {
		h := &c.Harnesses[i]
		switch h.Package {
		case "":
			h.Package = c.Package
		case ".":
			h.Package = ""
		}
		if r.only != "" && !strings.Contains(h.Func, r.only) || h.SkipQuick && r.tier == "quick" {
			continue
		}
		if byPkg[h.Package] == nil {
			pkgs = append(pkgs, h.Package)
		}
		byPkg[h.Package] = append(byPkg[h.Package], h.Func)
	}
	r.builds = map[string]*nativeBuild{}
	var pats []string
	for i, p := range pkgs {
		drvPath := filepath.Join(r.tmp, fmt.Sprintf("replay%d_test.go", i))
		os.WriteFile(drvPath, []byte(r.driver(p, byPkg[p])), 0o644)
		r.overlay[filepath.Join(repo, p, "zz_verif_replay_test.go")] = drvPath
		r.builds[p] = &nativeBuild{}
		if p == "" {
			pats = append(pats, ".")
		} else {
			pats = append(pats, "./"+p)
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": r.overlay})
	os.WriteFile(filepath.Join(r.tmp, "overlay.json"), ov, 0o644)
	if !r.noreplay {
		go func() {
			for _, p := range pkgs {
				r.build(p)
			}
		}()
	}
	e, err := interp.Load(interp.LoadConfig{Dir: repo, Patterns: pats, Overlay: contents, Env: repoEnv()})
	if err != nil {
		return fail("cannot load: " + err.Error())
	}
	if r.verbose {
		fmt.Printf("loaded in %v\n", e.LoadTime)
	}
	e.Thorough = r.tier == "thorough"
	if r.solver != nil {
		e.SolverCmd = r.solver
	}
	known := r.known()
	var results []*interp.Result
	var viol []confirmed
	var notes []string
	traces, mism := 0, 0
	for _, h := range c.Harnesses {
		if r.only != "" && !strings.Contains(h.Func, r.only) {
			continue
		}
		if h.SkipQuick && r.tier == "quick" {
			continue
		}
		path := e.ModulePath
		if h.Package != "" {
			path += "/" + h.Package
		}
		sp := e.Pkgs[path]
		var fn *ssa.Function
		if sp != nil {
			fn = sp.Func(h.Func)
		}
		if fn == nil {
			notes = append(notes, "harness missing: "+h.Func)
			continue
		}
		res := r.explore(e, fn, h)
		results = append(results, res)
		// vacuity
		for _, l := range h.Reach {
			if !res.Reached[l] {
				notes = append(notes, fmt.Sprintf("%s: label %q not reached", h.Func, l))
			}
		}
		if len(res.Reached) == 0 {
			notes = append(notes, h.Func+": no assertion reached")
		}
		if !res.Complete {
			notes = append(notes, fmt.Sprintf("%s: bound reduced: time limit, %d prefixes left of %d paths run", h.Func, res.Left, res.Paths))
		}
		for k, n := range res.Msgs {
			notes = append(notes, fmt.Sprintf("%s: %d paths ended early: %s", h.Func, n, k))
		}
		for k, n := range res.Inconcl {
			notes = append(notes, fmt.Sprintf("%s: %d x %s", h.Func, n, k))
		}
		if len(res.SolverErrs) > 0 {
			notes = append(notes, fmt.Sprintf("%s: solver errors: %v", h.Func, res.SolverErrs[0]))
		}
		cs, un := r.confirm(h, res)
		viol = append(viol, cs...)
		notes = append(notes, un...)
		if !h.NoReplay && !r.noreplay {
			n, m, why := r.validate(h, res)
			traces += n
			mism += m
			notes = append(notes, why...)
		}
		if r.verbose {
			r.print(e, res)
		}
	}
	if !r.noreplay {
		for _, p := range pkgs {
			r.build(p)
		}
	}
	code := 0
	reported := 0
	seen := map[string]bool{}
	for i, v := range viol {
		key := v.harness + "|" + v.label
		if seen[key] {
			continue
		}
		seen[key] = true
		if k := known.match(c.Property, v.harness, v.label); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, k.What)
			continue
		}
		p := filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%d.json", c.Property, i))
		b, _ := json.MarshalIndent(map[string]any{"property": c.Property, "package": c.Package, "harness": v.harness, "label": v.label, "where": v.where, "inputs": v.inputs,
			"native": v.native, "thorough": r.tier == "thorough", "stack": v.stack}, "", " ")
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, p)
		fmt.Printf("  harness %s: %s at %s\n", v.harness, v.label, v.where)
		for _, in := range v.inputs {
			fmt.Printf("    %s = %s\n", in.Name, in.Value)
		}
		reported++
		code = 1
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	r.evidence(t0, e, results, traces, mism, viol, notes, known)
	tot := 0
	for _, x := range results {
		tot += x.Paths
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d violations=%d native-validated=%d wall=%.1fs\n", c.Property, r.tier, len(results), tot, reported, traces, time.Since(t0).Seconds())
	return code
}

func (r *runner) explore(e *interp.Engine, fn *ssa.Function, h Harness) *interp.Result {
	to := h.Quick
	if r.tier == "thorough" {
		to = h.Thorough
		if to == 0 {
			to = h.Quick * 8
		}
	}
	if r.timeout > 0 {
		to = r.timeout
	}
	if to == 0 {
		to = 60
	}
	e.SolverMS = 10000
	if h.SolverMS > 0 {
		e.SolverMS = h.SolverMS
	}
	x := &interp.Explorer{Workers: r.workers, Timeout: time.Duration(to) * time.Second, NSamples: r.nsamples, MaxPaths: r.maxPaths}
	return e.Explore(fn, x)
}

func (r *runner) print(e *interp.Engine, res *interp.Result) {
	fmt.Printf("== %s: paths=%d kinds=%v complete=%v left=%d steps=%d queries=%d sat=%d unsat=%d unk=%d solver=%v max=%v wall=%v maxdec=%d\n", res.Harness, res.Paths, res.Kinds, res.Complete, res.Left,
		res.Steps, res.Queries, res.NSat, res.NUnsat, res.NUnk, res.SolverTime.Round(time.Millisecond), res.MaxQuery.Round(time.Millisecond), res.Wall.Round(time.Millisecond), res.MaxDecs)
	var l []string
	for k := range res.Reached {
		l = append(l, k)
	}
	sort.Strings(l)
	fmt.Println("   reached:", l)
	for _, w := range e.Warns() {
		fmt.Println("   warn:", w)
	}
	for _, f := range e.TopForks(12) {
		fmt.Println("   fork:", f)
	}
	for i, v := range res.Violations {
		if i > 6 {
			break
		}
		fmt.Printf("   counterexample %q at %s\n", v.Label, v.Where)
		for _, in := range v.Inputs {
			fmt.Printf("       %s=%s\n", in.Name, in.Value)
		}
		if os.Getenv("VERIF_STACK") != "" {
			for _, s := range v.Stack {
				fmt.Println("         ", s)
			}
		}
	}
}

// ---- native side

func (r *runner) driver(dir string, names []string) string {
	pkg := filepath.Base(dir)
	if dir == "" {
		pkg = "blnk"
	}
	// the package clause is taken from the first harness file of the package
	for _, f := range r.c.Files {
		if filepath.Dir(f) == dir || dir == "" && filepath.Dir(f) == "." {
			b, _ := os.ReadFile(filepath.Join(verif, "harness", f))
			for _, l := range strings.Split(string(b), "\n") {
				if p, ok := strings.CutPrefix(l, "package "); ok {
					pkg = strings.TrimSpace(p)
					break
				}
			}
			break
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, `package %s

import (
	"encoding/json"
	"os"
	"testing"

	"github.com/blnkfinance/blnk/internal/vf"
)

func TestVerifReplay(t *testing.T) {
	data, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	hs := map[string]func(){
`, pkg)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString(`	}
	o := vf.ReplayMain(data, hs[os.Getenv("VERIF_HARNESS")])
	b, _ := json.Marshal(o)
	if err := os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}
`)
	return sb.String()
}

func (r *runner) build(p string) *nativeBuild {
	nb := r.builds[p]
	nb.once.Do(func() {
		bin := filepath.Join(r.tmp, "replay-"+strings.ReplaceAll(p, "/", "_")+".test")
		pat := "./" + p
		if p == "" {
			pat = "."
		}
		ctx, cancel := context.WithTimeout(context.Background(), 500*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.25.14/bin/go", "test", "-c", "-vet=off", "-overlay", filepath.Join(r.tmp, "overlay.json"), "-o", bin, pat)
		cmd.Dir = repo
		cmd.Env = repoEnv()
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Run(); err != nil {
			nb.err = err
			nb.log = out.String()
			return
		}
		nb.bin = bin
	})
	return nb
}

type nativeOut struct {
	Status  string               `json:"status"`
	Label   string               `json:"label"`
	Labels  []string             `json:"labels"`
	Obs     []interp.Observation `json:"obs"`
	Reached []string             `json:"reached"`
}

func (r *runner) native(hd Harness, inputs []interp.Input) (*nativeOut, error) {
	nb := r.build(hd.Package)
	h := hd.Func
	if nb.err != nil {
		return nil, fmt.Errorf("native build failed: %v: %.600s", nb.err, nb.log)
	}
	dir, err := os.MkdirTemp(r.tmp, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	in, outp := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	if inputs == nil {
		inputs = []interp.Input{}
	}
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "thorough": r.tier == "thorough"})
	os.WriteFile(in, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "55s")
	cmd.Dir = dir
	cmd.Env = append(repoEnv(), "VERIF_REPLAY="+in, "VERIF_OUT="+outp, "VERIF_HARNESS="+h)
	out, rerr := cmd.CombinedOutput()
	ob, err := os.ReadFile(outp)
	if err != nil {
		o := &nativeOut{Status: "panic", Label: fmt.Sprintf("%v: %.1500s", rerr, out)}
		if strings.Contains(string(out), "test timed out") || ctx.Err() != nil {
			o.Status = "timeout"
		}
		return o, nil
	}
	var o nativeOut
	if err := json.Unmarshal(ob, &o); err != nil {
		return nil, err
	}
	if r.verbose && len(out) > 0 && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Printf("%s\n", out)
	}
	return &o, nil
}

type confirmed struct {
	harness, label, where string
	inputs                []interp.Input
	native                *nativeOut
	stack                 []string
}

// confirm replays counterexamples against the real build; only reproduced ones count.
func (r *runner) confirm(h Harness, res *interp.Result) (cs []confirmed, notes []string) {
	labels := map[string][]*interp.Violation{}
	var order []string
	for _, v := range res.Violations {
		if labels[v.Label] == nil {
			order = append(order, v.Label)
		}
		labels[v.Label] = append(labels[v.Label], v)
	}
	for _, l := range order {
		done := false
		last := ""
		for i, v := range labels[l] {
			if i >= 6 {
				break
			}
			if r.noreplay {
				cs = append(cs, confirmed{h.Func, l, v.Where, v.Inputs, nil, v.Stack})
				done = true
				break
			}
			// map iteration order is not under control natively: try a few times
			var o *nativeOut
			var err error
			ok := false
			lab := l
			for try := 0; try < 6 && !ok; try++ {
				o, err = r.native(h, v.Inputs)
				if err != nil {
					break
				}
				switch o.Status {
				case "violated":
					// any assertion of this property that fails on the real build is a violation
					ok = true
					found := false
					for _, x := range o.Labels {
						if x == l {
							found = true
						}
					}
					if !found {
						lab = o.Label
					}
				case "panic":
					ok = strings.HasPrefix(l, "uncaught panic")
				case "timeout":
					ok = strings.HasPrefix(l, "deadlock")
				}
				if !v.MapND && try >= 1 {
					break
				}
			}
			if err != nil {
				last = err.Error()
				break
			}
			if ok {
				cs = append(cs, confirmed{h.Func, lab, v.Where, v.Inputs, o, v.Stack})
				done = true
				break
			}
			last = o.Status + " " + o.Label
		}
		if !done {
			notes = append(notes, fmt.Sprintf("%s: counterexample for %q did not reproduce natively (%s); not reported; where: %s", h.Func, l, strings.ReplaceAll(last, "\n", " | "), labels[l][0].Where))
			if r.dev {
				for _, in := range labels[l][0].Inputs {
					notes = append(notes, fmt.Sprintf("     %s=%s", in.Name, in.Value))
				}
				for _, ob := range labels[l][0].Obs {
					notes = append(notes, fmt.Sprintf("     obs %s=%s", ob.Label, ob.Value))
				}
			}
		}
	}
	return
}

// validate replays sampled clean paths natively and compares what the harness observed.
func (r *runner) validate(h Harness, res *interp.Result) (n, mism int, notes []string) {
	for _, s := range res.Samples {
		o, err := r.native(h, s.Inputs)
		if err != nil {
			notes = append(notes, err.Error())
			return
		}
		bad := ""
		if o.Status != "ok" {
			bad = "native outcome " + o.Status + " " + o.Label
		} else if len(o.Obs) != len(s.Obs) {
			bad = fmt.Sprintf("%d native observations, %d symbolic", len(o.Obs), len(s.Obs))
		} else {
			for i := range o.Obs {
				if o.Obs[i].Label != s.Obs[i].Label || o.Obs[i].Value != s.Obs[i].Value && !strings.Contains(s.Obs[i].Value, "?") {
					bad = fmt.Sprintf("observation %s: native %s=%s symbolic %s", s.Obs[i].Label, o.Obs[i].Label, o.Obs[i].Value, s.Obs[i].Value)
					break
				}
			}
		}
		if bad != "" {
			mism++
			notes = append(notes, fmt.Sprintf("%s: sampled path disagrees with the native run: %.1500s", h.Func, bad))
			if r.dev {
				for _, in := range s.Inputs {
					notes = append(notes, fmt.Sprintf("     %s=%s", in.Name, in.Value))
				}
				for i := range s.Obs {
					nv := ""
					if i < len(o.Obs) {
						nv = o.Obs[i].Label + "=" + o.Obs[i].Value
					}
					notes = append(notes, fmt.Sprintf("     obs %s=%s native %s", s.Obs[i].Label, s.Obs[i].Value, nv))
				}
			}
			continue
		}
		n++
	}
	return
}

// ---- known findings and evidence

func (r *runner) known() *Known {
	k := &Known{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, k)
	}
	return k
}

func (k *Known) match(prop, harness, label string) *Finding {
	for i := range k.Findings {
		f := &k.Findings[i]
		if f.Property == prop && f.Harness == harness && f.Label == label {
			return f
		}
	}
	return nil
}

func (r *runner) evidence(t0 time.Time, e *interp.Engine, results []*interp.Result, traces, mism int, viol []confirmed, notes []string, known *Known) {
	if r.dev || r.only != "" {
		return
	}
	c := r.c
	states, trans := 0, int64(0)
	var samples []any
	var hs []any
	var queries, sat, unsat, unk int
	var st time.Duration
	exhaustive := len(results) > 0
	for i, x := range results {
		states += x.Paths
		trans += x.Steps
		queries += x.Queries
		sat += x.NSat
		unsat += x.NUnsat
		unk += x.NUnk
		st += x.SolverTime
		exhaustive = exhaustive && x.Complete && len(x.Msgs) == 0 && len(x.Inconcl) == 0
		for _, s := range x.Samples {
			samples = append(samples, map[string]any{"harness": x.Harness, "inputs": s.Inputs, "observed": s.Obs})
		}
		var hd Harness
		for _, h := range c.Harnesses {
			if h.Func == x.Harness {
				hd = h
			}
		}
		_ = i
		var reached []string
		for k := range x.Reached {
			reached = append(reached, k)
		}
		sort.Strings(reached)
		hs = append(hs, map[string]any{"harness": x.Harness, "what": hd.What, "bounds": hd.Bounds, "paths": x.Paths, "path_outcomes": x.Kinds, "complete_within_bounds": x.Complete, "unexplored_prefixes": x.Left,
			"instructions": x.Steps, "assertions_evaluated": x.Asserts, "solver_queries": x.Queries, "sat": x.NSat, "unsat": x.NUnsat, "unknown": x.NUnk, "solver_s": x.SolverTime.Seconds(), "slowest_query_s": x.MaxQuery.Seconds(),
			"wall_s": x.Wall.Seconds(), "reached": reached, "paths_ended_early": x.Msgs, "undecided": x.Inconcl})
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples, "harnesses": hs, "solver_queries": queries, "solver_sat": sat,
		"solver_unsat": unsat, "solver_unknown": unk, "solver_s": st.Seconds(), "solver": "z3 5.3.2 (z3-new -in, incremental)", "native_mismatches": mism, "exhaustive": exhaustive, "notes": notes,
		"states_meaning": "symbolic paths; each path stands for all input values satisfying its path condition", "transitions_meaning": "SSA instructions executed symbolically"}
	if c.Outside != "" {
		cov["outside_the_claim"] = c.Outside
	}
	if e != nil {
		var own []string
		other := map[string]int{}
		for _, f := range e.Encoded() {
			if strings.Contains(f, "/internal/vf") {
				continue
			}
			if strings.Contains(f, e.ModulePath) {
				own = append(own, strings.ReplaceAll(f, e.ModulePath, "blnk"))
			} else {
				k := f
				if i := strings.LastIndex(k, "/"); i >= 0 {
					k = k[:i]
				}
				other["dependencies"]++
				_ = k
			}
		}
		cov["functions_encoded"] = own
		cov["dependency_functions_encoded"] = other["dependencies"]
		cov["encoding_warnings"] = e.Warns()
		cov["load_s"] = e.LoadTime.Seconds()
	}
	n := 0
	for _, v := range viol {
		if known == nil || known.match(c.Property, v.harness, v.label) == nil {
			n++
		}
	}
	as := append([]string{}, c.Assumptions...)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": c.Property, "tier": r.tier, "seed": seed, "level": c.Level, "coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": n}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.Property+".json"), b, 0o644)
}

func env(k, or string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return or
}
