package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = "/repo"
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type HarnessCfg struct {
	Pkg      string           `json:"pkg"`
	Name     string           `json:"name"`
	Quick    map[string]int64 `json:"quick"`
	Thorough map[string]int64 `json:"thorough"`
	Bounds   string           `json:"bounds"`
	Race     bool             `json:"race"`
	Faketime bool             `json:"faketime"`
	Tiers    string           `json:"tiers"` // "", "quick", "thorough"
	MaxSteps int              `json:"max_steps"`
	Covers   []string         `json:"covers"`
}

type CheckCfg struct {
	Property    string       `json:"property"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	BudgetQ     float64      `json:"budget_quick_s"`
	BudgetT     float64      `json:"budget_thorough_s"`
	Assumptions []string     `json:"assumptions"`
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func load(pkgs []string) (*ssa.Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(verifDir, "harness"), Env: goEnv()}
	pats := []string{"./rt", "./nd"}
	for _, p := range pkgs {
		pats = append(pats, "./"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, nil
}

func newRunItem() workItem { return workItem{model: Model{}} }

func (it *Interp) resetPath(w workItem) {
	it.rollback(0)
	it.truncPC(0, 0, 0, 0)
	if it.st.size() > 3000000 {
		it.sol.Close()
		q, u, t := it.sol.Queries, it.sol.Unknowns, it.sol.Time
		it.st = NewStore()
		it.sol = NewSolver(it.st)
		it.sol.deadline = it.run.deadline.Add(2 * time.Second)
		it.sol.Queries, it.sol.Unknowns, it.sol.Time = q, u, t
		it.known = map[*Term]bool{}
		it.vals = map[*Term]*Term{}
		it.dom = map[*Term]uint64{}
		it.qcache = map[string]qres{}
	}
	it.ex = &Explorer{mode: exActive, prefix: w.prefix}
	it.model = w.model
	it.seq = 0
	it.nChoice = 0
	it.steps = 0
	it.total = 0
	it.depth = 0
	it.stack = it.stack[:0]
	it.inputs = nil
	it.obs = nil
	it.ordDep = false
	it.mapMode = 0
	it.ordBit = 0
	it.clock = int64(1_257_894_000_000_000_000) // where the fake clock of native replays starts
	it.noMerge = false
	it.noTrail = false
	it.par = nil
	it.parLog = nil
	it.recFr = nil
	it.nextEnt = 1 << 20
}

func (it *Interp) runPath(fn *ssa.Function, w workItem) {
	it.resetPath(w)
	if w.model == nil {
		it.model = Model{}
	}
	r := it.run
	ended := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch x := p.(type) {
				case pathEnd:
					ended = x.why
				case unsupported:
					r.reduced("unsupported: " + x.msg + " [" + it.caller() + "]")
					ended = "unsupported"
				case targetPanic:
					if it.fresh() {
						it.violation("panic", x.msg+" in "+short(it.caller()), it.model)
					}
					ended = "panic"
				case hang:
					it.violation("hang", x.what, it.model)
					ended = "hang"
				case mergeAbort:
					r.reduced("internal: stray merge abort: " + x.why)
					ended = "internal"
				default:
					r.reduced(fmt.Sprintf("internal: %v at %s\n%s", p, it.caller(), trim(string(debug.Stack()), 3000)))
					ended = "internal"
				}
			}
		}()
		it.runFunc(fn, nil, nil)
	}()
	r.mu.Lock()
	r.Steps += int64(it.steps) + it.total
	if ended == "" {
		r.Paths++
		n := len(r.Samples)
		keep := false
		if n < 24 {
			keep = true
		} else if r.rng(r.Paths) < 24 {
			keep = true
			n = r.rng(r.Paths * 7)
		}
		r.mu.Unlock()
		if keep {
			func() {
				defer func() {
					if p := recover(); p != nil {
						r.reduced(fmt.Sprintf("sample: %v", p))
					}
				}()
				s := Sample{Inputs: it.modelInputs(it.model), Obs: it.evalObs(it.model), ordDep: it.ordDep}
				r.mu.Lock()
				if len(r.Samples) < 24 {
					r.Samples = append(r.Samples, s)
				} else {
					r.Samples[n%24] = s
				}
				r.mu.Unlock()
			}()
		}
	} else {
		if ended == "assume" {
			r.DeadPaths++
		} else {
			r.BadPaths++
		}
		r.mu.Unlock()
	}
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (r *Run) rng(n int) int {
	x := uint64(n)*0x9E3779B97F4A7C15 + uint64(seed)*0xD1B54A32D192ED03
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	if n <= 0 {
		return 0
	}
	return int(x % uint64(n))
}

var seed = 1

func explore(prog *ssa.Program, h HarnessCfg, params map[string]int64, budget time.Duration, workers int, profile bool) *Run {
	r := NewRun(h.Name, time.Now().Add(budget))
	pk := prog.ImportedPackage("verif/harness/" + h.Pkg)
	if pk == nil {
		r.reduced("package " + h.Pkg + " not loaded")
		return r
	}
	fn := pk.Func(h.Name)
	if fn == nil {
		r.reduced("harness " + h.Name + " not found")
		return r
	}
	r.push(newRunItem())
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			it := NewInterp(prog, r)
			it.params = params
			it.profile = profile
			it.sol.deadline = r.deadline.Add(2 * time.Second)
			if h.MaxSteps > 0 {
				it.maxSteps = h.MaxSteps
			}
			for {
				w, ok := r.pop()
				if !ok {
					break
				}
				it.runPath(fn, w)
				r.done()
			}
			it.sol.Close()
			r.mu.Lock()
			r.Queries += it.sol.Queries
			r.Unknowns += it.sol.Unknowns
			r.SolverT += it.sol.Time
			r.Decisions += it.nDec
			for f := range it.funcs {
				if f.Pkg != nil && isTarget(f.Pkg.Pkg.Path()) || f.Origin() != nil && f.Origin().Pkg != nil && isTarget(f.Origin().Pkg.Pkg.Path()) {
					r.Funcs[f.String()] = true
				}
			}
			for k, v := range it.profDec {
				r.fnDecs[k] += v
			}
			for k, v := range it.profAbort {
				r.fnDecs["abort "+k] += v
			}
			r.mu.Unlock()
		}()
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(time.Until(r.deadline) + 60*time.Second):
		// a worker is stuck in the middle of a path: go on with what the others found
		r.mu.Lock()
		r.stop = true
		r.Reduced["time budget exhausted inside a path"]++
		r.cond.Broadcast()
		c := r.snapshot()
		r.mu.Unlock()
		return c
	}
	return r
}

// ---- native replay ----

type nativeCase struct {
	Harness string           `json:"harness"`
	Inputs  []InputVal       `json:"inputs"`
	Params  map[string]int64 `json:"params"`
	Repeat  int              `json:"repeat"`
	BudgetS float64          `json:"budget_s"`
}

type nativeResult struct {
	Case    int      `json:"case"`
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []ObsVal `json:"obs"`
	Runs    int      `json:"runs"`
}

var binCache = map[string]string{}

func nativeBin(work, pkg string, race, fake bool) (string, error) {
	key := fmt.Sprintf("%s_%v_%v", pkg, race, fake)
	if b, ok := binCache[key]; ok {
		return b, nil
	}
	out := filepath.Join(work, "native_"+key)
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	if fake {
		args = append(args, "-tags", "faketime")
	}
	args = append(args, "./"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, b)
	}
	binCache[key] = out
	return out, nil
}

// runNative runs cases in one process; results are those written before it ended.
func runNative(bin, work string, cases []nativeCase, timeout time.Duration) (res []nativeResult, stderr string, timedOut bool, err error) {
	f, _ := os.CreateTemp(work, "cases")
	b, _ := json.Marshal(cases)
	f.Write(b)
	f.Close()
	outf := f.Name() + ".out"
	defer os.Remove(f.Name())
	defer os.Remove(outf)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f.Name(), outf)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", "GOMEMLIMIT=4GiB", "GOTRACEBACK=single")
	var eb bytes.Buffer
	cmd.Stderr = &limitW{b: &eb}
	cmd.Stdout = &limitW{b: &eb}
	cmd.WaitDelay = 2 * time.Second
	e := cmd.Run()
	data, _ := os.ReadFile(outf)
	for _, l := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var r nativeResult
		if json.Unmarshal([]byte(l), &r) == nil {
			res = append(res, r)
		}
	}
	return res, eb.String(), ctx.Err() != nil, e
}

type limitW struct{ b *bytes.Buffer }

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

// reproduce replays one violation against the real code.
func reproduce(work string, h HarnessCfg, params map[string]int64, v *Violation) (bool, string) {
	race := v.Kind == "race"
	bin, err := nativeBin(work, h.Pkg, race, h.Faketime)
	if err != nil {
		return false, err.Error()
	}
	c := nativeCase{Harness: h.Name, Inputs: v.Inputs, Params: params, Repeat: 400, BudgetS: 8}
	to := 12 * time.Second
	if race || h.Race {
		c.Repeat = 20000
		c.BudgetS = 15
		to = 25 * time.Second
	}
	if h.Faketime {
		c.BudgetS = 0
	}
	res, se, timedOut, err := runNative(bin, work, []nativeCase{c}, to)
	if len(res) > 0 {
		r := res[0]
		switch r.Outcome {
		case "assert", "panic":
			return true, r.Outcome + ": " + r.Msg
		}
		return false, "native run ended with " + r.Outcome + " " + r.Msg
	}
	if timedOut {
		if v.Kind == "hang" || v.Kind == "deadlock" {
			return true, "the real code does not return within " + to.String()
		}
		return false, "native run timed out"
	}
	if err != nil {
		for _, m := range []string{"DATA RACE", "concurrent map", "all goroutines are asleep", "stack overflow", "goroutine stack exceeds", "fatal error", "unlock of unlocked"} {
			if strings.Contains(se, m) {
				return true, m + ": " + firstLines(se, 12)
			}
		}
		return false, "native run: " + err.Error() + " " + firstLines(se, 6)
	}
	return false, "native run gave no result"
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// ---- main ----

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|run ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "funcs":
		prog, err := load(os.Args[2:])
		fmt.Println(prog != nil, err)
	}
}

type kvFlag map[string]int64

func (k kvFlag) String() string { return "" }
func (k kvFlag) Set(s string) error {
	a, b, _ := strings.Cut(s, "=")
	var v int64
	fmt.Sscan(b, &v)
	k[a] = v
	return nil
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "", "")
	h := fs.String("h", "", "")
	budget := fs.Float64("t", 120, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	prof := fs.Bool("prof", false, "")
	race := fs.Bool("race", false, "")
	fake := fs.Bool("fake", false, "")
	steps := fs.Int("steps", 0, "")
	params := kvFlag{}
	fs.Var(params, "p", "")
	fs.Parse(args)
	t0 := time.Now()
	prog, err := load([]string{*pkg})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	hc := HarnessCfg{Pkg: *pkg, Name: *h, Race: *race, Faketime: *fake, MaxSteps: *steps}
	t0 = time.Now()
	r := explore(prog, hc, params, time.Duration(*budget*float64(time.Second)), *workers, *prof)
	fmt.Printf("explore %.1fs paths=%d dead=%d bad=%d decisions=%d steps=%d queries=%d solver=%.1fs merged=%d/%d asserts=%d\n", time.Since(t0).Seconds(), r.Paths, r.DeadPaths, r.BadPaths, r.Decisions, r.Steps, r.Queries, r.SolverT.Seconds(), r.Merged, r.MergedP, r.Asserts)
	for k, v := range r.Covers {
		fmt.Println("cover", k, v)
	}
	for k, v := range r.Reduced {
		fmt.Println("REDUCED", v, k)
	}
	for k, v := range r.violKeys {
		fmt.Println("VIOL", v, k)
	}
	if *prof {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range r.fnDecs {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i > 40 {
				break
			}
			fmt.Println("  ", x.v, x.k)
		}
	}
	work, _ := os.MkdirTemp("", "verifrun")
	defer os.RemoveAll(work)
	for i := range r.Viol {
		if i >= 3 {
			break
		}
		ok, how := reproduce(work, hc, params, &r.Viol[i])
		b, _ := json.Marshal(r.Viol[i])
		fmt.Println(string(b))
		fmt.Println("  reproduced:", ok, how)
	}
	n, bad := validate(work, hc, params, r)
	fmt.Println("validated", n, "mismatches", bad)
	return 0
}

// validate replays sampled passing paths natively and compares the observations.
func validate(work string, h HarnessCfg, params map[string]int64, r *Run) (int, []string) {
	if len(r.Samples) == 0 {
		return 0, nil
	}
	bin, err := nativeBin(work, h.Pkg, false, h.Faketime)
	if err != nil {
		return 0, []string{err.Error()}
	}
	var cases []nativeCase
	for _, s := range r.Samples {
		cases = append(cases, nativeCase{Harness: h.Name, Inputs: s.Inputs, Params: params, Repeat: 1})
	}
	res, se, timedOut, err := runNative(bin, work, cases, 30*time.Second)
	var bad []string
	n := 0
	for _, x := range res {
		s := r.Samples[x.Case]
		if x.Outcome != "ok" {
			b, _ := json.Marshal(s.Inputs)
			bad = append(bad, fmt.Sprintf("native run of a passing path ended with %s %s inputs %s", x.Outcome, x.Msg, b))
			continue
		}
		if !s.ordDep {
			a, _ := json.Marshal(s.Obs)
			b, _ := json.Marshal(x.Obs)
			if len(s.Obs) != 0 && string(a) != string(b) {
				in, _ := json.Marshal(s.Inputs)
				bad = append(bad, fmt.Sprintf("observations differ: encoding %s real %s inputs %s", a, b, in))
				continue
			}
		}
		n++
	}
	if len(res) < len(cases) {
		bad = append(bad, fmt.Sprintf("native validation stopped early (timeout %v, %v): %s", timedOut, err, firstLines(se, 6)))
	}
	return n, bad
}

var _ = types.Universe
