package main

// symgo: symbolic execution of the repository's Go code through go/ssa.
//
//   symgo -prop C01 -harness /verif/harness -replay BIN -evidence FILE

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loaded struct {
	prog  *ssa.Program
	fset  *token.FileSet
	order []*ssa.Package
	props *ssa.Package
	redir map[*ssa.Function]*ssa.Function
	rt    types.Type
	refl  types.Type
	rtyp  types.Type
}

func load(dir, modfile string) (*loaded, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedEmbedFiles,
		Dir:        dir,
		Fset:       fset,
		BuildFlags: []string{"-tags=purego,math_big_pure_go"},
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod"),
	}
	if modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+modfile)
	}
	ps, err := packages.Load(cfg, "./props", "terorie.dev/nimiq/cmd/gimiq")
	if err != nil {
		return nil, err
	}
	if len(ps) != 2 {
		return nil, fmt.Errorf("expected two packages, got %d", len(ps))
	}
	if ps[0].Name == "main" {
		ps[0], ps[1] = ps[1], ps[0]
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load harness and repository:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &loaded{prog: prog, fset: fset, props: sp[0]}
	rt := prog.ImportedPackage("runtime")
	if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
		l.rt = o.Type()
	} else {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	if r := prog.ImportedPackage("reflect"); r != nil {
		l.refl = r.Pkg.Scope().Lookup("Type").Type()
		l.rtyp = types.NewPointer(r.Pkg.Scope().Lookup("rtype").Type())
	}
	// Initialisation order of repository and harness packages.
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var imps []string
		for k := range p.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			visit(p.Imports[k])
		}
		if isHarnessOrRepo(p.PkgPath) {
			for _, f := range p.EmbedFiles {
				if b, err := os.ReadFile(f); err == nil && len(p.GoFiles) > 0 {
					if rel, err := filepath.Rel(filepath.Dir(p.GoFiles[0]), f); err == nil {
						embedded[rel] = string(b)
					}
				}
			}
			if s := prog.Package(p.Types); s != nil {
				l.order = append(l.order, s)
			}
		}
	}
	visit(ps[0])
	visit(ps[1])
	l.redir = redirects(prog, sp[1])
	return l, nil
}

// embedded holds the files the repository's packages embed.
var embedded = map[string]string{}

// redirects maps functions of the operating system to models in package sym.
func redirects(prog *ssa.Program, command *ssa.Package) map[*ssa.Function]*ssa.Function {
	m := map[*ssa.Function]*ssa.Function{}
	s := prog.ImportedPackage("verif/harness/sym")
	to := func(name string, f *ssa.Function) {
		if t := s.Func(name); t != nil && f != nil {
			m[f] = t
		}
	}
	from := func(pkg, name string) *ssa.Function {
		if p := prog.ImportedPackage(pkg); p != nil {
			return p.Func(name)
		}
		return nil
	}
	method := func(pkg, typ, name string) *ssa.Function {
		p := prog.ImportedPackage(pkg)
		if p == nil || p.Type(typ) == nil {
			return nil
		}
		return prog.LookupMethod(types.NewPointer(p.Type(typ).Type()), p.Pkg, name)
	}
	to("osDirFS", from("os", "DirFS"))
	to("osReadFile", from("os", "ReadFile"))
	to("osReadFile", from("io/ioutil", "ReadFile"))
	to("osOpen", from("os", "Open"))
	to("osExit", from("os", "Exit"))
	to("fileRead", method("os", "File", "Read"))
	to("fileClose", method("os", "File", "Close"))
	to("fileStat", method("os", "File", "Stat"))
	to("fileWrite", method("os", "File", "Write"))
	to("fileWriteString", method("os", "File", "WriteString"))
	to("timeNow", from("time", "Now"))
	to("timeSince", from("time", "Since"))
	to("fmtPrintln", from("fmt", "Println"))
	to("fmtPrint", from("fmt", "Print"))
	to("fmtPrintf", from("fmt", "Printf"))
	for _, n := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear", "Range"} {
		to("syncMap"+n, method("sync", "Map", n))
	}
	for _, n := range []string{"Wait", "Signal", "Broadcast"} {
		to("cond"+n, method("sync", "Cond", n))
	}
	if p := prog.ImportedPackage("embed"); p != nil {
		t := p.Type("FS").Type()
		to("embedOpen", prog.LookupMethod(t, p.Pkg, "Open"))
		to("embedReadFile", prog.LookupMethod(t, p.Pkg, "ReadFile"))
	}
	if f := s.Func("mainOf"); f != nil && command != nil {
		m[f] = command.Func("main")
	}
	return m
}

type caseIn struct {
	Harness string     `json:"harness"`
	Inputs  []inputVal `json:"inputs"`
	Repeat  int        `json:"repeat,omitempty"`
}

type caseOut struct {
	Status string   `json:"status"` // ok, assume, assert, panic, alloc, error
	Label  string   `json:"label"`
	Obs    []obsVal `json:"obs"`
	Reach  []string `json:"reach"`
}

// runNative replays cases with the natively compiled code.
func runNative(bin string, cases []caseIn, perCase time.Duration) ([]caseOut, string, error) {
	var in strings.Builder
	enc := json.NewEncoder(&in)
	for _, c := range cases {
		enc.Encode(c)
	}
	to := perCase*time.Duration(len(cases)) + 20*time.Second
	cmd := exec.Command("timeout", "-s", "KILL", fmt.Sprintf("%d", int(to.Seconds())), bin)
	cmd.Stdin = strings.NewReader(in.String())
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1", fmt.Sprintf("REPLAY_TIMEOUT_MS=%d", perCase.Milliseconds()))
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	var res []caseOut
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var o caseOut
		if dec.Decode(&o) != nil {
			break
		}
		res = append(res, o)
	}
	return res, stderr.String(), err
}

type harnessReport struct {
	Name          string            `json:"harness"`
	Paths         int64             `json:"paths"`
	Completed     int64             `json:"completed_paths"`
	Infeasible    int64             `json:"paths_ended_by_assumption"`
	Decisions     int64             `json:"branch_decisions"`
	MaxDepth      int               `json:"max_decisions_on_a_path"`
	Steps         int64             `json:"instructions"`
	Asserts       map[string]int64  `json:"assertions"`
	Reach         map[string]int64  `json:"reached"`
	Inconclusive  map[string]int64  `json:"inconclusive"`
	Notes         map[string]int64  `json:"notes,omitempty"`
	Bounds        map[string]string `json:"bounds"`
	TimedOut      bool              `json:"timed_out"`
	Validated     int               `json:"paths_validated_natively"`
	ValidateFail  []string          `json:"validation_failures,omitempty"`
	Violations    []string          `json:"violations,omitempty"`
	Unconfirmed   []string          `json:"unconfirmed_candidates,omitempty"`
	Known         []string          `json:"known_findings,omitempty"`
	Queries       int64             `json:"solver_queries"`
	SolverSeconds float64           `json:"solver_seconds"`
	WallSeconds   float64           `json:"wall_s"`
}

type knownFinding struct {
	Property, Harness, Kind, Label, Text string
}

func readKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// property|harness|kind|label|text
		f := strings.SplitN(l, "|", 5)
		if len(f) == 5 && strings.TrimSpace(f[0]) == prop {
			out = append(out, knownFinding{prop, strings.TrimSpace(f[1]), strings.TrimSpace(f[2]), strings.TrimSpace(f[3]), strings.TrimSpace(f[4])})
		}
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	dir := flag.String("harness", "/verif/harness", "harness module")
	bin := flag.String("replay", "", "native replay binary")
	flag.StringVar(&stressBin, "stressreplay", "", "native replay binary with delays at locks")
	raceBin := flag.String("racereplay", "", "native replay binary with the race detector")
	evid := flag.String("evidence", "", "evidence file")
	only := flag.String("only", "", "run only harness functions containing this")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Int("budget", 100, "time budget in seconds")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel workers")
	keep := flag.String("cex", "", "directory for counterexamples")
	known := flag.String("known", "", "known findings file")
	modfile := flag.String("modfile", "", "alternative go.mod")
	solverTO := flag.Int("solver-timeout", 10, "per-query timeout in seconds")
	flag.Parse()
	start := time.Now()

	l, err := load(*dir, *modfile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var hs []*ssa.Function
	for name, m := range l.props.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, *prop+"_") && strings.Contains(name, *only) {
			if strings.HasSuffix(name, "_Thorough") && *tier != "thorough" {
				continue
			}
			hs = append(hs, f)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(2)
	}
	kn := readKnown(*known, *prop)
	var reports []harnessReport
	fns := map[string]bool{}
	ideals := map[string]bool{}
	var violations []map[string]interface{}
	knownSeen := map[int]bool{}
	var samples []map[string]interface{}
	end := start.Add(time.Duration(*budget) * time.Second)
	var es []*engine
	for _, h := range hs {
		es = append(es, &engine{
			prog: l.prog, fset: l.fset, runtimeErrType: l.rt, reflectType: l.refl, reflectRtype: l.rtyp,
			initOrder: l.order, redirect: l.redir, stepLimit: 60_000_000, harness: h,
			thorough: *tier == "thorough", solverTO: time.Duration(*solverTO) * time.Second,
			notes: map[string]int64{}, incon: map[string]int64{}, asserts: map[string]int64{},
			viols: map[string][]violationRec{}, reach: map[string]int64{}, fns: map[string]bool{},
			bounds: map[string]string{}, idealSet: map[string]bool{}, tried: map[string]int{},
		})
	}
	run := func(e *engine) {
		h := e.harness
		q0, n0, t0 := gstats.Queries, gstats.Nanos, time.Now()
		watch := make(chan bool)
		if *keep != "" && *only == "" && os.Getenv("SYMGO_ALL") == "" {
			go e.watch(watch, func(v violationRec) bool {
				for _, f := range kn {
					if f.Harness == h.Name() && f.Kind == v.Kind && f.Label == v.Label {
						return false
					}
				}
				ok, _ := confirm(*bin, *raceBin, h.Name(), v)
				return ok
			})
		}
		e.explore(*workers)
		close(watch)
		e.queries += gstats.Queries - q0
		e.nanos += gstats.Nanos - n0
		e.wall += time.Since(t0)
	}
	// finish confirms and reports what one harness found; it tells whether to go on.
	finish := func(e *engine) bool {
		h, t0 := e.harness, time.Now()
		if n := e.left(); n > 0 {
			e.timedOut = true
			e.incon[fmt.Sprintf("deadline: %d path prefixes left unexplored", n)]++
		}
		rep := harnessReport{
			Name: h.Name(), Paths: e.paths, Completed: e.done, Infeasible: e.assumed, Decisions: e.trans,
			MaxDepth: e.maxTrace, Steps: e.steps, Asserts: e.asserts, Reach: e.reach, Inconclusive: e.incon,
			Notes: e.notes, Bounds: e.bounds, TimedOut: e.timedOut,
			Queries: e.queries, SolverSeconds: float64(e.nanos) / 1e9,
		}
		for f := range e.fns {
			fns[f] = true
		}
		for f := range e.idealSet {
			ideals[f] = true
		}
		report := func(rep *harnessReport, k, how string, in []inputVal) {
			path := ""
			if *keep != "" {
				os.MkdirAll(*keep, 0o755)
				path = filepath.Join(*keep, fmt.Sprintf("%s-%d.json", h.Name(), len(violations)))
				b, _ := json.Marshal(caseIn{Harness: h.Name(), Inputs: in})
				os.WriteFile(path, b, 0o644)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s: %s; native run: %s\n", h.Name(), k, how)
			rep.Violations = append(rep.Violations, k+" ("+how+")")
			violations = append(violations, map[string]interface{}{"harness": h.Name(), "what": k, "native": how, "replay": path, "inputs": in})
		}
		// Confirm candidate violations natively.
		var keys []string
		for k := range e.viols {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			confirmed := false
			for _, v := range e.viols[k] {
				ok, how := confirm(*bin, *raceBin, h.Name(), v)
				if !ok {
					debugf("not reproduced: %s %v (%s)", k, v.Inputs, how)
					continue
				}
				confirmed = true
				isKnown := false
				for ki, f := range kn {
					if f.Harness == h.Name() && f.Kind == v.Kind && f.Label == v.Label {
						isKnown = true
						knownSeen[ki] = true
						rep.Known = append(rep.Known, k)
					}
				}
				if isKnown {
					break
				}
				report(&rep, k, how, v.Inputs)
				break
			}
			if !confirmed {
				rep.Unconfirmed = append(rep.Unconfirmed, k)
			}
		}
		// Validate sampled paths natively.
		if *bin != "" && len(e.samples) > 0 {
			var cs []caseIn
			for _, s := range e.samples {
				cs = append(cs, caseIn{Harness: h.Name(), Inputs: s.Inputs})
			}
			outs, serr, _ := runNative(*bin, cs, 10*time.Second)
			for j, s := range e.samples {
				if j >= len(outs) {
					rep.ValidateFail = append(rep.ValidateFail, "native run ended early: "+tail(serr))
					break
				}
				if st := outs[j].Status; st == "assert" || st == "panic" || st == "alloc" {
					// The solver's witness of this path makes the real code fail.
					how := st + " " + outs[j].Label
					k := how + " (on the witness of an explored path)"
					isKnown := false
					for ki, f := range kn {
						if f.Harness == h.Name() && f.Kind == st && f.Label == outs[j].Label {
							isKnown = true
							knownSeen[ki] = true
							rep.Known = append(rep.Known, k)
						}
					}
					if !isKnown {
						report(&rep, k, how, s.Inputs)
					}
					continue
				}
				if s.partial {
					continue
				}
				if d := diffSample(s, outs[j]); d != "" {
					rep.ValidateFail = append(rep.ValidateFail, d)
					debugf("validation: %s inputs=%v", d, s.Inputs)
					continue
				}
				rep.Validated++
			}
			if len(samples) < 12 {
				samples = append(samples, map[string]interface{}{"harness": h.Name(), "inputs": e.samples[0].Inputs, "reach": e.samples[0].Reach})
			}
		}
		if len(rep.ValidateFail) > 5 {
			rep.ValidateFail = rep.ValidateFail[:5]
		}
		rep.WallSeconds = (e.wall + time.Since(t0)).Seconds()
		reports = append(reports, rep)
		status := "exhausted"
		if rep.TimedOut {
			status = "time limit"
		}
		fmt.Printf("%s: %s: %d paths (%d complete), %d assertions, %d queries, %.1fs solver, %.1fs wall, %d validated", h.Name(), status, rep.Paths, rep.Completed, sum(rep.Asserts), rep.Queries, rep.SolverSeconds, rep.WallSeconds, rep.Validated)
		if os.Getenv("SYMGO_STATS") != "" {
			fmt.Printf(" [fallback %d, linear %d, incremental %.1fs]", gstats.Fallback, gstats.Linear, float64(gstats.Incr)/1e9)
		}
		if forkProf != nil {
			fmt.Println()
			printForks()
		}
		if len(rep.ValidateFail) > 0 {
			fmt.Printf(", %d validation mismatches", len(rep.ValidateFail))
		}
		fmt.Println()
		for _, k := range sortedKeys(rep.Inconclusive) {
			fmt.Printf("  inconclusive x%d: %s\n", rep.Inconclusive[k], k)
		}
		for _, k := range rep.Unconfirmed {
			fmt.Printf("  candidate not reproduced natively: %s\n", k)
		}
		for _, k := range rep.ValidateFail {
			fmt.Printf("  validation mismatch: %s\n", k)
		}
		// One confirmed violation decides the check.
		return len(violations) == 0 || *keep == "" || *only != "" || os.Getenv("SYMGO_ALL") != ""
	}
	// A short turn for every harness, then the rest of the time for those with
	// paths left.
	turn := min(12*time.Second, time.Duration(*budget)*time.Second/time.Duration(3*len(es)))
	var rest []*engine
	more := true
	for _, e := range es {
		e.deadline = end
		if len(es) > 1 {
			e.pause = time.Now().Add(turn)
		}
		debugf("== %s (turn)", e.harness.Name())
		run(e)
		if e.left() > 0 && !e.stopped {
			rest = append(rest, e)
		} else if more = finish(e); !more {
			break
		}
	}
	for i := 0; more && i < len(rest); i++ {
		e, left := rest[i], time.Until(end)
		share := left / time.Duration(len(rest)-i)
		if n := len(rest) - i; n > 1 {
			share = min(left*2/3, share*3)
		}
		e.deadline, e.pause = time.Now().Add(max(share, 3*time.Second)), time.Time{}
		debugf("== %s (share %v)", e.harness.Name(), share)
		run(e)
		more = finish(e)
	}
	for i, f := range kn {
		if knownSeen[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.Text)
		}
	}
	if *evid != "" {
		writeEvidence(*evid, *prop, *tier, reports, fns, ideals, violations, samples, time.Since(start).Seconds())
	}
	if len(violations) > 0 {
		os.Exit(1)
	}
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return strings.TrimSpace(s)
}

func sum(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}

// confirm replays a candidate on the real code.
func confirm(bin, raceBin, h string, v violationRec) (bool, string) {
	if bin == "" {
		return false, "no replay binary"
	}
	if v.Kind == "race" {
		if raceBin == "" {
			return false, "no race-enabled replay binary"
		}
		// New processes, as later runs in the same one find caches filled.
		if inParallel(60, func() bool {
			_, serr, _ := runNative(raceBin, []caseIn{{Harness: h, Inputs: v.Inputs, Repeat: 3}}, 60*time.Second)
			return strings.Contains(serr, "DATA RACE")
		}) {
			return true, "DATA RACE reported by the race detector"
		}
		return false, "race detector silent"
	}
	for try := 0; try < 2; try++ {
		per := 20 * time.Second
		outs, serr, _ := runNative(bin, []caseIn{{Harness: h, Inputs: v.Inputs, Repeat: 1 + try*200}}, per)
		if len(outs) == 0 {
			if strings.Contains(serr, "out of memory") || strings.Contains(serr, "makeslice") || strings.Contains(serr, "cannot allocate") {
				return true, "out of memory"
			}
			if strings.Contains(serr, "REPLAY-TIMEOUT") {
				return true, "does not terminate"
			}
			if strings.Contains(serr, "stack overflow") || strings.Contains(serr, "concurrent map") || strings.Contains(serr, "fatal error") {
				return true, "fatal error: " + tail(serr)
			}
			return false, "native run died: " + tail(serr)
		}
		o := outs[0]
		switch o.Status {
		case "assert", "panic", "alloc":
			// Any failure of the real code on this input refutes the property.
			return true, o.Status + " " + o.Label
		}
		if try == 1 && stressBin == "" {
			return false, "native status " + o.Status
		}
	}
	if stressBin != "" {
		how := "in no schedule tried"
		var mu sync.Mutex
		if inParallel(800, func() bool {
			outs, _, _ := runNative(stressBin, []caseIn{{Harness: h, Inputs: v.Inputs}}, 20*time.Second)
			if len(outs) == 1 && (outs[0].Status == "assert" || outs[0].Status == "panic") {
				mu.Lock()
				how = outs[0].Status + " " + outs[0].Label + " (in some schedule)"
				mu.Unlock()
				return true
			}
			return false
		}) {
			return true, how
		}
		return false, how
	}
	return false, ""
}

// stressBin is the replay binary that delays goroutines at locks.
var stressBin string

// inParallel calls f up to n times until it says yes.
func inParallel(n int, f func() bool) bool {
	var left, found int64 = int64(n), 0
	var wg sync.WaitGroup
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt64(&found) == 0 && atomic.AddInt64(&left, -1) >= 0 {
				if f() {
					atomic.StoreInt64(&found, 1)
				}
			}
		}()
	}
	wg.Wait()
	return found != 0
}

func diffSample(s pathSample, o caseOut) string {
	if o.Status != "ok" {
		return fmt.Sprintf("native status %s %s", o.Status, o.Label)
	}
	if len(o.Obs) != len(s.Obs) {
		return fmt.Sprintf("native run observed %d values, expected %d", len(o.Obs), len(s.Obs))
	}
	for i := range o.Obs {
		if o.Obs[i] != s.Obs[i] {
			return fmt.Sprintf("observation %q: native %d, symbolic %d", s.Obs[i].Label, o.Obs[i].Val, s.Obs[i].Val)
		}
	}
	if strings.Join(o.Reach, ",") != strings.Join(s.Reach, ",") {
		return fmt.Sprintf("reached %v natively, %v symbolically", o.Reach, s.Reach)
	}
	return ""
}

func writeEvidence(path, prop, tier string, reps []harnessReport, fns, ideals map[string]bool, viols []map[string]interface{}, samples []map[string]interface{}, wall float64) {
	var fl, il []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for f := range ideals {
		il = append(il, f)
	}
	sort.Strings(il)
	var paths, trans, valid, asserts, steps int64
	complete := true
	bounds := map[string]string{}
	var incon []string
	for _, r := range reps {
		paths += r.Paths
		trans += r.Decisions
		valid += int64(r.Validated)
		asserts += sum(r.Asserts)
		steps += r.Steps
		if r.TimedOut || len(r.Inconclusive) > 0 {
			complete = false
		}
		for k, v := range r.Bounds {
			bounds[r.Name+"/"+k] = v
		}
		for _, k := range sortedKeys(r.Inconclusive) {
			incon = append(incon, r.Name+": "+k)
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	assumptions := []string{
		"Go semantics as modelled by the interpreter in /verif/engine (checked natively on sampled paths)",
		"package reflect, fmt, sync and the assembly parts of the standard library are modelled, not interpreted",
	}
	for _, k := range il {
		switch k {
		case "blake2b256":
			assumptions = append(assumptions, "BLAKE2b-256 is idealised on symbolic input: a function, injective on its first 20 bytes")
		default:
			if strings.HasPrefix(k, "bigdiv") {
				assumptions = append(assumptions, "multi-word division of math/big is idealised on symbolic operands: a function with 0 <= r < v, and q = 0 exactly when u < v")
			}
		case "supply":
			assumptions = append(assumptions, "policy.SupplyBetween called with the supply at its first height is summarised as an idealised function of its last height (C26 checks that it adds up rewards)")
		case "edpub", "edsig":
			assumptions = append(assumptions, "Ed25519 "+k+" is idealised on symbolic input: signatures verify exactly when made with the key")
		}
	}
	if valid == 0 {
		valid = 0
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": wall, "assumptions": assumptions, "violations": len(viols),
		"coverage": map[string]interface{}{
			"states": paths, "transitions": trans, "traces_validated_against_impl": valid,
			"samples":                  samples,
			"exhaustive_within_bounds": complete,
			"instructions_interpreted": steps,
			"assertions_decided":       asserts,
			"functions_encoded":        fl,
			"bounds":                   bounds,
			"inconclusive":             incon,
			"solver": map[string]interface{}{
				"queries": gstats.Queries, "sat": gstats.SatN, "unsat": gstats.UnsatN,
				"unknown": gstats.UnknownN, "fallbacks": gstats.Fallback,
				"seconds": float64(gstats.Nanos) / 1e9,
			},
			"harnesses": reps,
		},
	}
	if len(viols) > 0 {
		ev["violation_details"] = viols
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}
