// Command symgo decides the properties of /repo by symbolic execution of its
// Go SSA form with an SMT solver; see /verif/DESIGN.md.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var areas = map[byte]string{'R': "rtp", 'C': "core", 'A': "address", 'H': "header", 'M': "message", 'P': "parser", 'S': "sip"}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

// genRegistry writes the harness table used for native replay.
func genRegistry(dir, area string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	re := regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)
	var names []string
	for _, f := range fs {
		if filepath.Base(f) == "registry.go" {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("// Code generated by symgo; DO NOT EDIT.\n\npackage " + filepath.Base(dir) + "\n\n// All lists the harnesses for native replay.\nvar All = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	out := filepath.Join(dir, "registry.go")
	old, _ := os.ReadFile(out)
	if string(old) == sb.String() {
		return nil
	}
	return os.WriteFile(out, []byte(sb.String()), 0o644)
}

func load(hdir, area string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: hdir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./"+area)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{ssa: prog, harness: pkgs[0]}
	for _, sp := range prog.AllPackages() {
		if sp.Pkg.Path() == "errors" {
			p.errorString = sp.Func("New").Pkg.Type("errorString").Type()
		}
	}
	p.errorString = ptrTo(p.errorString)
	buildMu.Lock()
	for _, sp := range prog.AllPackages() {
		if initAllowed(sp.Pkg.Path()) {
			sp.Build()
			builtPkg[sp] = true
		}
	}
	buildMu.Unlock()
	p.inits = []*ssa.Package{pkgs[0]}
	return p, nil
}

type nativeOut struct {
	Panic  string   `json:"panic"`
	Where  string   `json:"where"`
	Fail   string   `json:"fail"`
	Assume bool     `json:"assume"`
	Obs    []string `json:"obs"`
	Done   bool     `json:"done"`
	Hang   bool     `json:"hang"`
	Raw    string   `json:"raw"`
}

type nativeIn struct {
	H    string   `json:"h"`
	In   []uint64 `json:"in"`
	Tier int      `json:"tier"`
}

// native runs the replay binary on the vectors; a crash or hang of the process
// is attributed to the vector being executed.
func native(bin string, ins []nativeIn, perRun time.Duration) []nativeOut {
	outs := make([]nativeOut, 0, len(ins))
	for len(outs) < len(ins) {
		rest := ins[len(outs):]
		var buf bytes.Buffer
		for _, i := range rest {
			b, _ := json.Marshal(i)
			buf.Write(b)
			buf.WriteByte('\n')
		}
		cmd := exec.Command("/bin/sh", "-c", "ulimit -v 12000000; exec "+bin)
		cmd.Stdin = &buf
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=1500MiB", "GOMAXPROCS=2", "TZ=UTC")
		var eb bytes.Buffer
		cmd.Stderr = &limitWriter{w: &eb, n: 4000}
		op, err := cmd.StdoutPipe()
		if err != nil {
			return outs
		}
		if err := cmd.Start(); err != nil {
			return outs
		}
		sc := bufio.NewReaderSize(op, 1<<20)
		hang := false
		for len(outs) < len(ins) {
			t := time.AfterFunc(perRun, func() { hang = true; cmd.Process.Kill() })
			line, err := sc.ReadString('\n')
			t.Stop()
			if err != nil {
				break
			}
			var o nativeOut
			if !strings.HasPrefix(line, "@@") {
				continue
			}
			if json.Unmarshal([]byte(line[2:]), &o) != nil {
				o.Raw = line
			}
			outs = append(outs, o)
		}
		cmd.Process.Kill()
		cmd.Wait()
		if len(outs) < len(ins) {
			outs = append(outs, nativeOut{Hang: hang, Raw: eb.String(), Panic: condStr(!hang, "process died")})
		}
	}
	return outs
}

func condStr(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

type known struct {
	property, harness, kind, where, msg, text string
}

// known_findings.txt lines: "finding: property=<id> harness=<h> kind=<k> where=<f> msg=<normalised> :: text"
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		head, text, _ := strings.Cut(l, " :: ")
		k := known{text: text}
		parts := strings.SplitN(head, " msg=", 2)
		if len(parts) == 2 {
			k.msg = parts[1]
		}
		for _, f := range strings.Fields(parts[0]) {
			a, v, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				k.property = v
			case "harness":
				k.harness = v
			case "kind":
				k.kind = v
			case "where":
				k.where = v
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("property", "", "")
	tierS := flag.String("tier", "quick", "")
	only := flag.String("only", "", "regexp of harness names")
	workers := flag.Int("workers", 0, "")
	budget := flag.Int("budget", 0, "seconds of exploration")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("prof", "", "")
	noev := flag.Bool("noevidence", false, "")
	flag.Parse()
	t0 := time.Now()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	area := areas[(*prop)[0]]
	hdir := filepath.Join(*verif, "harness")
	if err := genRegistry(filepath.Join(hdir, area), area); err != nil {
		die("registry: %v", err)
	}
	// native replay binary, built from the current tree
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	type bres struct {
		err error
		out string
	}
	bch := make(chan bres, 1)
	go func() {
		cmd := exec.Command("go", "build", "-o", bin, "./cmd/"+area)
		cmd.Dir = hdir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")
		o, err := cmd.CombinedOutput()
		bch <- bres{err, string(o)}
	}()
	prog, err := load(hdir, area)
	if err != nil {
		die("load: %v", err)
	}
	br := <-bch
	if br.err != nil {
		die("build of the replay binary failed: %v\n%s", br.err, br.out)
	}
	var hs []*ssa.Function
	var names []string
	for n, m := range prog.harness.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_"+*prop+"_") {
			if *only != "" && !regexp.MustCompile(*only).MatchString(n) {
				continue
			}
			names = append(names, n)
			_ = f
		}
	}
	sort.Strings(names)
	for _, n := range names {
		hs = append(hs, prog.harness.Func(n))
	}
	if len(hs) == 0 {
		die("no harness for %s", *prop)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{prog: prog, tier: tier, viol: map[string]*violation{}, unknowns: map[string]int{}, bounds: map[string]int{},
		assumes: map[string]bool{}, unsupp: map[string]int{}, fns: map[string]bool{}, seed: seed, verbose: *verbose,
		sampleMax: 25, maxSteps: 1000000, solverTimeout: 20000}
	r.nworkers = runtime.NumCPU()
	if r.nworkers > 8 {
		r.nworkers = 8
	}
	if *workers > 0 {
		r.nworkers = *workers
	}
	b := 300
	if tier == 1 {
		b = 750
	}
	if *budget > 0 {
		b = *budget
	}
	r.deadline = t0.Add(time.Duration(b) * time.Second)
	r.explore(hs)

	code := r.finish(*prop, *tierS, *verif, bin, tier, hs, t0, *noev)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func matches(v *violation, o nativeOut) bool {
	switch v.Kind {
	case "panic":
		return o.Panic != ""
	case "assert":
		return o.Fail == v.Msg
	case "hang":
		return o.Hang || strings.Contains(o.Raw, "out of memory") || strings.Contains(o.Raw, "cannot allocate")
	}
	return false
}

func (r *Run) finish(prop, tierS, verif, bin string, tier int, hs []*ssa.Function, t0 time.Time, noev bool) int {
	explored := time.Since(t0)
	// confirm candidate violations on the real code
	keys := sortedKeys(r.viol)
	var confirmed, spurious []*violation
	knowns := loadKnown(filepath.Join(verif, "known_findings.txt"))
	hangs := 0
	for _, k := range keys {
		v := r.viol[k]
		cands := append([][]uint64{v.Inputs}, v.More...)
		for _, in := range cands {
			to := 20 * time.Second
			if v.Kind == "hang" {
				hangs++
				to = 8 * time.Second
				if hangs > 12 {
					break
				}
			}
			o := native(bin, []nativeIn{{v.Harness, in, tier}}, to)
			if len(o) == 1 && (matches(v, o[0])) {
				v.Confirmed = true
				v.Inputs = in
				if o[0].Panic != "" {
					v.Detail = o[0].Panic + " at " + o[0].Where
				}
				break
			} else if len(o) == 1 {
				v.Detail = fmt.Sprintf("native run: panic=%q fail=%q assume=%v done=%v hang=%v raw=%q", o[0].Panic, o[0].Fail, o[0].Assume, o[0].Done, o[0].Hang, o[0].Raw)
				if o[0].Fail != "" || o[0].Panic != "" && o[0].Raw == "" {
					// the real code fails too, in another way
					v.Confirmed = true
					v.Inputs = in
					v.Detail = "the replay fails differently: " + v.Detail
					break
				}
			}
		}
		if v.Confirmed {
			confirmed = append(confirmed, v)
		} else {
			spurious = append(spurious, v)
		}
	}
	// validation of completed paths against the real code
	var ins []nativeIn
	var want []sample
	for _, h := range hs {
		st := r.stats[h]
		ss := st.Samples
		if len(ss) > 60 {
			ss = ss[:60]
		}
		for _, s := range ss {
			ins = append(ins, nativeIn{h.Name(), s.Inputs, tier})
			want = append(want, s)
		}
	}
	mism := 0
	var mismEx []string
	outs := native(bin, ins, 20*time.Second)
	for i, o := range outs {
		bad := ""
		if o.Panic != "" || o.Hang {
			bad = "native run ended with panic/hang: " + o.Panic + " " + o.Where + o.Raw
		} else if o.Fail != "" {
			bad = "native run failed assertion: " + o.Fail
		} else if o.Assume {
			bad = "native run violated an assumption"
		} else if strings.Join(o.Obs, "\n") != strings.Join(want[i].Obs, "\n") {
			bad = fmt.Sprintf("observations differ: model %v real %v", want[i].Obs, o.Obs)
		}
		if bad != "" {
			mism++
			if len(mismEx) < 5 {
				mismEx = append(mismEx, fmt.Sprintf("%s %v: %s", ins[i].H, ins[i].In, bad))
			}
			// a failure of the real code counts whatever the model said
			if o.Fail != "" || o.Panic != "" || o.Hang {
				v := &violation{Harness: ins[i].H, Kind: "assert", Where: ins[i].H, Msg: o.Fail, Inputs: ins[i].In, Count: 1, Confirmed: true, Detail: bad}
				if o.Panic != "" {
					v.Kind, v.Where, v.Msg = "panic", o.Where, o.Panic
				} else if o.Hang {
					v.Kind, v.Msg = "hang", "no result"
				}
				if _, ok := r.viol[v.key()]; !ok {
					r.viol[v.key()] = v
					confirmed = append(confirmed, v)
				}
			}
		}
	}
	// outcome
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	code := 0
	nviol := 0
	knownSeen := map[int]bool{}
	for _, v := range confirmed {
		kn := -1
		for i, k := range knowns {
			if k.property == prop && k.harness == v.Harness && k.kind == v.Kind && (k.where == v.Where || k.where == "*") && (k.msg == "*" || k.msg == digitsRe.ReplaceAllString(v.Msg, "#")) {
				kn = i
			}
		}
		if kn >= 0 {
			v.Known = knowns[kn].text
			if !knownSeen[kn] {
				knownSeen[kn] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knowns[kn].text)
			}
			continue
		}
		nviol++
		rp := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, nviol))
		jb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "kind": v.Kind, "where": v.Where,
			"message": v.Msg, "inputs": v.Inputs, "tier": tierS, "detail": v.Detail,
			"replay_cmd": fmt.Sprintf("/verif/check replay %s %s", areas[prop[0]], rp)}, "", " ")
		os.WriteFile(rp, jb, 0o644)
		if nviol <= 20 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			fmt.Printf("  %s: %s in %s: %s  inputs=%v (%d paths) %s\n", v.Harness, v.Kind, v.Where, v.Msg, v.Inputs, v.Count, v.Detail)
		}
		code = 1
	}
	for _, v := range spurious {
		fmt.Printf("NOTE: candidate not reproduced on the real code, not reported: %s %s %s %q %v (%s)\n", v.Harness, v.Kind, v.Where, v.Msg, v.Inputs, v.Detail)
	}
	for _, m := range mismEx {
		fmt.Printf("NOTE: model/real mismatch: %s\n", m)
	}
	for _, k := range sortedKeys(r.unknowns) {
		fmt.Printf("INCONCLUSIVE: %s (%d times)\n", k, r.unknowns[k])
	}
	for _, k := range sortedKeys(r.unsupp) {
		fmt.Printf("INCONCLUSIVE: not encoded: %s (%d paths)\n", k, r.unsupp[k])
	}
	var paths, asserts, sdis, simp, steps, inf int
	var hlist []map[string]any
	var unfinished []string
	vacuous := []string{}
	for _, h := range hs {
		st := r.stats[h]
		paths += st.Paths
		asserts += st.Asserts
		sdis += st.SolverDis
		simp += st.SimplDis
		steps += st.Steps
		inf += st.Ends["infeasible"]
		if st.Unfinished {
			unfinished = append(unfinished, st.Name)
			fmt.Printf("INCONCLUSIVE: %s not exhausted within the time budget (%d paths explored)\n", st.Name, st.Paths)
		}
		if st.Ends["done"] == 0 {
			vacuous = append(vacuous, st.Name)
		}
		hlist = append(hlist, map[string]any{"harness": st.Name, "paths": st.Paths, "ends": st.Ends, "assertions": st.Asserts,
			"discharged_by_solver": st.SolverDis, "discharged_by_simplification": st.SimplDis, "max_steps_on_a_path": st.MaxSteps, "wall_s": round2(st.Wall.Seconds()), "exhausted": !st.Unfinished})
	}
	for _, v := range vacuous {
		fmt.Printf("NOTE: no completed path in %s\n", v)
	}
	wall := time.Since(t0).Seconds()
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertion instances (%d by solver, %d by simplification), %d queries (%d sat, %d unsat, %d unknown) %.1fs solver, prunes confirmed %d bad %d, native validation %d mismatches %d, explored %.1fs, wall %.1fs, violations %d\n",
		prop, tierS, len(hs), paths, asserts, sdis, simp, r.solQ, r.solSat, r.solUnsat, r.solUnk, r.solTime.Seconds(), r.pruneChecked, r.pruneBad, len(outs), mism, explored.Seconds(), wall, nviol)
	if noev {
		return code
	}
	fns := sortedKeys(r.fns)
	docs := harnessDocs(filepath.Join(verif, "harness", areas[prop[0]]))
	var rules []string
	for _, h := range hs {
		rules = append(rules, h.Name()+": "+docs[h.Name()])
	}
	var smp []any
	for i := range ins {
		if i%7 == 0 && len(smp) < 8 {
			smp = append(smp, map[string]any{"harness": ins[i].H, "inputs": ins[i].In, "observed": want[i].Obs})
		}
	}
	if len(smp) == 0 {
		smp = append(smp, map[string]any{"note": "no completed path was sampled"})
	}
	as := []string{"go/ssa (x/tools v0.52.0) translates the source faithfully; the symbolic interpreter in /verif/engine implements Go semantics (cross-checked by running sampled path models on the compiled code)",
		"z3 5.3.2 (z3-new) verdicts are right", "single-threaded use unless the harness starts goroutines"}
	for _, k := range sortedKeys(r.assumes) {
		as = append(as, k)
	}
	for _, k := range sortedKeys(r.bounds) {
		as = append(as, "outside the bound: "+k)
	}
	ev := map[string]any{
		"property": prop, "tier": tierS, "seed": seed64(r.seed), "level": "model_checking",
		"coverage": map[string]any{
			"explanation": "Bounded symbolic execution of the SSA form of the real code: every path within the stated shapes is explored with symbolic contents, branch feasibility and every assertion are decided by the SMT solver (z3); counterexamples are replayed on the compiled code before they are reported.",
			"states":      paths - inf, "transitions": steps, "traces_validated_against_impl": len(outs) - mism,
			"rule":      "one state per feasible path (a class of inputs sharing one control flow, contents symbolic), one transition per SSA instruction executed symbolically; bounds per harness: " + strings.Join(rules, " | "),
			"samples":   smp,
			"harnesses": hlist, "obligations": asserts, "discharged": sdis + simp, "discharged_by_solver": sdis, "discharged_by_simplification": simp,
			"functions_encoded": fns, "functions_encoded_count": len(fns),
			"queries": map[string]any{"total": r.solQ, "sat": r.solSat, "unsat": r.solUnsat, "unknown": r.solUnk, "solver_time_s": round2(r.solTime.Seconds())},
			"byte_domain_verdicts_confirmed_by_solver": r.pruneChecked, "byte_domain_verdicts_refuted": r.pruneBad,
			"native_validation": map[string]any{"runs": len(outs), "mismatches": mism, "examples": mismEx},
			"not_exhausted":     unfinished, "inconclusive": r.unknowns, "not_encoded": r.unsupp,
			"outside_bound": r.bounds, "solver_errors": r.solErrs, "unconfirmed_candidates": len(spurious),
		},
		"assumptions": as, "wall_s": round2(wall), "violations": nviol,
	}
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), jb, 0o644); err != nil {
		die("evidence: %v", err)
	}
	return code
}

func seed64(s int64) int64 { return s }
func round2(f float64) float64 {
	return float64(int64(f*100)) / 100
}

// harnessDocs extracts the comment above each harness function.
func harnessDocs(dir string) map[string]string {
	out := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		var cm []string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//") {
				cm = append(cm, strings.TrimSpace(strings.TrimPrefix(l, "//")))
				continue
			}
			if strings.HasPrefix(l, "func H_") {
				n := l[5:strings.Index(l, "(")]
				out[n] = strings.Join(cm, " ")
			}
			cm = nil
		}
	}
	return out
}
