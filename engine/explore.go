package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runStats struct{}

// Program is the loaded code under test plus the harness package.
type Program struct {
	ssa         *ssa.Program
	harness     *ssa.Package
	errorString types.Type
	inits       []*ssa.Package
}

const repoPrefix = "github.com/use-go/gosips"

var buildMu sync.Mutex
var builtPkg = map[*ssa.Package]bool{}

// buildFn makes sure the body of fn exists (packages are built on demand).
func buildFn(fn *ssa.Function) {
	buildMu.Lock()
	defer buildMu.Unlock()
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p != nil && !builtPkg[p] {
		p.Build()
		builtPkg[p] = true
	}
}

func isRepoFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), repoPrefix)
		}
	}
	return strings.Contains(fn.String(), repoPrefix)
}

func lookupMethod(prog *ssa.Program, t types.Type, m *types.Func) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	sel := prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}

var initPkgs = map[string]bool{"io": true, "strconv": true, "strings": true, "bytes": true,
	"unicode/utf8": true, "container/list": true, "time": true, "math/bits": true, "math": true, "sort": true, "internal/stringslite": true}

func initAllowed(path string) bool {
	return strings.HasPrefix(path, repoPrefix) || strings.HasPrefix(path, "verif/") || initPkgs[path]
}

// pruneVerify lists every distinct infeasibility verdict taken from the byte
// domain tables; each one is confirmed by the SMT solver afterwards.
func (e *Exec) prune(d *[4]uint64, c *Term) {
	if d == nil {
		return
	}
	k := pruneKey{*d, c}
	if _, ok := e.prunes[k]; !ok {
		e.prunes[k] = false
	}
}

func (e *Exec) verifyPrunes(max int) {
	var cs []*Term
	flush := func() {
		if len(cs) == 0 {
			return
		}
		// one query: is any of the claimed contradictions satisfiable?
		d := e.T.ff
		for _, c := range cs {
			d = e.T.mk(OOr, SBool, 0, d, c, nil)
		}
		r, _ := e.sol.Check([]*Term{d}, nil)
		if r == "unsat" {
			e.pruneChecked += len(cs)
		} else if r == "sat" {
			e.pruneBad += len(cs)
		}
		cs = cs[:0]
	}
	n := 0
	for k, done := range e.prunes {
		if done {
			continue
		}
		e.prunes[k] = true
		v := k.c.v1
		if v < 0 {
			continue
		}
		dom := k.dom
		dt := e.domTermRaw(v, &dom)
		cs = append(cs, e.T.mk(OAnd, SBool, 0, dt, k.c, nil))
		n++
		if len(cs) >= 64 {
			flush()
		}
		if n >= max {
			break
		}
	}
	flush()
}

func (e *Exec) domTermRaw(v int32, d *[4]uint64) *Term { return e.domTerm(v, d) }

// ---- run bookkeeping ----

type violation struct {
	Harness   string
	Kind      string // panic, assert, hang
	Where     string
	Msg       string
	Inputs    []uint64
	Path      []int
	More      [][]uint64 // further witnesses of the same key
	Count     int
	Confirmed bool
	Detail    string
	Known     string
}

var digitsRe = regexp.MustCompile(`[0-9]+`)

func (v *violation) key() string {
	return v.Harness + "|" + v.Kind + "|" + v.Where + "|" + digitsRe.ReplaceAllString(v.Msg, "#")
}

type sample struct {
	Inputs []uint64
	Obs    []string
	End    string
}

type hstat struct {
	Name           string
	Paths          int
	Infeasible     int
	Ends           map[string]int
	Asserts        int // evaluated on some path
	SolverDis      int // discharged by an unsat verdict
	SimplDis       int // true after simplification / already implied
	Steps          int
	MaxSteps       int
	Merges, Chains int
	Reach          map[string]int
	Samples        []sample
	Unfinished     bool
	Wall           time.Duration
	started        time.Time
	noMerge        map[string]bool
	pending        int
	seen           int
}

type job struct {
	h      *ssa.Function
	prefix []int
}

type Run struct {
	prog                           *Program
	tier                           int
	deadline                       time.Time
	mu                             sync.Mutex
	cond                           *sync.Cond
	queue                          []job
	active                         int
	nworkers                       int
	hungry                         int32
	stats                          map[*ssa.Function]*hstat
	viol                           map[string]*violation
	unknowns                       map[string]int
	bounds                         map[string]int
	assumes                        map[string]bool
	unsupp                         map[string]int
	fns                            map[string]bool
	seed                           int64
	execs                          []*Exec
	sampleMax                      int
	maxSteps                       int
	verbose                        bool
	solverTimeout                  int
	timedOut                       bool
	pruneChecked, pruneBad         int
	solQ, solSat, solUnsat, solUnk int
	solTime                        time.Duration
	solErrs                        []string
	maxViolPaths                   int
}

func (r *Run) noteUnknown(e *Exec, msg string) {
	r.mu.Lock()
	r.unknowns[msg]++
	r.mu.Unlock()
}
func (r *Run) noteBound(msg string) {
	r.mu.Lock()
	r.bounds[msg]++
	r.mu.Unlock()
}
func (r *Run) noteAssume(msg string) {
	r.mu.Lock()
	r.assumes[msg] = true
	r.mu.Unlock()
}
func (r *Run) noteReach(msg string) {}

// vector is the concrete input vector of the current path under model m.
func (e *Exec) vector(patch map[int32]uint64) []uint64 {
	out := make([]uint64, len(e.pathVars))
	for i, v := range e.pathVars {
		if u, ok := patch[v]; ok {
			out[i] = u
		} else {
			out[i] = e.model[v]
		}
	}
	return out
}

func (r *Run) report(e *Exec, kind, where, msg string, patch map[int32]uint64) {
	v := &violation{Harness: e.harness.Name(), Kind: kind, Where: where, Msg: msg, Inputs: e.vector(patch), Path: append([]int(nil), e.path...), Count: 1}
	r.mu.Lock()
	defer r.mu.Unlock()
	k := v.key()
	if o, ok := r.viol[k]; ok {
		o.Count++
		if len(o.More) < 4 {
			o.More = append(o.More, v.Inputs)
		}
		return
	}
	r.viol[k] = v
	if r.verbose {
		fmt.Fprintf(os.Stderr, "  candidate %s %s at %s: %s %v\n", v.Harness, kind, where, msg, v.Inputs)
	}
}

func (r *Run) onStepLimit(e *Exec) {
	r.report(e, "hang", e.where(), "no result within the step bound", nil)
}
func (r *Run) onPanic(e *Exec, ps *panicState) {
	r.report(e, "panic", ps.where, ps.msg, nil)
}

// assertCond discharges one obligation on the current path.
func (e *Exec) assertCond(c *Term, msg string) {
	st := e.run.stats[e.harness]
	e.nassert++
	e.asserts++
	if e.concMode {
		return
	}
	if e.known(c) == 1 {
		e.simplDis++
		return
	}
	nc := e.T.Not(c)
	_ = st
	var res string
	var m map[int32]uint64
	if nc == e.T.tt || e.known(nc) == 1 {
		res = "sat" // the path itself is a witness
	} else {
		res, m = e.query([]*Term{nc})
	}
	switch res {
	case "unsat":
		e.solverDis++
		e.addPC(c, nil)
		return
	case "unknown":
		e.run.noteUnknown(e, "assertion undecided: "+msg)
	default:
		e.run.report(e, "assert", e.harness.Name(), msg, m)
	}
	ok, p := e.feasible(c)
	if !ok {
		panic(pathEnd{"assertion failed"})
	}
	e.addPC(c, p)
}

// initExec runs the package initialisers.
func (e *Exec) initExec(p *Program, r *Run) {
	e.run = r
	e.sol.deadline = r.deadline
	e.maxSteps = 1 << 30
	for _, pk := range p.inits {
		fn := pk.Func("init")
		if fn == nil {
			continue
		}
		e.cur = nil
		e.pushFrame(fn, nil, nil, -1)
		func() {
			defer func() {
				if x := recover(); x != nil {
					panic(fmt.Sprintf("package initialisation: %v at %s", x, e.stackText()))
				}
			}()
			e.loop(nil)
		}()
	}
	e.fnSeen = map[*ssa.Function]bool{}
}

// runJob explores the subtree below prefix.
func (e *Exec) runJob(r *Run, j job, learnMode bool, maxPaths int, until time.Time) (finished bool) {
	st := r.stats[j.h]
	e.run, e.harness = r, j.h
	e.tier = r.tier
	e.prefix = j.prefix
	e.path = e.path[:0]
	e.choices = e.choices[:0]
	e.pathVars = e.pathVars[:0]
	e.naux = 0
	e.obs = nil
	e.nassert = 0
	e.steps = 0
	e.region = 0
	e.hangDepth, e.hangFrame = 0, nil
	e.noMerge = st.noMerge
	if learnMode {
		e.noMerge = nil
		e.learn = map[string]int{}
		e.learnOK = map[string]int{}
	} else {
		e.learn = nil
	}
	e.serial++
	e.top = e.serial
	base := len(e.trail)
	e.cur = nil
	e.asserts, e.solverDis, e.simplDis = 0, 0, 0
	e.maxSteps = r.maxSteps
	defer func() {
		e.rollback(base)
		e.choices = nil
		e.cur = nil
	}()
	rng := rand.New(rand.NewSource(r.seed + int64(len(j.prefix))))
	paths := 0
	var loc hstat
	loc.Ends = map[string]int{}
	var samples []sample
	flush := func() {
		r.mu.Lock()
		st.Paths += loc.Paths
		st.Infeasible += loc.Infeasible
		st.Steps += loc.Steps
		if loc.MaxSteps > st.MaxSteps {
			st.MaxSteps = loc.MaxSteps
		}
		for k, v := range loc.Ends {
			st.Ends[k] += v
		}
		st.Asserts += e.asserts
		st.SolverDis += e.solverDis
		st.SimplDis += e.simplDis
		st.Merges += e.mergesOK
		st.Chains += e.chainOK
		st.Samples = append(st.Samples, samples...)
		for fn := range e.fnSeen {
			if isRepoFn(fn) {
				r.fns[fn.String()] = true
			}
		}
		r.mu.Unlock()
		e.mergesOK, e.chainOK, e.mergesBad = 0, 0, 0
		e.asserts, e.solverDis, e.simplDis = 0, 0, 0
		samples = nil
		loc = hstat{Ends: map[string]int{}}
	}
	if !learnMode {
		defer flush()
	}
	first := true
	for {
		if first {
			first = false
			e.startMain(j.h)
		} else {
			if paths >= maxPaths || time.Now().After(until) {
				return false
			}
			if !learnMode && r.wantsJobs() {
				if pre := e.donate(); pre != nil {
					r.push(job{j.h, pre})
				}
			}
			if !e.backtrack() {
				return true
			}
		}
		s0 := e.steps
		end := e.runPath()
		_ = s0
		paths++
		loc.Paths++
		loc.Steps += e.steps
		if e.steps > loc.MaxSteps {
			loc.MaxSteps = e.steps
		}
		kind := end
		if i := strings.IndexByte(kind, ':'); i > 0 {
			kind = kind[:i]
		}
		loc.Ends[kind]++
		if end == "done" && !learnMode {
			// reservoir sampling of completed paths for native validation
			e.doneCount++
			if len(samples) < r.sampleMax || rng.Intn(e.doneCount) < 2 {
				if s, ok := e.samplePath(end); ok {
					samples = append(samples, s)
					if len(samples) > 4*r.sampleMax {
						rng.Shuffle(len(samples), func(a, b int) { samples[a], samples[b] = samples[b], samples[a] })
						samples = samples[:r.sampleMax]
					}
				}
			}
		}
	}
}

func (e *Exec) samplePath(end string) (sample, bool) {
	s := sample{Inputs: e.vector(nil), End: end}
	for _, o := range e.obs {
		s.Obs = append(s.Obs, o.label+"="+e.evalShow(o.v))
	}
	return s, true
}

func (e *Exec) evalShow(v Value) string {
	switch x := v.(type) {
	case *Str:
		b := make([]byte, x.Len())
		for i, t := range e.strTerms(x) {
			b[i] = byte(e.T.Eval(t, e.model))
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		u := e.T.Eval(x, e.model)
		if x.sort == SBool {
			return fmt.Sprint(u != 0)
		}
		return fmt.Sprint(sext(u, x.sort))
	}
	return "?"
}

func (e *Exec) startMain(h *ssa.Function) {
	e.threads = nil
	e.th = nil
	e.cur = nil
	e.pushFrame(h, nil, nil, -1)
}

// runPath runs the current path to its end.
func (e *Exec) runPath() (end string) {
	for {
		again := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch p := x.(type) {
					case pathEnd:
						end = p.why
					case targetPanicT:
						func() {
							defer func() {
								if y := recover(); y != nil {
									if q, ok := y.(pathEnd); ok {
										end = q.why
										return
									}
									panic(y)
								}
								again = true
							}()
							e.startPanic(p.val, p.msg)
						}()
					case unsupportedT:
						e.run.mu.Lock()
						e.run.unsupp[p.msg+" in "+e.where()]++
						e.run.mu.Unlock()
						end = "unsupported"
					default:
						e.run.mu.Lock()
						e.run.unsupp[fmt.Sprintf("internal: %v at %s %s", x, e.stackText(), shortStack())]++
						e.run.mu.Unlock()
						end = "unsupported"
					}
				}
			}()
			e.loop(nil)
			end = "done"
		}()
		if !again {
			return end
		}
	}
}

// ---- work distribution ----

func (r *Run) wantsJobs() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.queue) == 0 && r.active < r.nworkers
}
func (r *Run) push(j job) {
	r.mu.Lock()
	r.queue = append(r.queue, j)
	r.stats[j.h].pending++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) worker(hs chan *ssa.Function) {
	e := newExec(r.prog.ssa, r.solverTimeout)
	e.initExec(r.prog, r)
	defer func() {
		if time.Now().After(r.deadline) {
			e.verifyPrunes(400)
		} else {
			e.verifyPrunes(4000)
		}
		r.mu.Lock()
		r.absorb(e)
		r.mu.Unlock()
		e.sol.stop()
	}()
	for {
		r.mu.Lock()
		for len(r.queue) == 0 {
			if r.active == 0 {
				r.mu.Unlock()
				r.cond.Broadcast()
				return
			}
			r.cond.Wait()
		}
		j := r.queue[0]
		r.queue = r.queue[1:]
		r.active++
		st := r.stats[j.h]
		if st.started.IsZero() {
			st.started = time.Now()
		}
		r.mu.Unlock()
		if e.T.count() > 4000000 {
			e.verifyPrunes(4000)
			r.mu.Lock()
			r.absorb(e)
			r.mu.Unlock()
			e.sol.stop()
			e = newExec(r.prog.ssa, r.solverTimeout)
			e.initExec(r.prog, r)
		}
		r.doJob(e, j)
		r.mu.Lock()
		r.active--
		st.pending--
		st.Wall = time.Since(st.started)
		if r.active == 0 && len(r.queue) == 0 {
			r.cond.Broadcast()
		}
		r.mu.Unlock()
	}
}

func (r *Run) absorb(e *Exec) {
	r.solQ += e.sol.Queries
	r.solSat += e.sol.Sat
	r.solUnsat += e.sol.Unsat
	r.solUnk += e.sol.Unknown
	r.solTime += e.sol.Time
	if len(r.solErrs) < 20 {
		r.solErrs = append(r.solErrs, e.sol.Errors...)
	}
	r.pruneChecked += e.pruneChecked
	r.pruneBad += e.pruneBad
}

func (r *Run) doJob(e *Exec, j job) {
	st := r.stats[j.h]
	if time.Now().After(r.deadline) {
		r.mu.Lock()
		st.Unfinished = true
		r.timedOut = true
		r.mu.Unlock()
		return
	}
	if j.prefix == nil && st.noMerge == nil {
		// learning phase: find the branch sites where merging does not pay
		e.runJob(r, j, true, 300, minTime(r.deadline, time.Now().Add(3*time.Second)))
		nm := map[string]bool{}
		for k, bad := range e.learn {
			if bad >= 3 && bad*2 > e.learnOK[k] {
				nm[k] = true
			}
		}
		r.mu.Lock()
		st.noMerge = nm
		r.mu.Unlock()
	}
	if !e.runJob(r, j, false, 1<<60, r.deadline) {
		r.mu.Lock()
		st.Unfinished = true
		r.timedOut = true
		r.mu.Unlock()
	}
}

func minTime(a, b time.Time) time.Time {
	if a.Before(b) {
		return a
	}
	return b
}

func (r *Run) explore(hs []*ssa.Function) {
	r.cond = sync.NewCond(&r.mu)
	r.stats = map[*ssa.Function]*hstat{}
	for _, h := range hs {
		r.stats[h] = &hstat{Name: h.Name(), Ends: map[string]int{}, Reach: map[string]int{}}
	}
	for _, h := range hs {
		r.queue = append(r.queue, job{h: h})
		r.stats[h].pending = 1
	}
	var wg sync.WaitGroup
	r.active++ // hold workers until all have started
	for i := 0; i < r.nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker(nil)
		}()
	}
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
	r.cond.Broadcast()
	wg.Wait()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- threads (sequential unless a harness starts goroutines) ----

func (e *Exec) schedule(ended bool) {
	if ended {
		e.cur = nil
	}
}
func (e *Exec) doGo(f *frame, in *inst, i *ssa.Go) { e.unsupported("go statement") }
func (e *Exec) mutexLock(p Ptr) (Value, bool) {
	if p.obj == nil {
		e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t, ok := p.obj.cells[p.off].(*Term)
	if ok && t.isConst() && t.k != 0 {
		// self deadlock: no progress is possible
		e.effect()
		e.run.onStepLimit(e)
		panic(pathEnd{"deadlock"})
	}
	e.setCell(p.obj, p.off, e.T.Const(32, 1))
	return nil, true
}
func (e *Exec) mutexUnlock(p Ptr) (Value, bool) {
	if p.obj == nil {
		e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t, ok := p.obj.cells[p.off].(*Term)
	if ok && t.isConst() && t.k == 0 {
		e.targetPanic("sync: unlock of unlocked mutex")
	}
	e.setCell(p.obj, p.off, e.T.Const(32, 0))
	return nil, true
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

// stackText shows the interpreted call stack.
func (e *Exec) stackText() string {
	var sb strings.Builder
	n := 0
	for f := e.cur; f != nil && n < 12; f = f.caller {
		in := "?"
		if f.blk != nil && f.pc < len(f.blk.insts) {
			in = f.blk.insts[f.pc].in.String()
		}
		fmt.Fprintf(&sb, "%s[b%d: %s] < ", f.fi.fn.String(), f.blk.idx, in)
		n++
	}
	return sb.String()
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/verif/engine") {
			out = append(out, strings.TrimPrefix(strings.Fields(l)[0], "/verif/engine/"))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, ",")
}
