package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *Closure
	in   *inst // for builtins / invoke resolved
	args []Value
	bi   *ssa.Builtin
}

type panicState struct {
	val       Value
	msg       string
	where     string // innermost repository function
	recovered bool
	goexit    bool
}

type frame struct {
	fi     *fnInfo
	regs   []Value
	blk    *blk
	pc     int
	caller *frame
	retDst int // register in the caller receiving the result, -1 none
	defers []deferred
	stamp  uint64
	saved  uint64
	// set when the frame runs a deferred call on behalf of the caller
	forDefer  bool
	ps        *panicState // panic in progress while this deferred call runs
	panicking *panicState // panic being propagated by this frame
	thread    *thread
}

type tkind uint8

const (
	tCell tkind = iota
	tReg
	tCtl
	tUndo
	tPC
	tDom
	tCons
	tModel
	tVars
	tFail
	tMapK
)

type trailEntry struct {
	k tkind
	f *frame
	o *Object
	i int
	v Value
	// ctl
	blk    *blk
	pc     int
	defers []deferred
	saved  uint64
	pan    *panicState
	undo   func()
	dom    *[4]uint64
	t      *Term
	u      uint64
	m      *MapObj
	in     *inst
}

type choicePoint struct {
	serial    uint64
	trail     int
	cur       *frame
	alts      []*Term
	next      int // next alternative to try
	pathLen   int
	pathIdx   int // index in e.path of this decision
	nvars     int
	naux      int
	steps     int
	prevTop   uint64
	nobs      int
	nassert   int
	donated   map[int]bool
	threads   []*thread
	thCur     *thread
	truncated bool
}

type regionFail struct{ why string }
type pathEnd struct{ why string }
type targetPanicT struct {
	val Value
	msg string
}
type unsupportedT struct{ msg string }

type thread struct {
	id      int
	cur     *frame
	done    bool
	blocked *Object
}

type obsRec struct {
	label string
	v     Value
}

// Exec is one symbolic execution worker.
type Exec struct {
	T         *Terms
	sol       *Solver
	prog      *ssa.Program
	tinfo     map[types.Type]*typeInfo
	foff      map[fieldKey]int
	fns       map[*ssa.Function]*fnInfo
	fnVals    map[*ssa.Function]*Closure
	globals   map[*ssa.Global]*Object
	methCache map[methKey]*ssa.Function
	implCache map[implKey]bool
	objSeq    int

	cur     *frame
	trail   []trailEntry
	top     uint64
	serial  uint64
	choices []*choicePoint
	threads []*thread
	th      *thread

	varTab              map[varKey]int32
	pathVars            []int32
	naux                int
	instrVars, instrAux int
	dom                 []*[4]uint64
	cons                []*Term
	pcSet               map[*Term]int
	model               []uint64
	qcache              map[string]qres

	path        []int
	prefix      []int
	steps       int
	maxSteps    int
	region      int
	regionLimit int
	failCnt     map[*inst]int
	noMerge     map[string]bool // frozen sites
	learn       map[string]int

	obs     []obsRec
	nassert int

	// run bookkeeping
	run                                     *Run
	harness                                 *ssa.Function
	deadline                                time.Time
	tier                                    int
	mergesOK, mergesBad, chainOK            int
	fnSeen                                  map[*ssa.Function]bool
	initDone                                map[*ssa.Package]bool
	concrete                                []uint64 // concrete input vector (validation mode)
	concMode                                bool
	provDigits                              map[*Term][]*Term
	numOf                                   map[string]*Term
	icache                                  map[*ssa.Function]intrinsic
	prunes                                  map[pruneKey]bool
	pruneChecked, pruneBad                  int
	curInst                                 *inst
	maxPathSteps                            int
	stats                                   runStats
	lastPC                                  []*Term
	asserts, solverDis, simplDis, doneCount int
	hangDepth                               int
	hangFrame                               *frame
	learnOK                                 map[string]int
}

// pruneKey is one infeasibility verdict taken from the byte-domain tables.
type pruneKey struct {
	dom [4]uint64
	c   *Term
}
type varKey struct {
	n   int
	s   Sort
	aux bool
}
type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct {
	t types.Type
	i types.Type
}
type qres struct {
	res string
	m   map[int32]uint64
}

func newExec(prog *ssa.Program, solverTimeout int) *Exec {
	e := &Exec{T: newTerms(), prog: prog, tinfo: map[types.Type]*typeInfo{}, foff: map[fieldKey]int{},
		fns: map[*ssa.Function]*fnInfo{}, fnVals: map[*ssa.Function]*Closure{}, globals: map[*ssa.Global]*Object{},
		methCache: map[methKey]*ssa.Function{}, implCache: map[implKey]bool{}, varTab: map[varKey]int32{},
		pcSet: map[*Term]int{}, qcache: map[string]qres{}, failCnt: map[*inst]int{}, fnSeen: map[*ssa.Function]bool{},
		initDone: map[*ssa.Package]bool{}, provDigits: map[*Term][]*Term{}, learn: map[string]int{},
		numOf: map[string]*Term{}, icache: map[*ssa.Function]intrinsic{}, prunes: map[pruneKey]bool{}}
	e.sol = newSolver(e.T, solverTimeout)
	return e
}

func (e *Exec) unsupported(msg string) {
	panic(unsupportedT{msg})
}
func (e *Exec) targetPanic(msg string) {
	if e.region > 0 {
		panic(regionFail{"panic"})
	}
	panic(targetPanicT{Iface{t: types.Typ[types.String], v: mkStr(msg)}, msg})
}

// ---- trail ----

func (e *Exec) setReg(f *frame, i int, v Value) {
	if f.stamp < e.top {
		e.trail = append(e.trail, trailEntry{k: tReg, f: f, i: i, v: f.regs[i]})
	}
	f.regs[i] = v
}
func (e *Exec) touch(f *frame) {
	if f.stamp < e.top && f.saved != e.top {
		e.trail = append(e.trail, trailEntry{k: tCtl, f: f, blk: f.blk, pc: f.pc, defers: f.defers, saved: f.saved, pan: f.panicking})
		f.saved = e.top
	}
}
func (e *Exec) setCell(o *Object, i int, v Value) {
	if o.stamp < e.top {
		e.trail = append(e.trail, trailEntry{k: tCell, o: o, i: i, v: o.cells[i]})
	}
	o.cells[i] = v
}
func (e *Exec) addUndo(f func()) {
	if e.region > 0 {
		panic(regionFail{"undo"})
	}
	e.trail = append(e.trail, trailEntry{k: tUndo, undo: f})
}

func (e *Exec) rollback(n int) {
	for len(e.trail) > n {
		t := &e.trail[len(e.trail)-1]
		switch t.k {
		case tCell:
			t.o.cells[t.i] = t.v
		case tReg:
			t.f.regs[t.i] = t.v
		case tCtl:
			t.f.blk, t.f.pc, t.f.defers, t.f.saved, t.f.panicking = t.blk, t.pc, t.defers, t.saved, t.pan
		case tUndo:
			t.undo()
		case tPC:
			if t.i == 1 {
				delete(e.pcSet, t.t)
			} else {
				e.pcSet[t.t]--
			}
		case tDom:
			e.dom[t.i] = t.dom
		case tCons:
			e.cons = e.cons[:t.i]
		case tModel:
			e.model[t.i] = t.u
		case tVars:
			e.pathVars = e.pathVars[:t.i]
		case tFail:
			e.failCnt[t.in] = t.i
		case tMapK:
			t.m.entries = t.v.([]mapEntry)
			t.m.allConc = t.i == 1
			t.m.index = nil
		}
		e.trail[len(e.trail)-1] = trailEntry{}
		e.trail = e.trail[:len(e.trail)-1]
	}
}

// ---- variables ----

func (e *Exec) varID(n int, s Sort, aux bool) int32 {
	k := varKey{n, s, aux}
	if id, ok := e.varTab[k]; ok {
		return id
	}
	id := int32(len(e.T.varSort))
	e.T.varSort = append(e.T.varSort, s)
	e.T.varTerm = append(e.T.varTerm, e.T.Var(int(id), s))
	e.varTab[k] = id
	e.dom = append(e.dom, nil)
	e.model = append(e.model, 0)
	return id
}

// freshVar creates the next harness input of the path.
func (e *Exec) freshVar(s Sort) *Term {
	if e.region > 0 {
		panic(regionFail{"var"})
	}
	n := len(e.pathVars)
	if e.concMode {
		v := uint64(0)
		if n < len(e.concrete) {
			v = e.concrete[n]
		}
		id := e.varID(n, s, false)
		e.pathVars = append(e.pathVars, id)
		return e.T.Const(s, v)
	}
	id := e.varID(n, s, false)
	e.pathVars = append(e.pathVars, id)
	return e.T.varTerm[id]
}
func (e *Exec) auxVar(s Sort) *Term {
	if e.region > 0 {
		panic(regionFail{"aux"})
	}
	id := e.varID(e.naux, s, true)
	e.naux++
	return e.T.varTerm[id]
}

// ---- path condition ----

func (e *Exec) setModel(v int32, u uint64) {
	if e.model[v] != u {
		e.trail = append(e.trail, trailEntry{k: tModel, i: int(v), u: e.model[v]})
		e.model[v] = u
	}
}

func bsEmpty(b *[4]uint64) bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func bsAnd(a, b *[4]uint64) *[4]uint64 {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return &[4]uint64{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}
}
func bsHas(a *[4]uint64, v uint64) bool {
	return a == nil || (v < 256 && a[v>>6]>>(v&63)&1 != 0)
}
func bsFirst(a *[4]uint64) uint64 {
	// prefer printable characters for readable witnesses
	for _, p := range "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" {
		if bsHas(a, uint64(p)) {
			return uint64(p)
		}
	}
	for i := uint64(32); i < 127; i++ {
		if bsHas(a, i) {
			return i
		}
	}
	for i := uint64(0); i < 256; i++ {
		if bsHas(a, i) {
			return i
		}
	}
	return 0
}

func (e *Exec) smallVar(v int32) bool { return e.T.varSort[v] <= 8 }

// known returns +1/-1 when c is already decided syntactically by the path condition.
func (e *Exec) known(c *Term) int {
	if c.isConst() {
		if c.k != 0 {
			return 1
		}
		return -1
	}
	if e.pcSet[c] > 0 {
		return 1
	}
	if e.pcSet[e.T.Not(c)] > 0 {
		return -1
	}
	if c.v1 >= 0 && e.smallVar(c.v1) {
		d := e.dom[c.v1]
		b := e.T.Bitset(c)
		if d != nil {
			x := bsAnd(d, b)
			if bsEmpty(x) {
				e.prune(d, c)
				return -1
			}
			if *x == *d {
				e.prune(d, e.T.Not(c))
				return 1
			}
		}
	}
	return 0
}

// addPC conjoins c (known satisfiable together with the path condition);
// patch is a model extension from the solver or nil.
func (e *Exec) addPC(c *Term, patch map[int32]uint64) {
	e.addPC1(c)
	if patch != nil {
		for v, u := range patch {
			e.setModel(v, u)
		}
	}
	if e.T.Eval(c, e.model) == 0 {
		if patch == nil && c.v1 >= 0 && e.smallVar(c.v1) && !e.inCons(c.v1) {
			e.setModel(c.v1, bsFirst(e.dom[c.v1]))
		} else {
			ok, p := e.feasibleTerm(e.T.tt, []*Term{c})
			if ok && p != nil {
				for v, u := range p {
					e.setModel(v, u)
				}
			}
		}
	}
}
func (e *Exec) addPC1(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OAnd {
		e.notePC(c)
		e.addPC1(c.a[0])
		e.addPC1(c.a[1])
		return
	}
	if c.op == ONot && c.a[0].op == OOr {
		e.notePC(c)
		e.addPC1(e.T.Not(c.a[0].a[0]))
		e.addPC1(e.T.Not(c.a[0].a[1]))
		return
	}
	if e.pcSet[c] > 0 {
		return
	}
	e.notePC(c)
	if c.v1 >= 0 && e.smallVar(c.v1) {
		d := e.dom[c.v1]
		n := bsAnd(d, e.T.Bitset(c))
		e.trail = append(e.trail, trailEntry{k: tDom, i: int(c.v1), dom: d})
		e.dom[c.v1] = n
		return
	}
	e.trail = append(e.trail, trailEntry{k: tCons, i: len(e.cons)})
	e.cons = append(e.cons, c)
}
func (e *Exec) notePC(c *Term) {
	n := e.pcSet[c]
	if n == 0 {
		e.pcSet[c] = 1
		e.trail = append(e.trail, trailEntry{k: tPC, t: c, i: 1})
	}
}

func (e *Exec) inCons(v int32) bool {
	for _, c := range e.cons {
		for _, w := range e.T.varsOf(c) {
			if w == v {
				return true
			}
		}
	}
	return false
}

// component gathers the constraints transitively sharing variables with the given terms.
func (e *Exec) component(ts []*Term) ([]*Term, []int32) {
	vs := map[int32]bool{}
	for _, t := range ts {
		for _, v := range e.T.varsOf(t) {
			vs[v] = true
		}
	}
	used := make([]bool, len(e.cons))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range e.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range e.T.varsOf(c) {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range e.T.varsOf(c) {
					vs[v] = true
				}
			}
		}
	}
	var vars []int32
	for v := range vs {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	for _, v := range vars {
		if d := e.dom[v]; d != nil {
			out = append(out, e.domTerm(v, d))
		}
	}
	return out, vars
}

func (e *Exec) domTerm(v int32, d *[4]uint64) *Term {
	x := e.T.varTerm[v]
	s := e.T.varSort[v]
	if s == 8 {
		return e.T.InSet(x, d)
	}
	r := e.T.ff
	n := 2
	if s > 0 {
		n = 1 << s
	}
	for i := 0; i < n; i++ {
		if bsHas(d, uint64(i)) {
			r = e.T.Or(r, e.T.Eq(x, e.T.Const(s, uint64(i))))
		}
	}
	return r
}

// feasible decides PC /\ c; the patch completes the current model.
func (e *Exec) feasible(c *Term) (bool, map[int32]uint64) {
	switch e.known(c) {
	case 1:
		return true, nil
	case -1:
		return false, nil
	}
	if e.T.Eval(c, e.model) != 0 {
		return true, nil
	}
	if c.v1 >= 0 && e.smallVar(c.v1) {
		b := bsAnd(e.dom[c.v1], e.T.Bitset(c))
		if bsEmpty(b) {
			e.prune(e.dom[c.v1], c)
			return false, nil
		}
		if !e.inCons(c.v1) {
			return true, map[int32]uint64{c.v1: bsFirst(b)}
		}
	}
	return e.feasibleTerm(c, nil)
}

func (e *Exec) feasibleTerm(c *Term, extra []*Term) (bool, map[int32]uint64) {
	r, m := e.query(append([]*Term{c}, extra...))
	switch r {
	case "unsat":
		return false, nil
	case "sat":
		return true, m
	}
	e.run.noteUnknown(e, "feasibility query undecided")
	return true, nil
}

// query checks the component of PC relevant to ts together with ts.
func (e *Exec) query(ts []*Term) (string, map[int32]uint64) {
	cs, vars := e.component(ts)
	all := append(cs, ts...)
	ids := make([]int, 0, len(all))
	for _, t := range all {
		if !t.isConst() {
			ids = append(ids, int(t.id))
		} else if t.k == 0 {
			return "unsat", nil
		}
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	key := sb.String()
	if r, ok := e.qcache[key]; ok {
		return r.res, r.m
	}
	res, m := e.sol.Check(all, vars)
	if len(e.qcache) > 200000 {
		e.qcache = map[string]qres{}
	}
	if res != "unknown" {
		e.qcache[key] = qres{res, m}
	}
	return res, m
}

// ---- choice ----

// choose picks one of the mutually exclusive alternatives (terms), forking
// when several are feasible.
func (e *Exec) choose(alts []*Term) int {
	feas := -1
	nf := 0
	var patch map[int32]uint64
	var feasIdx []int
	for i, a := range alts {
		switch e.known(a) {
		case 1:
			return i
		case -1:
			continue
		}
		ok, p := e.feasible(a)
		if ok {
			nf++
			feasIdx = append(feasIdx, i)
			if feas < 0 {
				feas, patch = i, p
			}
		}
	}
	if nf == 0 {
		if e.region > 0 {
			panic(regionFail{"dead"})
		}
		panic(pathEnd{"infeasible"})
	}
	if nf == 1 {
		return feas
	}
	if e.region > 0 {
		panic(regionFail{"fork"})
	}
	pos := len(e.path)
	if pos < len(e.prefix) {
		i := e.prefix[pos]
		e.path = append(e.path, i)
		ok, p := e.feasible(alts[i])
		if !ok {
			panic(pathEnd{"infeasible prefix"})
		}
		e.addPC(alts[i], p)
		return i
	}
	e.pushChoice(alts, feas, feasIdx)
	e.path = append(e.path, feas)
	e.addPC(alts[feas], patch)
	return feas
}

func (e *Exec) pushChoice(alts []*Term, first int, feas []int) {
	e.serial++
	cp := &choicePoint{serial: e.serial, trail: len(e.trail), cur: e.cur, alts: alts, next: first + 1,
		pathIdx: len(e.path), nvars: e.instrVars, naux: e.instrAux, steps: e.steps, prevTop: e.top,
		nobs: len(e.obs), nassert: e.nassert, thCur: e.th}
	for _, t := range e.threads {
		c := *t
		cp.threads = append(cp.threads, &c)
	}
	e.choices = append(e.choices, cp)
	e.top = e.serial
}

// backtrack resumes the most recent choice with an untried feasible alternative.
func (e *Exec) backtrack() bool {
	for len(e.choices) > 0 {
		cp := e.choices[len(e.choices)-1]
		e.rollback(cp.trail)
		e.cur = cp.cur
		e.path = e.path[:cp.pathIdx]
		e.pathVars = e.pathVars[:cp.nvars]
		e.naux = cp.naux
		e.steps = cp.steps
		e.obs = e.obs[:cp.nobs]
		e.nassert = cp.nassert
		e.top = cp.serial
		e.region = 0
		e.th = cp.thCur
		if len(cp.threads) > 0 {
			e.threads = e.threads[:0]
			for _, t := range cp.threads {
				c := *t
				e.threads = append(e.threads, &c)
				if cp.thCur != nil && t.id == cp.thCur.id {
					e.th = &c
				}
			}
			for i, t := range e.threads {
				if e.th != nil && t.id == e.th.id {
					e.threads[i] = e.th
				}
			}
		}
		for cp.next < len(cp.alts) {
			i := cp.next
			cp.next++
			if cp.donated[i] {
				continue
			}
			ok, p := e.feasible(cp.alts[i])
			if !ok {
				continue
			}
			e.path = append(e.path, i)
			e.addPC(cp.alts[i], p)
			return true
		}
		e.choices = e.choices[:len(e.choices)-1]
		e.top = cp.prevTop
	}
	return false
}

// donate removes the shallowest untried alternative and returns its prefix.
func (e *Exec) donate() []int {
	for _, cp := range e.choices {
		for i := cp.next; i < len(cp.alts); i++ {
			if cp.donated[i] {
				continue
			}
			if k := e.known(cp.alts[i]); k == -1 && false {
				continue
			}
			if cp.donated == nil {
				cp.donated = map[int]bool{}
			}
			cp.donated[i] = true
			pre := append([]int(nil), e.path[:cp.pathIdx]...)
			return append(pre, i)
		}
	}
	return nil
}

// concretize turns a symbolic integer into a constant, forking over its feasible values.
func (e *Exec) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.k
	}
	// enumerate feasible values
	var alts []*Term
	var vals []uint64
	if t.v1 >= 0 && e.smallVar(t.v1) {
		seen := map[uint64]bool{}
		m := make([]uint64, t.v1+1)
		n := 256
		if w := e.T.varSort[t.v1]; w < 8 {
			n = 1 << w
			if w == 0 {
				n = 2
			}
		}
		d := e.dom[t.v1]
		for i := 0; i < n; i++ {
			if !bsHas(d, uint64(i)) {
				continue
			}
			m[t.v1] = uint64(i)
			u := e.T.Eval(t, m)
			if !seen[u] {
				seen[u] = true
				vals = append(vals, u)
			}
		}
	} else {
		if e.region > 0 {
			panic(regionFail{"concretize"})
		}
		var ex []*Term
		for {
			c := e.T.tt
			for _, x := range ex {
				c = e.T.And(c, x)
			}
			var u uint64
			if len(ex) == 0 {
				u = e.T.Eval(t, e.model)
			} else {
				r, m := e.query([]*Term{c})
				if r == "unsat" {
					break
				}
				if r == "unknown" {
					e.run.noteUnknown(e, "concretisation of "+what+" undecided")
					break
				}
				mm := append([]uint64(nil), e.model...)
				for v, x := range m {
					mm[v] = x
				}
				u = e.T.Eval(t, mm)
			}
			vals = append(vals, u)
			ex = append(ex, e.T.Not(e.T.Eq(t, e.T.Const(t.sort, u))))
			if len(vals) > 300 {
				e.run.noteUnknown(e, "more than 300 values for "+what+": rest not explored")
				break
			}
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	for _, u := range vals {
		alts = append(alts, e.T.Eq(t, e.T.Const(t.sort, u)))
	}
	if len(alts) == 1 {
		return vals[0]
	}
	return vals[e.choose(alts)]
}
