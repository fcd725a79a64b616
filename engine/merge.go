package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	regionSteps    = 3000
	maxRegionDepth = 10
)

type exitEdge struct {
	to, from *blk
	guard    *Term
}

// symIf handles a branch on an undecided condition: short-circuit chains are
// folded into one condition, then a side-effect free diamond is merged, and
// otherwise the path forks. It returns true when the region stop was reached.
func (e *Exec) symIf(f *frame, in *inst, c *Term, rs *regionStop) bool {
	// feasibility of both sides
	okT, pT := e.feasible(c)
	if !okT {
		return e.goEdge(f, f.blk, f.blk.succ[1], nil, rs)
	}
	nc := e.T.Not(c)
	okF, pF := e.feasible(nc)
	if !okF {
		return e.goEdge(f, f.blk, f.blk.succ[0], nil, rs)
	}
	b0 := f.blk
	toT, toF := b0.succ[0], b0.succ[1]
	var phT, phF []Value
	site := siteKey(f, in)
	var exits []exitEdge
	nabs, okC := 0, false
	if !e.noMerge[site+"#c"] {
		exits, nabs, okC = e.chain(f, c, pT, pF)
		if !okC {
			e.note(site + "#c")
		}
	}
	if okC && nabs > 0 {
		// group by target
		var targets []*blk
		guards := map[*blk]*Term{}
		for _, x := range exits {
			if g, ok := guards[x.to]; ok {
				guards[x.to] = e.T.Or(g, x.guard)
			} else {
				targets = append(targets, x.to)
				guards[x.to] = x.guard
			}
		}
		phs := map[*blk][]Value{}
		good := len(targets) <= 2
		for _, t := range targets {
			var acc []Value
			first := true
			for _, x := range exits {
				if x.to != t {
					continue
				}
				ph := e.phiVals(f, x.from, t)
				if first {
					acc, first = ph, false
					continue
				}
				for k := range ph {
					m, ok := e.mergeVal(x.guard, ph[k], acc[k])
					if !ok {
						good = false
						break
					}
					acc[k] = m
				}
			}
			phs[t] = acc
		}
		if good {
			e.chainOK++
			if e.learn != nil {
				e.learnOK[site+"#c"]++
			}
			if len(targets) == 1 {
				return e.goEdge(f, nil, targets[0], phs[targets[0]], rs)
			}
			// keep the orientation
			toT, toF = targets[0], targets[1]
			phT, phF = phs[toT], phs[toF]
			if phT == nil {
				phT = []Value{}
			}
			if phF == nil {
				phF = []Value{}
			}
			c = guards[toT]
			nc = e.T.Not(c)
			switch e.known(c) {
			case 1:
				return e.goEdge(f, nil, toT, phT, rs)
			case -1:
				return e.goEdge(f, nil, toF, phF, rs)
			}
			okT, pT = e.feasible(c)
			if !okT {
				return e.goEdge(f, nil, toF, phF, rs)
			}
			okF, pF = e.feasible(nc)
			if !okF {
				return e.goEdge(f, nil, toT, phT, rs)
			}
		} else {
			e.note(site + "#c")
		}
	}
	if !e.noMerge[site] && e.region < maxRegionDepth {
		if done, stop := e.tryMerge(f, in, b0, c, toT, toF, phT, phF, pT, pF, rs); done {
			e.mergesOK++
			if e.learn != nil {
				e.learnOK[site]++
			}
			return stop
		}
		e.mergesBad++
		e.note(site)
	}
	if e.region > 0 {
		panic(regionFail{"fork"})
	}
	// real fork
	from := b0
	if phT != nil {
		from = nil
	}
	if e.choose2(c, nc, pT, pF) == 0 {
		return e.goEdge(f, from, toT, phT, rs)
	}
	return e.goEdge(f, from, toF, phF, rs)
}

func siteKey(f *frame, in *inst) string {
	return f.fi.pos + "@" + itoa(f.blk.idx)
}

func (e *Exec) note(site string) {
	if e.learn != nil {
		e.learn[site]++
	}
}

// choose2 is choose for two alternatives already known to be feasible.
func (e *Exec) choose2(c, nc *Term, pT, pF map[int32]uint64) int {
	pos := len(e.path)
	if pos < len(e.prefix) {
		i := e.prefix[pos]
		e.path = append(e.path, i)
		if i == 0 {
			e.addPC(c, pT)
		} else {
			e.addPC(nc, pF)
		}
		return i
	}
	e.pushChoice([]*Term{c, nc}, 0, nil)
	e.path = append(e.path, 0)
	e.addPC(c, pT)
	return 0
}

func (e *Exec) goEdge(f *frame, from, to *blk, ph []Value, rs *regionStop) bool {
	if from != nil {
		ph = e.phiVals(f, from, to)
	}
	if rs != nil && f == rs.f && to == rs.blk {
		rs.phis = ph
		return true
	}
	e.enter(f, to, ph)
	return false
}

type regWrite struct {
	i int
	v Value
}

// chain absorbs side-effect free successor blocks that only compute another
// condition over the same targets (a||b, a&&b, multi-value switch cases).
func (e *Exec) chain(f *frame, c *Term, pT, pF map[int32]uint64) (exits []exitEdge, absorbed int, ok bool) {
	b0 := f.blk
	exits = []exitEdge{{b0.succ[0], b0, c}, {b0.succ[1], b0, e.T.Not(c)}}
	region := map[*blk]bool{b0: true}
	for iter := 0; iter < 64; iter++ {
		var X *blk
		for _, x := range exits {
			t := x.to
			if region[t] || t.nphi > 0 || !t.absorbable() {
				continue
			}
			allIn := true
			for _, p := range t.preds {
				if !region[p] {
					allIn = false
				}
			}
			if !allIn {
				continue
			}
			shared := false
			for _, s := range t.succ {
				for _, y := range exits {
					if y.to == s && y.to != t {
						shared = true
					}
				}
			}
			if t.succ[0] == t.succ[1] {
				continue
			}
			if shared {
				X = t
				break
			}
		}
		if X == nil {
			break
		}
		g := e.T.ff
		var rest []exitEdge
		for _, x := range exits {
			if x.to == X {
				g = e.T.Or(g, x.guard)
			} else {
				rest = append(rest, x)
			}
		}
		okg, pg := e.feasible(g)
		if !okg {
			exits = rest
			region[X] = true
			absorbed++
			continue
		}
		cond, regs, ok := e.evalBlock(f, X, g, pg)
		if !ok {
			return exits, absorbed, absorbed > 0
		}
		for _, r := range regs {
			e.setReg(f, r.i, r.v)
		}
		region[X] = true
		absorbed++
		if k := e.knownUnder(cond); k != 0 {
			s := X.succ[0]
			if k < 0 {
				s = X.succ[1]
			}
			exits = append(rest, exitEdge{s, X, g})
			continue
		}
		exits = append(rest, exitEdge{X.succ[0], X, e.T.And(g, cond)}, exitEdge{X.succ[1], X, e.T.And(g, e.T.Not(cond))})
	}
	return exits, absorbed, true
}

func (e *Exec) knownUnder(c *Term) int {
	if c.isConst() {
		if c.k != 0 {
			return 1
		}
		return -1
	}
	return 0
}

// absorbable: ends with If and contains only instructions without effects.
func (b *blk) absorbable() bool {
	if b.chainOK == 0 {
		b.chainOK = 2
		n := len(b.insts)
		if n > 0 && n <= 16 {
			if _, ok := b.insts[n-1].in.(*ssa.If); ok {
				b.chainOK = 1
				for i := 0; i < n-1; i++ {
					switch b.insts[i].in.(type) {
					case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.RunDefers, *ssa.Next, *ssa.Range, *ssa.Select, *ssa.MakeClosure:
						b.chainOK = 2
					}
				}
			}
		}
	}
	return b.chainOK == 1
}

func (e *Exec) mark() (int, uint64) {
	e.serial++
	prev := e.top
	e.top = e.serial
	return len(e.trail), prev
}

type heapKey struct {
	o *Object
	i int
}

// effects returns the heap cells (of older objects) written since the mark.
func (e *Exec) effects(from int) (map[heapKey]Value, bool) {
	var m map[heapKey]Value
	for i := from; i < len(e.trail); i++ {
		t := &e.trail[i]
		switch t.k {
		case tCell:
			if m == nil {
				m = map[heapKey]Value{}
			}
			m[heapKey{t.o, t.i}] = t.o.cells[t.i]
		case tMapK, tUndo, tVars:
			return nil, false
		}
	}
	return m, true
}

// evalBlock runs block X of f under guard g up to its final If; the registers
// written are returned, nothing else may change.
func (e *Exec) evalBlock(f *frame, X *blk, g *Term, pg map[int32]uint64) (cond *Term, regs []regWrite, ok bool) {
	tl, prev := e.mark()
	sb, sp, sd := f.blk, f.pc, f.defers
	cur, inst := e.cur, e.curInst
	iv, ia := e.instrVars, e.instrAux
	e.region++
	rdepth := e.region
	npath := len(e.path)
	defer func() {
		e.curInst, e.instrVars, e.instrAux = inst, iv, ia
		if r := recover(); r != nil {
			switch r.(type) {
			case regionFail, targetPanicT, unsupportedT, pathEnd:
			default:
				panic(r)
			}
			ok = false
		}
		e.region = rdepth - 1
		e.rollback(tl)
		e.cur = cur
		e.top = prev
		e.path = e.path[:npath]
		f.blk, f.pc, f.defers = sb, sp, sd
	}()
	e.addPC(g, pg)
	e.touch(f)
	f.blk, f.pc = X, 0
	rs := &regionStop{f: f, ifAt: X, limit: regionSteps}
	e.loop(rs)
	if rs.cond == nil {
		return nil, nil, false
	}
	eff, okE := e.effects(tl)
	if !okE || len(eff) > 0 {
		return nil, nil, false
	}
	seen := map[int]bool{}
	for i := tl; i < len(e.trail); i++ {
		t := &e.trail[i]
		if t.k == tReg && t.f == f && !seen[t.i] {
			seen[t.i] = true
			regs = append(regs, regWrite{t.i, f.regs[t.i]})
		}
	}
	if f.stamp >= e.top {
		return nil, nil, false
	}
	return rs.cond, regs, true
}

type sideRes struct {
	eff  map[heapKey]Value
	phis []Value
	ret  []Value
}

// runSide executes one side of a diamond from the edge to the join.
func (e *Exec) runSide(f *frame, from, to *blk, ph []Value, c *Term, patch map[int32]uint64, join *blk) (res *sideRes, ok bool) {
	tl, prev := e.mark()
	cur, inst := e.cur, e.curInst
	iv, ia := e.instrVars, e.instrAux
	e.region++
	rdepth := e.region
	npath := len(e.path)
	defer func() {
		e.curInst, e.instrVars, e.instrAux = inst, iv, ia
		if r := recover(); r != nil {
			switch r.(type) {
			case regionFail, targetPanicT, unsupportedT, pathEnd:
			default:
				panic(r)
			}
			ok = false
		}
		e.region = rdepth - 1
		e.rollback(tl)
		e.cur = cur
		e.top = prev
		e.path = e.path[:npath]
	}()
	e.addPC(c, patch)
	if ph == nil || from != nil {
		ph = e.phiVals(f, from, to)
	}
	rs := &regionStop{f: f, blk: join, limit: regionSteps}
	if to == join {
		rs.phis = ph
	} else {
		e.enter(f, to, ph)
		e.loop(rs)
	}
	eff, okE := e.effects(tl)
	if !okE {
		return nil, false
	}
	return &sideRes{eff: eff, phis: rs.phis, ret: rs.ret}, true
}

func (e *Exec) tryMerge(f *frame, in *inst, b0 *blk, c *Term, toT, toF *blk, phT, phF []Value, pT, pF map[int32]uint64, rs *regionStop) (done, stop bool) {
	ji := f.fi.ipdom[b0.idx]
	var join *blk
	if ji >= 0 {
		join = f.fi.blocks[ji]
	} else {
		if f.fi.hasDefer || f.forDefer || f.caller == nil {
			return false, false
		}
	}
	if !e.mergeable(f.fi, b0, join) {
		return false, false
	}
	var from *blk = b0
	if phT != nil {
		from = nil
	}
	// the outer region stop cannot lie strictly inside this region because the
	// outer join postdominates
	a, ok := e.runSide(f, from, toT, phT, c, pT, join)
	if !ok {
		return false, false
	}
	b, ok := e.runSide(f, from, toF, phF, e.T.Not(c), pF, join)
	if !ok {
		return false, false
	}
	// merge heap effects
	type wr struct {
		k heapKey
		v Value
	}
	var writes []wr
	for k, va := range a.eff {
		vb, ok := b.eff[k]
		if !ok {
			vb = k.o.cells[k.i]
		}
		m, ok := e.mergeVal(c, va, vb)
		if !ok {
			return false, false
		}
		writes = append(writes, wr{k, m})
	}
	for k, vb := range b.eff {
		if _, ok := a.eff[k]; ok {
			continue
		}
		m, ok := e.mergeVal(c, k.o.cells[k.i], vb)
		if !ok {
			return false, false
		}
		writes = append(writes, wr{k, m})
	}
	if join != nil {
		if len(a.phis) != len(b.phis) {
			return false, false
		}
		ph := make([]Value, len(a.phis))
		for i := range ph {
			m, ok := e.mergeVal(c, a.phis[i], b.phis[i])
			if !ok {
				return false, false
			}
			ph[i] = m
		}
		for _, w := range writes {
			e.setCell(w.k.o, w.k.i, w.v)
		}
		if rs != nil && f == rs.f && join == rs.blk {
			rs.phis = ph
			return true, true
		}
		e.enter(f, join, ph)
		return true, false
	}
	if len(a.ret) != len(b.ret) {
		return false, false
	}
	ret := make([]Value, len(a.ret))
	for i := range ret {
		m, ok := e.mergeVal(c, a.ret[i], b.ret[i])
		if !ok {
			return false, false
		}
		ret[i] = m
	}
	for _, w := range writes {
		e.setCell(w.k.o, w.k.i, w.v)
	}
	if rs != nil && f == rs.f {
		if rs.blk == nil && rs.ifAt == nil {
			rs.ret = ret
			return true, true
		}
		panic(regionFail{"return"})
	}
	e.doReturn(f, ret)
	return true, false
}

// mergeable: static screening of the region between b0 and the join.
func (e *Exec) mergeable(fi *fnInfo, b0, join *blk) bool {
	if b0.mergeStatic != 0 {
		return b0.mergeStatic == 1
	}
	b0.mergeStatic = 2
	seen := map[*blk]bool{}
	stack := []*blk{b0.succ[0], b0.succ[1]}
	ninst := 0
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if b == join || seen[b] {
			continue
		}
		if b == b0 {
			return false // loop
		}
		seen[b] = true
		ninst += len(b.insts)
		if len(seen) > 24 || ninst > 200 {
			return false
		}
		for i := range b.insts {
			switch x := b.insts[i].in.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.RunDefers, *ssa.MapUpdate, *ssa.Panic:
				return false
			case *ssa.Phi:
				_ = x
			}
		}
		stack = append(stack, b.succ...)
	}
	// phis of reference type that differ cannot be merged
	if join != nil {
		for i := 0; i < join.nphi; i++ {
			ph := join.insts[i].in.(*ssa.Phi)
			switch ph.Type().Underlying().(type) {
			case *types.Basic:
			default:
				// differing edges from inside the region?
				var v ssa.Value
				for k, p := range ph.Block().Preds {
					pb := fi.blocks[p.Index]
					if !seen[pb] && pb != b0 {
						continue
					}
					if v == nil {
						v = ph.Edges[k]
					} else if v != ph.Edges[k] {
						return false
					}
				}
			}
		}
	}
	b0.mergeStatic = 1
	return true
}

// mergeVal builds ite(c, a, b) when the values are mergeable.
func (e *Exec) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.sort > 16 && (x.isConst() || y.isConst()) {
			return nil, false
		}
		return e.T.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.Len() != y.Len() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return x, true
		}
		r := make([]*Term, x.Len())
		for i := range r {
			r[i] = e.T.Ite(c, e.strAt(x, i), e.strAt(y, i))
		}
		return e.strFromTerms(r), true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x.obj == y.obj && x.off == y.off && x.sym == nil && y.sym == nil
	case Slice:
		y, ok := b.(Slice)
		return a, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return a, x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := e.mergeVal(c, x.v, y.v)
		return Iface{x.t, v}, ok
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return a, ok && x == y
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range r {
			v, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range r {
			v, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case UPtr:
		y, ok := b.(UPtr)
		return a, ok && x == y
	case nil:
		return nil, b == nil
	}
	return nil, false
}
