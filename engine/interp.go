package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type regionStop struct {
	f    *frame
	blk  *blk // join block; nil: the frame's return
	ifAt *blk // stop when the If at the end of this block is reached
	// results
	phis  []Value
	ret   []Value
	cond  *Term
	depth int
	limit int
}

func (e *Exec) get(f *frame, o *opnd) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.v
}

func (e *Exec) pushFrame(fn *ssa.Function, args []Value, bind []Value, retDst int) *frame {
	fi := e.info(fn)
	if len(fi.blocks) == 0 {
		e.unsupported("call of function without body " + fn.String())
	}
	if !e.fnSeen[fn] {
		e.fnSeen[fn] = true
	}
	f := &frame{fi: fi, regs: make([]Value, fi.nregs), blk: fi.blocks[0], caller: e.cur, retDst: retDst, stamp: e.serial}
	if len(args) != len(fi.params) {
		panic(fmt.Sprintf("arity %v: %d args", fn, len(args)))
	}
	for i, p := range fi.params {
		f.regs[p] = args[i]
	}
	for i, p := range fi.free {
		f.regs[p] = bind[i]
	}
	e.cur = f
	d := 0
	for x := f; x != nil && d <= 2000; x = x.caller {
		d++
	}
	if d > 2000 {
		e.unsupported("call depth over 2000")
	}
	return f
}

// jump moves f along the edge from->to; phi values come from the edge unless given.
func (e *Exec) phiVals(f *frame, from, to *blk) []Value {
	if to.nphi == 0 {
		return nil
	}
	pi := -1
	for i, p := range to.preds {
		if p == from {
			pi = i
			break
		}
	}
	out := make([]Value, to.nphi)
	for i := 0; i < to.nphi; i++ {
		out[i] = e.get(f, &to.insts[i].args[pi])
	}
	return out
}
func (e *Exec) enter(f *frame, to *blk, phis []Value) {
	e.touch(f)
	f.blk = to
	f.pc = to.nphi
	for i, v := range phis {
		e.setReg(f, to.insts[i].dst, v)
	}
}

// loop interprets until the current stack is exhausted or the region stop is met.
func (e *Exec) loop(rs *regionStop) {
	base := e.steps
	for e.cur != nil {
		f := e.cur
		e.steps++
		if rs != nil {
			if e.steps-base > rs.limit {
				panic(regionFail{"limit"})
			}
		} else {
			if e.steps > e.maxSteps {
				// keep going for a while to find the frame that never returns
				d := 0
				for x := f; x != nil; x = x.caller {
					d++
				}
				if e.hangDepth == 0 || d < e.hangDepth {
					e.hangDepth, e.hangFrame = d, f
				}
				if e.steps > e.maxSteps+30000 {
					w := e.hangFrame
					e.hangDepth, e.hangFrame = 0, nil
					e.cur = w
					e.run.onStepLimit(e)
					panic(pathEnd{"steplimit"})
				}
			}
		}
		in := &f.blk.insts[f.pc]
		e.curInst = in
		e.instrVars, e.instrAux = len(e.pathVars), e.naux
		switch i := in.in.(type) {
		case *ssa.Jump:
			to := f.blk.succ[0]
			ph := e.phiVals(f, f.blk, to)
			if rs != nil && f == rs.f && to == rs.blk {
				rs.phis = ph
				return
			}
			e.enter(f, to, ph)
			continue
		case *ssa.If:
			c := e.get(f, &in.x).(*Term)
			if rs != nil && f == rs.f && rs.ifAt == f.blk {
				rs.cond = c
				return
			}
			k := 0
			if c.isConst() {
				k = 2
				if c.k != 0 {
					k = 1
				}
			} else {
				switch e.known(c) {
				case 1:
					k = 1
				case -1:
					k = 2
				}
			}
			if k == 0 {
				if e.symIf(f, in, c, rs) {
					return
				}
				continue
			}
			to := f.blk.succ[k-1]
			ph := e.phiVals(f, f.blk, to)
			if rs != nil && f == rs.f && to == rs.blk {
				rs.phis = ph
				return
			}
			e.enter(f, to, ph)
			continue
		case *ssa.Return:
			var vals []Value
			for j := range in.args {
				vals = append(vals, e.get(f, &in.args[j]))
			}
			if rs != nil && f == rs.f {
				if rs.blk == nil && rs.ifAt == nil {
					rs.ret = vals
					return
				}
				panic(regionFail{"return"})
			}
			e.doReturn(f, vals)
			continue
		case *ssa.Call:
			e.doCall(f, in, i)
			continue
		case *ssa.Panic:
			v := e.get(f, &in.x)
			if e.region > 0 {
				panic(regionFail{"panic"})
			}
			e.startPanic(v, e.panicText(v))
			continue
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				e.popDefer(f, nil)
				continue
			}
			e.touch(f)
			f.pc++
			continue
		}
		e.step(f, in)
		e.touch(f)
		f.pc++
	}
}

func (e *Exec) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(*Str); ok {
			return e.show(s)
		}
		return i.t.String()
	}
	return fmt.Sprint(v)
}

func (e *Exec) doReturn(f *frame, vals []Value) {
	if f.forDefer {
		e.finishDefer(f)
		return
	}
	e.cur = f.caller
	if e.cur == nil {
		e.threadDone()
		return
	}
	if f.retDst >= 0 {
		var v Value
		if len(vals) == 1 {
			v = vals[0]
		} else {
			v = Tuple(vals)
		}
		e.setReg(e.cur, f.retDst, v)
	}
}

func (e *Exec) threadDone() {
	if e.th != nil {
		e.th.cur = nil
		e.th.done = true
		e.schedule(true)
	}
}

// ---- defers and panics ----

func (e *Exec) popDefer(f *frame, ps *panicState) {
	if e.region > 0 {
		panic(regionFail{"defer"})
	}
	d := f.defers[len(f.defers)-1]
	e.touch(f)
	f.defers = f.defers[: len(f.defers)-1 : len(f.defers)-1]
	if d.bi != nil {
		e.callBuiltin(f, d.in, d.bi, d.args)
		if ps != nil {
			e.continuePanic(f, ps)
		}
		return
	}
	if ic := e.intrinsicFor(d.fn.fn); ic != nil {
		ic(e, f, nil, d.args)
		if ps != nil {
			e.continuePanic(f, ps)
		}
		return
	}
	g := e.pushFrame(d.fn.fn, d.args, d.fn.bind, -1)
	g.forDefer = true
	g.ps = ps
}

func (e *Exec) startPanic(v Value, msg string) {
	ps := &panicState{val: v, msg: msg, where: e.where()}
	e.continuePanic(e.cur, ps)
}

func (e *Exec) continuePanic(f *frame, ps *panicState) {
	for f != nil {
		e.touch(f)
		f.panicking = ps
		if len(f.defers) > 0 {
			e.cur = f
			e.popDefer(f, ps)
			return
		}
		if f.forDefer {
			// panic inside a deferred call replaces the panic of the caller
			f = f.caller
			continue
		}
		f = f.caller
	}
	e.cur = nil
	e.run.onPanic(e, ps)
	panic(pathEnd{"panic"})
}

func (e *Exec) finishDefer(g *frame) {
	f := g.caller
	e.cur = f
	ps := g.ps
	if ps == nil {
		return // normal RunDefers; caller re-executes RunDefers
	}
	if !ps.recovered {
		e.continuePanic(f, ps)
		return
	}
	// recovered: run remaining defers, then the recover block
	e.touch(f)
	f.panicking = nil
	if f.fi.fn.Recover == nil {
		// zero results
		if len(f.defers) > 0 {
			e.unsupported("recover with pending defers and no recover block")
		}
		var vals []Value
		res := f.fi.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			vals = append(vals, e.zero(res.At(i).Type()))
		}
		e.doReturn(f, vals)
		return
	}
	e.touch(f)
	f.blk = f.fi.blocks[f.fi.fn.Recover.Index]
	f.pc = 0
	if len(f.defers) > 0 {
		// find a RunDefers to execute first: emulate by popping here
		e.popDefer(f, nil)
	}
}

func (e *Exec) where() string {
	for f := e.cur; f != nil; f = f.caller {
		if f.fi.site {
			return f.fi.fn.String()
		}
	}
	if e.cur != nil {
		return e.cur.fi.fn.String()
	}
	return "?"
}

// ---- calls ----

func (e *Exec) doCall(f *frame, in *inst, call *ssa.Call) {
	args := make([]Value, len(in.args), len(in.args)+1)
	for j := range in.args {
		args[j] = e.get(f, &in.args[j])
	}
	if in.bi != nil {
		v := e.callBuiltin(f, in, in.bi, args)
		if in.dst >= 0 {
			e.setReg(f, in.dst, v)
		}
		e.touch(f)
		f.pc++
		return
	}
	fn := in.callee
	var bind []Value
	if fn == nil {
		if call.Call.IsInvoke() {
			iv := e.get(f, &in.x).(Iface)
			if iv.t == nil {
				e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			fn = e.method(iv.t, call.Call.Method)
			args = append([]Value{iv.v}, args...)
		} else {
			c, _ := e.get(f, &in.x).(*Closure)
			if c == nil {
				e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			if c.bi != nil {
				v := e.callBuiltin(f, in, c.bi, args)
				e.setReg(f, in.dst, v)
				e.touch(f)
				f.pc++
				return
			}
			fn, bind = c.fn, c.bind
		}
	}
	var ic intrinsic
	if in.callee != nil {
		if !in.icheck {
			in.icall = e.intrinsicFor(fn)
			in.icheck = true
		}
		ic = in.icall
	} else {
		ic = e.intrinsicFor(fn)
	}
	if ic != nil {
		cur := e.cur
		v, done := ic(e, f, in, args)
		if done {
			if e.cur == cur {
				if in.dst >= 0 {
					e.setReg(f, in.dst, v)
				}
				e.touch(f)
				f.pc++
			}
			return
		}
	}
	e.touch(f)
	f.pc++
	e.pushFrame(fn, args, bind, in.dst)
}

func (e *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	if f, ok := e.methCache[k]; ok {
		return f
	}
	f := lookupMethod(e.prog, t, m)
	if f == nil {
		e.unsupported("no method " + m.Name() + " on " + t.String())
	}
	e.methCache[k] = f
	return f
}

// ---- straight-line instructions ----

func (e *Exec) step(f *frame, in *inst) {
	switch i := in.in.(type) {
	case *ssa.BinOp:
		e.setReg(f, in.dst, e.binop(i.Op, i.X.Type(), i.Y.Type(), e.get(f, &in.x), e.get(f, &in.y)))
	case *ssa.UnOp:
		x := e.get(f, &in.x)
		switch i.Op {
		case token.MUL:
			e.setReg(f, in.dst, e.load(x.(Ptr), in.tix))
		case token.NOT:
			e.setReg(f, in.dst, e.T.Not(x.(*Term)))
		case token.SUB:
			t := x.(*Term)
			if t.sort >= SF32 {
				e.setReg(f, in.dst, e.T.op(OFNeg, t.sort, 0, t))
			} else {
				e.setReg(f, in.dst, e.T.op(OBvNeg, t.sort, 0, t))
			}
		case token.XOR:
			t := x.(*Term)
			e.setReg(f, in.dst, e.T.op(OBvNot, t.sort, 0, t))
		default:
			e.unsupported("unop " + i.Op.String())
		}
	case *ssa.Alloc:
		name := i.Comment
		e.setReg(f, in.dst, Ptr{obj: e.newObj(append([]Value(nil), in.tix.zero...), name)})
	case *ssa.Store:
		e.store(e.get(f, &in.x).(Ptr), e.get(f, &in.y))
	case *ssa.FieldAddr:
		p := e.get(f, &in.x).(Ptr)
		if p.obj == nil {
			e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		p.off += in.n
		e.setReg(f, in.dst, p)
	case *ssa.Field:
		a := e.get(f, &in.x).(Agg)
		if in.tix.kind == tkAgg {
			e.setReg(f, in.dst, Agg(a[in.n:in.n+in.tix.size:in.n+in.tix.size]))
		} else {
			e.setReg(f, in.dst, a[in.n])
		}
	case *ssa.IndexAddr:
		e.setReg(f, in.dst, e.indexAddr(in, e.get(f, &in.x), e.get(f, &in.y).(*Term), i.Index.Type()))
	case *ssa.Index:
		e.setReg(f, in.dst, e.index(in, e.get(f, &in.x), e.get(f, &in.y).(*Term), i.Index.Type()))
	case *ssa.Lookup:
		e.setReg(f, in.dst, e.lookup(i, e.get(f, &in.x), e.get(f, &in.y)))
	case *ssa.MapUpdate:
		m := e.get(f, &in.x).(*MapObj)
		if m == nil {
			e.targetPanic("assignment to entry in nil map")
		}
		e.mapUpdate(m, i.Map.Type(), e.get(f, &in.y), e.get(f, &in.z))
	case *ssa.Slice:
		e.setReg(f, in.dst, e.slice(f, in, i))
	case *ssa.ChangeType:
		e.setReg(f, in.dst, e.get(f, &in.x))
	case *ssa.ChangeInterface:
		e.setReg(f, in.dst, e.get(f, &in.x))
	case *ssa.MakeInterface:
		e.setReg(f, in.dst, Iface{t: i.X.Type(), v: e.get(f, &in.x)})
	case *ssa.TypeAssert:
		e.setReg(f, in.dst, e.typeAssert(i, e.get(f, &in.x).(Iface)))
	case *ssa.Convert:
		e.setReg(f, in.dst, e.convert(i.X.Type(), i.Type(), e.get(f, &in.x)))
	case *ssa.MultiConvert:
		e.setReg(f, in.dst, e.convert(i.X.Type(), i.Type(), e.get(f, &in.x)))
	case *ssa.Extract:
		e.setReg(f, in.dst, e.get(f, &in.x).(Tuple)[i.Index])
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for j := range in.args {
			c.bind = append(c.bind, e.get(f, &in.args[j]))
		}
		e.setReg(f, in.dst, c)
	case *ssa.MakeMap:
		e.objSeq++
		e.setReg(f, in.dst, &MapObj{stamp: e.serial, allConc: true, id: e.objSeq})
	case *ssa.MakeSlice:
		n := e.lenTerm(e.get(f, &in.x).(*Term), i.Len.Type(), "makeslice: len out of range")
		c := e.lenTerm(e.get(f, &in.y).(*Term), i.Cap.Type(), "makeslice: cap out of range")
		if n > c {
			e.targetPanic("runtime error: makeslice: cap out of range")
		}
		e.setReg(f, in.dst, e.makeSlice(in.tix, n, c))
	case *ssa.Range:
		x := e.get(f, &in.x)
		it := &Iter{stamp: e.serial}
		switch v := x.(type) {
		case *Str:
			it.str = v
		case *MapObj:
			it.m = v
			if v != nil {
				it.ks = append([]mapEntry(nil), v.entries...)
			}
		}
		e.setReg(f, in.dst, it)
	case *ssa.Next:
		e.setReg(f, in.dst, e.next(i, e.get(f, &in.x).(*Iter)))
	case *ssa.Defer:
		e.doDefer(f, in, i)
	case *ssa.Go:
		e.doGo(f, in, i)
	case *ssa.SliceToArrayPointer:
		s := e.get(f, &in.x).(Slice)
		n := int(deref(i.Type()).Underlying().(*types.Array).Len())
		if s.len < n {
			e.targetPanic("runtime error: cannot convert slice to array pointer: length out of range")
		}
		e.setReg(f, in.dst, Ptr{obj: s.obj, off: s.off})
	default:
		e.unsupported(fmt.Sprintf("instruction %T", in.in))
	}
}

func (e *Exec) makeSlice(el *typeInfo, n, c int) Slice {
	if c > 1<<21 {
		e.unsupported("huge slice")
	}
	cells := make([]Value, 0, c*el.size)
	for j := 0; j < c; j++ {
		cells = append(cells, el.zero...)
	}
	return Slice{obj: e.newObj(cells, "slice"), len: n, cap: c, esz: el.size}
}

func (e *Exec) lenTerm(t *Term, ty types.Type, msg string) int {
	ti := e.ti(ty)
	if !t.isConst() {
		if ti.sign {
			neg := e.T.Cmp(OSlt, t, e.T.Const(t.sort, 0))
			if e.choose([]*Term{e.T.Not(neg), neg}) == 1 {
				e.targetPanic("runtime error: " + msg)
			}
		}
		return int(e.concretize(t, msg))
	}
	var v int64
	if ti.sign {
		v = sext(t.k, t.sort)
	} else {
		v = int64(t.k)
	}
	if v < 0 || v > 1<<40 {
		e.targetPanic("runtime error: " + msg)
	}
	return int(v)
}

func (e *Exec) load(p Ptr, ti *typeInfo) Value {
	if p.obj == nil {
		e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if p.obj.uninit {
		e.unsupported("global " + p.obj.name + " of a package that is not modelled")
	}
	if p.sym != nil {
		return e.loadSym(p, ti)
	}
	if ti.kind == tkAgg {
		return Agg(append([]Value(nil), p.obj.cells[p.off:p.off+ti.size]...))
	}
	return p.obj.cells[p.off]
}

func (e *Exec) loadSym(p Ptr, ti *typeInfo) Value {
	if ti.kind == tkAgg {
		i := int(e.concretize(p.sym.idx, "index"))
		return e.load(Ptr{obj: p.obj, off: p.off + i*p.sym.stride}, ti)
	}
	// build an ite chain when elements are mergeable scalars
	n := p.sym.n
	var r Value
	ok := true
	for i := n - 1; i >= 0 && ok; i-- {
		v := p.obj.cells[p.off+i*p.sym.stride]
		if r == nil {
			r = v
			continue
		}
		t, ok1 := v.(*Term)
		u, ok2 := r.(*Term)
		if !ok1 || !ok2 {
			ok = false
			break
		}
		r = e.T.Ite(e.T.Eq(p.sym.idx, e.T.Const(64, uint64(i))), t, u)
	}
	if ok {
		return r
	}
	i := int(e.concretize(p.sym.idx, "index"))
	return p.obj.cells[p.off+i*p.sym.stride]
}

func (e *Exec) store(p Ptr, v Value) {
	if p.obj == nil {
		e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if p.sym != nil {
		if t, ok := v.(*Term); ok {
			for i := 0; i < p.sym.n; i++ {
				off := p.off + i*p.sym.stride
				old := p.obj.cells[off].(*Term)
				nv := e.T.Ite(e.T.Eq(p.sym.idx, e.T.Const(64, uint64(i))), t, old)
				if nv != old {
					e.setCell(p.obj, off, nv)
				}
			}
			return
		}
		i := int(e.concretize(p.sym.idx, "index"))
		p = Ptr{obj: p.obj, off: p.off + i*p.sym.stride}
	}
	if a, ok := v.(Agg); ok {
		for j, c := range a {
			e.setCell(p.obj, p.off+j, c)
		}
		return
	}
	if len(p.obj.cells) == 0 {
		return
	}
	e.setCell(p.obj, p.off, v)
}

// boundIdx checks 0 <= idx < n and returns the index as a 64-bit term.
func (e *Exec) boundIdx(idx *Term, it types.Type, n int) *Term {
	ti := e.ti(it)
	if idx.isConst() {
		var v int64
		if ti.sign {
			v = sext(idx.k, idx.sort)
		} else {
			v = int64(idx.k)
		}
		if v < 0 || v >= int64(n) {
			e.targetPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", v, n))
		}
		return e.T.Const(64, uint64(v))
	}
	if ti.sign {
		idx = e.T.SExt(idx, 64)
	} else {
		idx = e.T.ZExt(idx, 64)
	}
	in := e.T.Cmp(OUlt, idx, e.T.Const(64, uint64(n)))
	if in.isConst() {
		if in.k == 0 {
			e.targetPanic("runtime error: index out of range")
		}
		return idx
	}
	if e.choose([]*Term{in, e.T.Not(in)}) == 1 {
		e.targetPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return idx
}

func (e *Exec) indexAddr(in *inst, x Value, idx *Term, it types.Type) Value {
	var obj *Object
	var off, n int
	switch v := x.(type) {
	case Slice:
		obj, off, n = v.obj, v.off, v.len
	case Ptr:
		if v.obj == nil {
			e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if v.sym != nil {
			e.unsupported("index of symbolic pointer")
		}
		obj, off, n = v.obj, v.off, in.n
	default:
		e.unsupported("indexaddr")
	}
	i := e.boundIdx(idx, it, n)
	if i.isConst() {
		return Ptr{obj: obj, off: off + int(i.k)*in.tix.size}
	}
	if in.tix.kind != tkScalar || n > 1024 {
		c := int(e.concretize(i, "index"))
		return Ptr{obj: obj, off: off + c*in.tix.size}
	}
	return Ptr{obj: obj, off: off, sym: &SymIdx{idx: i, n: n, stride: in.tix.size}}
}

func (e *Exec) index(in *inst, x Value, idx *Term, it types.Type) Value {
	switch v := x.(type) {
	case *Str:
		i := e.boundIdx(idx, it, v.Len())
		return e.strIndex(v, i)
	case Agg:
		n := 0
		if in.tix.size > 0 {
			n = len(v) / in.tix.size
		}
		i := e.boundIdx(idx, it, n)
		if !i.isConst() && in.tix.kind == tkScalar {
			var r *Term
			for j := n - 1; j >= 0; j-- {
				t := v[j].(*Term)
				if r == nil {
					r = t
				} else {
					r = e.T.Ite(e.T.Eq(i, e.T.Const(64, uint64(j))), t, r)
				}
			}
			return r
		}
		c := int(e.concretize(i, "index"))
		if in.tix.kind == tkAgg {
			return Agg(v[c*in.tix.size : (c+1)*in.tix.size])
		}
		return v[c*in.tix.size]
	}
	e.unsupported("index")
	return nil
}

func (e *Exec) strIndex(v *Str, i *Term) Value {
	if i.isConst() {
		return e.strAt(v, int(i.k))
	}
	var r *Term
	for j := v.Len() - 1; j >= 0; j-- {
		t := e.strAt(v, j)
		if r == nil {
			r = t
		} else {
			r = e.T.Ite(e.T.Eq(i, e.T.Const(64, uint64(j))), t, r)
		}
	}
	return r
}

func (e *Exec) mapFind(m *MapObj, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	ks, conc := e.keyString(k)
	if conc && m.allConc {
		if m.index == nil {
			m.index = map[string]int{}
			for i, en := range m.entries {
				s, _ := e.keyString(en.k)
				m.index[s] = i
			}
		}
		if i, ok := m.index[ks]; ok {
			return i
		}
		return -1
	}
	var alts []*Term
	var ix []int
	none := e.T.tt
	for i, en := range m.entries {
		c := e.valEq(kt, en.k, k)
		if c.isConst() && c.k == 0 {
			continue
		}
		if c.isConst() {
			return i
		}
		alts = append(alts, e.T.And(none, c))
		ix = append(ix, i)
		none = e.T.And(none, e.T.Not(c))
	}
	if len(alts) == 0 {
		return -1
	}
	alts = append(alts, none)
	ix = append(ix, -1)
	return ix[e.choose(alts)]
}

func (e *Exec) lookup(i *ssa.Lookup, x, k Value) Value {
	switch m := x.(type) {
	case *Str:
		return e.strIndex(m, e.boundIdx(k.(*Term), i.Index.Type(), m.Len()))
	case *MapObj:
		mt := i.X.Type().Underlying().(*types.Map)
		j := e.mapFind(m, k, mt.Key())
		var v Value
		if j >= 0 {
			v = m.entries[j].v
		} else {
			v = e.zero(mt.Elem())
		}
		if i.CommaOk {
			return Tuple{v, e.T.Bool(j >= 0)}
		}
		return v
	}
	e.unsupported("lookup")
	return nil
}

func (e *Exec) mapMut(m *MapObj) {
	if e.region > 0 {
		panic(regionFail{"map"})
	}
	if m.stamp < e.top {
		c := 0
		if m.allConc {
			c = 1
		}
		e.trail = append(e.trail, trailEntry{k: tMapK, m: m, v: m.entries, i: c})
		m.entries = append([]mapEntry(nil), m.entries...)
	}
}
func (e *Exec) mapUpdate(m *MapObj, t types.Type, k, v Value) {
	mt := t.Underlying().(*types.Map)
	j := e.mapFind(m, k, mt.Key())
	e.mapMut(m)
	if j >= 0 {
		m.entries[j].v = v
		return
	}
	ks, conc := e.keyString(k)
	if !conc {
		m.allConc = false
		m.index = nil
	}
	m.entries = append(m.entries, mapEntry{k, v})
	if m.index != nil {
		m.index[ks] = len(m.entries) - 1
	}
}
func (e *Exec) mapDelete(m *MapObj, t types.Type, k Value) {
	if m == nil {
		return
	}
	mt := t.Underlying().(*types.Map)
	j := e.mapFind(m, k, mt.Key())
	if j < 0 {
		return
	}
	e.mapMut(m)
	m.entries = append(append([]mapEntry(nil), m.entries[:j]...), m.entries[j+1:]...)
	m.index = nil
}

func (e *Exec) slice(f *frame, in *inst, i *ssa.Slice) Value {
	x := e.get(f, &in.x)
	var obj *Object
	var off, ln, cp, esz int
	var str *Str
	isArr := false
	switch v := x.(type) {
	case *Str:
		str = v
		ln, cp = v.Len(), v.Len()
	case Slice:
		obj, off, ln, cp, esz = v.obj, v.off, v.len, v.cap, v.esz
	case Ptr:
		if v.obj == nil {
			e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		a := deref(i.X.Type()).Underlying().(*types.Array)
		isArr = true
		obj, off, ln, cp = v.obj, v.off, int(a.Len()), int(a.Len())
		esz = e.ti(a.Elem()).size
	}
	_ = isArr
	lo, hi, mx := 0, ln, cp
	val := func(o *opnd, v ssa.Value, limit int) int {
		t := e.get(f, o).(*Term)
		ti := e.ti(v.Type())
		if !t.isConst() {
			if ti.sign {
				t = e.T.SExt(t, 64)
			} else {
				t = e.T.ZExt(t, 64)
			}
			ok := e.T.Cmp(OUle, t, e.T.Const(64, uint64(limit)))
			if !ok.isConst() && e.choose([]*Term{ok, e.T.Not(ok)}) == 1 || ok.isConst() && ok.k == 0 {
				e.targetPanic("runtime error: slice bounds out of range")
			}
			return int(e.concretize(t, "slice bound"))
		}
		var n int64
		if ti.sign {
			n = sext(t.k, t.sort)
		} else {
			n = int64(t.k)
		}
		if n < 0 || n > int64(limit) {
			e.targetPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d] with capacity %d", n, limit))
		}
		return int(n)
	}
	if in.n&4 != 0 {
		mx = val(&in.args[2], i.Max, cp)
	}
	if in.n&2 != 0 {
		lim := mx
		hi = val(&in.args[1], i.High, lim)
	}
	if in.n&1 != 0 {
		lo = val(&in.args[0], i.Low, hi)
	} else if hi < 0 {
		hi = 0
	}
	if hi < lo {
		e.targetPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	if str != nil {
		return e.strSlice(str, lo, hi)
	}
	if obj == nil {
		return Slice{esz: esz}
	}
	return Slice{obj: obj, off: off + lo*esz, len: hi - lo, cap: mx - lo, esz: esz}
}

func (e *Exec) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if b, ok := e.implCache[k]; ok {
		return b
	}
	b := types.Implements(t, it.Underlying().(*types.Interface))
	e.implCache[k] = b
	return b
}

func (e *Exec) typeAssert(i *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if types.IsInterface(i.AssertedType) {
			ok = e.implements(x.t, i.AssertedType)
			v = x
		} else {
			ok = types.Identical(x.t, i.AssertedType)
			v = x.v
		}
	}
	if !ok {
		if i.CommaOk {
			return Tuple{e.zero(i.AssertedType), e.T.ff}
		}
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		e.targetPanic("interface conversion: interface is " + d + ", not " + i.AssertedType.String())
	}
	if i.CommaOk {
		return Tuple{v, e.T.tt}
	}
	return v
}

func (e *Exec) next(i *ssa.Next, it *Iter) Value {
	setPos := func(n int) {
		if it.stamp < e.top {
			old := it.pos
			e.addUndo(func() { it.pos = old })
		}
		it.pos = n
	}
	if i.IsString {
		if it.str == nil || it.pos >= it.str.Len() {
			return Tuple{e.T.ff, e.T.Int(0), e.T.Const(32, 0)}
		}
		r, n := e.decodeRune(e.strTerms(it.str)[it.pos:])
		p := it.pos
		setPos(p + n)
		return Tuple{e.T.tt, e.T.Int(int64(p)), r}
	}
	mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	for it.pos < len(it.ks) {
		en := it.ks[it.pos]
		setPos(it.pos + 1)
		// skip deleted entries, read current value
		for _, c := range it.m.entries {
			if q := e.valEq(mt.Key(), c.k, en.k); q.isConst() && q.k != 0 {
				return Tuple{e.T.tt, c.k, c.v}
			}
		}
	}
	return Tuple{e.T.ff, e.zero(mt.Key()), e.zero(mt.Elem())}
}

// decodeRune decodes the first UTF-8 rune, forking on its class.
func (e *Exec) decodeRune(b []*Term) (*Term, int) {
	T := e.T
	b0 := b[0]
	c8 := func(v uint64) *Term { return T.Const(8, v) }
	rng := func(t *Term, lo, hi uint64) *Term {
		return T.And(T.Cmp(OUle, c8(lo), t), T.Cmp(OUle, t, c8(hi)))
	}
	ascii := T.Cmp(OUlt, b0, c8(0x80))
	if ascii.isConst() && ascii.k != 0 || e.known(ascii) == 1 {
		return T.ZExt(b0, 32), 1
	}
	two, three, four := T.ff, T.ff, T.ff
	cont := func(i int) *Term { return rng(b[i], 0x80, 0xBF) }
	if len(b) >= 2 {
		two = T.And(rng(b0, 0xC2, 0xDF), cont(1))
	}
	if len(b) >= 3 {
		l := T.Or(T.And(T.Eq(b0, c8(0xE0)), rng(b[1], 0xA0, 0xBF)), T.Or(T.And(T.Eq(b0, c8(0xED)), rng(b[1], 0x80, 0x9F)),
			T.And(T.Or(rng(b0, 0xE1, 0xEC), rng(b0, 0xEE, 0xEF)), cont(1))))
		three = T.And(l, cont(2))
	}
	if len(b) >= 4 {
		l := T.Or(T.And(T.Eq(b0, c8(0xF0)), rng(b[1], 0x90, 0xBF)), T.Or(T.And(T.Eq(b0, c8(0xF4)), rng(b[1], 0x80, 0x8F)),
			T.And(rng(b0, 0xF1, 0xF3), cont(1))))
		four = T.And(l, T.And(cont(2), cont(3)))
	}
	bad := T.And(T.Not(ascii), T.Not(T.Or(two, T.Or(three, four))))
	low := func(t *Term, n Sort) *Term { return T.Extract(t, 0, n) }
	switch e.choose([]*Term{ascii, two, three, four, bad}) {
	case 0:
		return T.ZExt(b0, 32), 1
	case 1:
		return T.ZExt(T.Concat(low(b0, 5), low(b[1], 6)), 32), 2
	case 2:
		return T.ZExt(T.Concat(low(b0, 4), T.Concat(low(b[1], 6), low(b[2], 6))), 32), 3
	case 3:
		return T.ZExt(T.Concat(low(b0, 3), T.Concat(low(b[1], 6), T.Concat(low(b[2], 6), low(b[3], 6)))), 32), 4
	}
	return T.Const(32, 0xFFFD), 1
}

// encodeRune encodes a 32-bit rune term as UTF-8, forking on its length.
func (e *Exec) encodeRune(r *Term) []*Term {
	T := e.T
	c := func(v uint64) *Term { return T.Const(32, v) }
	ascii := T.Cmp(OUlt, r, c(0x80))
	two := T.And(T.Not(ascii), T.Cmp(OUlt, r, c(0x800)))
	surr := T.And(T.Cmp(OUle, c(0xD800), r), T.Cmp(OUle, r, c(0xDFFF)))
	three := T.And(T.And(T.Cmp(OUle, c(0x800), r), T.Cmp(OUlt, r, c(0x10000))), T.Not(surr))
	four := T.And(T.Cmp(OUle, c(0x10000), r), T.Cmp(OUle, r, c(0x10FFFF)))
	bad := T.Or(surr, T.Cmp(OUlt, c(0x10FFFF), r))
	ext := func(lo uint64, n Sort) *Term { return T.Extract(r, lo, n) }
	tag := func(v uint64, bits Sort, t *Term) *Term { return T.Concat(T.Const(bits, v), t) }
	switch e.choose([]*Term{ascii, two, three, four, bad}) {
	case 0:
		return []*Term{T.Extract(r, 0, 8)}
	case 1:
		return []*Term{tag(6, 3, ext(6, 5)), tag(2, 2, ext(0, 6))}
	case 2:
		return []*Term{tag(14, 4, ext(12, 4)), tag(2, 2, ext(6, 6)), tag(2, 2, ext(0, 6))}
	case 3:
		return []*Term{tag(30, 5, ext(18, 3)), tag(2, 2, ext(12, 6)), tag(2, 2, ext(6, 6)), tag(2, 2, ext(0, 6))}
	}
	return []*Term{T.Const(8, 0xEF), T.Const(8, 0xBF), T.Const(8, 0xBD)}
}

func (e *Exec) doDefer(f *frame, in *inst, i *ssa.Defer) {
	if e.region > 0 {
		panic(regionFail{"defer"})
	}
	var d deferred
	d.in = in
	for j := range in.args {
		d.args = append(d.args, e.get(f, &in.args[j]))
	}
	switch {
	case in.bi != nil:
		d.bi = in.bi
	case in.callee != nil:
		d.fn = e.fnVal(in.callee)
	case i.Call.IsInvoke():
		iv := e.get(f, &in.x).(Iface)
		if iv.t == nil {
			e.targetPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		d.fn = e.fnVal(e.method(iv.t, i.Call.Method))
		d.args = append([]Value{iv.v}, d.args...)
	default:
		c, _ := e.get(f, &in.x).(*Closure)
		if c == nil {
			e.unsupported("defer of nil func")
		}
		if c.bi != nil {
			d.bi = c.bi
		} else {
			d.fn = c
		}
	}
	e.touch(f)
	f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
}
