package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opnd is a pre-resolved operand: register index or constant value.
type opnd struct {
	reg int // -1: constant
	v   Value
}

type inst struct {
	in      ssa.Instruction
	dst     int
	x, y, z opnd
	args    []opnd
	t       types.Type // result type (value instructions)
	tix     *typeInfo
	n       int // assorted static number (field offset, element size...)
	// call data
	callee *ssa.Function
	bi     *ssa.Builtin
	icall  intrinsic
	icheck bool
}

type blk struct {
	idx         int
	b           *ssa.BasicBlock
	insts       []inst
	nphi        int
	succ        []*blk
	preds       []*blk
	mergeStatic int8 // 0 unknown 1 ok 2 no
	chainOK     int8
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*blk
	params   []int
	free     []int
	regOf    map[ssa.Value]int
	ipdom    []int // immediate postdominator block, -1 = exit
	pos      string
	hasDefer bool
	site     bool // function of the repository under test
}

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fns[fn]; ok {
		return fi
	}
	fi := e.compile(fn)
	e.fns[fn] = fi
	return fi
}

func (e *Exec) compile(fn *ssa.Function) *fnInfo {
	buildFn(fn)
	fi := &fnInfo{fn: fn, regOf: map[ssa.Value]int{}}
	if fn.Blocks == nil {
		return fi
	}
	fi.pos = fn.String()
	fi.site = isRepoFn(fn)
	n := 0
	for _, p := range fn.Params {
		fi.regOf[p] = n
		fi.params = append(fi.params, n)
		n++
	}
	for _, p := range fn.FreeVars {
		fi.regOf[p] = n
		fi.free = append(fi.free, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.regOf[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	for _, b := range fn.Blocks {
		fi.blocks = append(fi.blocks, &blk{idx: b.Index, b: b})
	}
	for i, b := range fn.Blocks {
		bk := fi.blocks[i]
		for _, s := range b.Succs {
			bk.succ = append(bk.succ, fi.blocks[s.Index])
		}
		for _, s := range b.Preds {
			bk.preds = append(bk.preds, fi.blocks[s.Index])
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok {
				bk.nphi++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
			bk.insts = append(bk.insts, e.compileInst(fi, in))
		}
	}
	fi.ipdom = postdoms(fi)
	return fi
}

func (e *Exec) opnd(fi *fnInfo, v ssa.Value) opnd {
	if v == nil {
		return opnd{reg: -1}
	}
	switch c := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, v: e.constVal(c)}
	case *ssa.Global:
		return opnd{reg: -1, v: Ptr{obj: e.global(c)}}
	case *ssa.Function:
		return opnd{reg: -1, v: e.fnVal(c)}
	case *ssa.Builtin:
		return opnd{reg: -1, v: &Closure{bi: c}}
	}
	r, ok := fi.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v (%T) in %v", v, v, fi.fn))
	}
	return opnd{reg: r}
}

func (e *Exec) fnVal(f *ssa.Function) *Closure {
	if c, ok := e.fnVals[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	e.fnVals[f] = c
	return c
}

func (e *Exec) global(g *ssa.Global) *Object {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := e.allocType(deref(g.Type()), g.String())
	o.stamp = 0
	o.uninit = g.Pkg != nil && !initAllowed(g.Pkg.Pkg.Path()) && g.Pkg.Pkg.Path() != "internal/cpu" && !strings.HasSuffix(g.Name(), "init$guard")
	if g.String() == "net.v4InV6Prefix" {
		var b []*Term
		for _, c := range []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff} {
			b = append(b, e.T.Const(8, uint64(c)))
		}
		s := e.bytesSlice(b)
		s.obj.stamp = 0
		o.cells[0], o.uninit = s, false
	}
	e.globals[g] = o
	return o
}

func (e *Exec) compileInst(fi *fnInfo, in ssa.Instruction) inst {
	r := inst{in: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		r.dst = fi.regOf[v]
		r.t = v.Type()
	}
	o := func(v ssa.Value) opnd { return e.opnd(fi, v) }
	switch i := in.(type) {
	case *ssa.BinOp:
		r.x, r.y = o(i.X), o(i.Y)
	case *ssa.UnOp:
		r.x = o(i.X)
		if i.Op == token.MUL {
			r.tix = e.ti(i.Type())
		}
	case *ssa.Alloc:
		r.tix = e.ti(deref(i.Type()))
	case *ssa.Store:
		r.x, r.y = o(i.Addr), o(i.Val)
	case *ssa.FieldAddr:
		r.x = o(i.X)
		r.n = e.fieldOff(deref(i.X.Type()).Underlying().(*types.Struct), i.Field)
	case *ssa.Field:
		r.x = o(i.X)
		r.n = e.fieldOff(i.X.Type().Underlying().(*types.Struct), i.Field)
		r.tix = e.ti(i.Type())
	case *ssa.IndexAddr:
		r.x, r.y = o(i.X), o(i.Index)
		r.tix = e.ti(deref(i.Type()))
		if a, ok := deref(i.X.Type()).Underlying().(*types.Array); ok {
			r.n = int(a.Len())
		}
	case *ssa.Index:
		r.x, r.y = o(i.X), o(i.Index)
		r.tix = e.ti(i.Type())
	case *ssa.Lookup:
		r.x, r.y = o(i.X), o(i.Index)
	case *ssa.MapUpdate:
		r.x, r.y, r.z = o(i.Map), o(i.Key), o(i.Value)
	case *ssa.Slice:
		r.x = o(i.X)
		r.args = []opnd{o(i.Low), o(i.High), o(i.Max)}
		r.n = 0
		if i.Low != nil {
			r.n |= 1
		}
		if i.High != nil {
			r.n |= 2
		}
		if i.Max != nil {
			r.n |= 4
		}
	case *ssa.Phi:
		for _, ed := range i.Edges {
			r.args = append(r.args, o(ed))
		}
	case *ssa.Call:
		e.compileCall(fi, &r, &i.Call)
	case *ssa.Defer:
		e.compileCall(fi, &r, &i.Call)
	case *ssa.Go:
		e.compileCall(fi, &r, &i.Call)
	case *ssa.MakeClosure:
		for _, b := range i.Bindings {
			r.args = append(r.args, o(b))
		}
	case *ssa.MakeSlice:
		r.x, r.y = o(i.Len), o(i.Cap)
		r.tix = e.ti(i.Type().Underlying().(*types.Slice).Elem())
	case *ssa.Return:
		for _, x := range i.Results {
			r.args = append(r.args, o(x))
		}
	case *ssa.If:
		r.x = o(i.Cond)
	case *ssa.MakeChan, *ssa.Select, *ssa.Send:
	default:
		// single operand instructions
		ops := in.Operands(nil)
		if len(ops) > 0 && ops[0] != nil && *ops[0] != nil {
			r.x = o(*ops[0])
		}
	}
	return r
}

func (e *Exec) compileCall(fi *fnInfo, r *inst, c *ssa.CallCommon) {
	for _, a := range c.Args {
		r.args = append(r.args, e.opnd(fi, a))
	}
	if c.IsInvoke() {
		r.x = e.opnd(fi, c.Value)
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		r.callee = v
	case *ssa.Builtin:
		r.bi = v
	default:
		r.x = e.opnd(fi, c.Value)
	}
}

// postdoms computes immediate postdominators (exit = virtual node).
func postdoms(fi *fnInfo) []int {
	n := len(fi.blocks)
	exit := n
	// sets as bitsets; n is small
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			succs := fi.blocks[i].succ
			if len(succs) == 0 {
				// panic blocks do not rejoin: treat as exit only when a return
				isRet := false
				if k := len(fi.blocks[i].insts); k > 0 {
					_, isRet = fi.blocks[i].insts[k-1].in.(*ssa.Return)
				}
				if isRet {
					copy(nw, pd[exit])
				}
				// panicking blocks keep the full set (they never constrain)
			}
			for _, s := range succs {
				for w := range nw {
					nw[w] &= pd[s.idx][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]>>(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		res[i] = -1
		best := -1
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j/64]>>(j%64)&1 == 0 {
				continue
			}
			// the immediate one has the largest postdominator set
			if c := cnt(pd[j]); c > best {
				best = c
				res[i] = j
			}
		}
		if res[i] == exit {
			res[i] = -1
		}
	}
	return res
}
