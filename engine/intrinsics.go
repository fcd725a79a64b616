package main

import (
	"fmt"
	"go/types"
	"math"
	"net"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// intrinsic models a function; done=false falls back to interpreting its body.
type intrinsic func(e *Exec, f *frame, in *inst, args []Value) (Value, bool)

const symPkg = "verif/harness/sym."

var intrinsics map[string]intrinsic

func (e *Exec) intrinsicFor(fn *ssa.Function) intrinsic {
	if r, ok := e.icache[fn]; ok {
		return r
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	r := intrinsics[name]
	if r == nil && fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn == fn.Pkg.Func("init") {
		if !initAllowed(fn.Pkg.Pkg.Path()) {
			r = func(e *Exec, f *frame, in *inst, args []Value) (Value, bool) { return nil, true }
		}
	}
	e.icache[fn] = r
	return r
}

func conc(args ...Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *Term:
			if !x.isConst() {
				return false
			}
		case *Str:
			if x.b != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func cint(v Value) int64 {
	t := v.(*Term)
	return sext(t.k, t.sort)
}

// noFork lets an intrinsic be used inside merge regions (choose fails them).
func (e *Exec) effect() {
	if e.region > 0 {
		panic(regionFail{"effect"})
	}
}

// assume adds c to the path condition or ends the path.
func (e *Exec) assume(c *Term) {
	e.effect()
	switch e.known(c) {
	case 1:
		return
	case -1:
		panic(pathEnd{"assume"})
	}
	ok, p := e.feasible(c)
	if !ok {
		panic(pathEnd{"assume"})
	}
	e.addPC(c, p)
}

func (e *Exec) symBytes(n int) []*Term {
	b := make([]*Term, n)
	for i := range b {
		b[i] = e.freshVar(8)
	}
	return b
}

func strArg(v Value) *Str { return v.(*Str) }

// allASCII is the condition that every byte is below 0x80.
func (e *Exec) allASCII(b []*Term) *Term {
	c := e.T.tt
	for _, t := range b {
		c = e.T.And(c, e.T.Cmp(OUlt, t, e.T.Const(8, 0x80)))
	}
	return c
}

func (e *Exec) boundEnd(what string) {
	e.effect()
	e.run.noteBound(what)
	panic(pathEnd{"bound: " + what})
}

func (e *Exec) caseMap(s *Str, upper bool) *Str {
	T := e.T
	if s.b == nil {
		if upper {
			return mkStr(strings.ToUpper(s.s))
		}
		return mkStr(strings.ToLower(s.s))
	}
	c := e.allASCII(s.b)
	if e.choose([]*Term{c, T.Not(c)}) == 1 {
		e.boundEnd("case mapping of non-ASCII text")
	}
	return e.strFromTerms(e.caseBytes(s.b, upper))
}

func (e *Exec) caseBytes(b []*Term, upper bool) []*Term {
	T := e.T
	r := make([]*Term, len(b))
	for i, t := range b {
		lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
		if upper {
			lo, hi, d = 'a', 'z', 256-32
		}
		in := T.And(T.Cmp(OUle, T.Const(8, lo), t), T.Cmp(OUle, t, T.Const(8, hi)))
		switch e.known(in) {
		case 1:
			r[i] = T.Bin(OAdd, t, T.Const(8, d))
		case -1:
			r[i] = t
		default:
			r[i] = T.Ite(in, T.Bin(OAdd, t, T.Const(8, d)), t)
		}
	}
	return r
}

func isSpaceTerm(e *Exec, t *Term) *Term {
	var set [4]uint64
	for _, c := range "\t\n\v\f\r " {
		set[c>>6] |= 1 << (uint(c) & 63)
	}
	return e.T.InSet(t, &set)
}

// indexOf returns the first position of sub in b at or after 0, forking.
func (e *Exec) indexOf(b []*Term, sub []*Term) int {
	T := e.T
	n := len(sub)
	if n == 0 {
		return 0
	}
	var alts []*Term
	var pos []int
	none := T.tt
	for i := 0; i+n <= len(b); i++ {
		m := T.tt
		for j := 0; j < n; j++ {
			m = T.And(m, T.Eq(b[i+j], sub[j]))
		}
		if m == T.ff {
			continue
		}
		alts = append(alts, T.And(none, m))
		pos = append(pos, i)
		if m == T.tt {
			none = T.ff
			break
		}
		none = T.And(none, T.Not(m))
	}
	if none != T.ff {
		alts = append(alts, none)
		pos = append(pos, -1)
	}
	return pos[e.choose(alts)]
}

func (e *Exec) lastIndexOf(b []*Term, sub []*Term) int {
	T := e.T
	n := len(sub)
	if n == 0 {
		return len(b)
	}
	var alts []*Term
	var pos []int
	none := T.tt
	for i := len(b) - n; i >= 0; i-- {
		m := T.tt
		for j := 0; j < n; j++ {
			m = T.And(m, T.Eq(b[i+j], sub[j]))
		}
		if m == T.ff {
			continue
		}
		alts = append(alts, T.And(none, m))
		pos = append(pos, i)
		if m == T.tt {
			none = T.ff
			break
		}
		none = T.And(none, T.Not(m))
	}
	if none != T.ff {
		alts = append(alts, none)
		pos = append(pos, -1)
	}
	return pos[e.choose(alts)]
}

// ---- decimal numbers ----

// digitsOf renders the magnitude term (64 bit, unsigned) in decimal.
func (e *Exec) digitsOf(v *Term) []*Term {
	T := e.T
	d, ok := e.provDigits[v]
	for _, t := range d {
		if e.known(T.And(T.Cmp(OUle, T.Const(8, '0'), t), T.Cmp(OUle, t, T.Const(8, '9')))) != 1 {
			ok = false
		}
	}
	if ok && len(d) > 0 {
		// strip leading zeros, forking on how many there are
		k := 0
		for k < len(d)-1 {
			z := T.Eq(d[k], T.Const(8, '0'))
			if e.choose([]*Term{T.Not(z), z}) == 0 {
				break
			}
			k++
		}
		return d[k:]
	}
	if v.isConst() {
		return e.strTerms(mkStr(strconv.FormatUint(v.k, 10)))
	}
	var alts []*Term
	lim := uint64(10)
	lo := uint64(0)
	n := 0
	for n = 1; n <= 20; n++ {
		var c *Term
		if n == 20 {
			c = T.Cmp(OUle, T.Const(64, lo), v)
		} else {
			c = T.And(T.Cmp(OUle, T.Const(64, lo), v), T.Cmp(OUlt, v, T.Const(64, lim)))
		}
		alts = append(alts, c)
		lo = lim
		lim *= 10
	}
	n = e.choose(alts) + 1
	if e.region > 0 {
		panic(regionFail{"digits"})
	}
	// unique decomposition: fresh digits constrained to denote v
	digs := make([]*Term, n)
	sum := T.Const(64, 0)
	cs := T.tt
	for i := range digs {
		d := e.auxVar(8)
		cs = T.And(cs, T.And(T.Cmp(OUle, T.Const(8, '0'), d), T.Cmp(OUle, d, T.Const(8, '9'))))
		if i == 0 && n > 1 {
			cs = T.And(cs, T.Not(T.Eq(d, T.Const(8, '0'))))
		}
		digs[i] = d
		sum = T.Bin(OAdd, T.Bin(OMul, sum, T.Const(64, 10)), T.ZExt(T.Bin(OSub, d, T.Const(8, '0')), 64))
	}
	cs = T.And(cs, T.Eq(sum, v))
	// value known: set the model directly
	u := e.T.Eval(v, e.model)
	patch := map[int32]uint64{}
	s := strconv.FormatUint(u, 10)
	if len(s) == n {
		for i := range digs {
			patch[digs[i].v1] = uint64(s[i])
		}
		e.addPC(cs, patch)
	} else {
		e.assume(cs)
	}
	k := digKey(digs)
	e.addUndo(func() { delete(e.provDigits, v); delete(e.numOf, k) })
	e.provDigits[v] = digs
	e.numOf[k] = v
	return digs
}

func digKey(d []*Term) string {
	var sb strings.Builder
	for _, t := range d {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	return sb.String()
}

func (e *Exec) formatInt(v *Term, signed bool) *Str {
	T := e.T
	if v.isConst() {
		if signed {
			return mkStr(strconv.FormatInt(sext(v.k, v.sort), 10))
		}
		return mkStr(strconv.FormatUint(v.k, 10))
	}
	if signed {
		v = T.SExt(v, 64)
		neg := T.Cmp(OSlt, v, T.Const(64, 0))
		if e.choose([]*Term{T.Not(neg), neg}) == 1 {
			m := T.op(OBvNeg, 64, 0, v)
			return e.strFromTerms(append([]*Term{T.Const(8, '-')}, e.digitsOf(m)...))
		}
	} else {
		v = T.ZExt(v, 64)
	}
	return e.strFromTerms(e.digitsOf(v))
}

// parseDec parses b as [sign]digits; ok=false: syntax error. Only lengths that
// cannot overflow are handled (len<=18).
func (e *Exec) parseDec(b []*Term) (*Term, bool) {
	T := e.T
	neg := false
	if len(b) > 0 {
		plus := T.Eq(b[0], T.Const(8, '+'))
		minus := T.Eq(b[0], T.Const(8, '-'))
		switch e.choose([]*Term{T.And(T.Not(plus), T.Not(minus)), plus, minus}) {
		case 1:
			b = b[1:]
		case 2:
			neg = true
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return nil, false
	}
	ok := T.tt
	for _, t := range b {
		ok = T.And(ok, T.And(T.Cmp(OUle, T.Const(8, '0'), t), T.Cmp(OUle, t, T.Const(8, '9'))))
	}
	if e.choose([]*Term{ok, T.Not(ok)}) == 1 {
		return nil, false
	}
	var v *Term
	if k, found := e.numOf[digKey(b)]; found {
		v = k
	} else {
		v = T.Const(64, 0)
		for _, t := range b {
			v = T.Bin(OAdd, T.Bin(OMul, v, T.Const(64, 10)), T.ZExt(T.Bin(OSub, t, T.Const(8, '0')), 64))
		}
		if !v.isConst() && e.provDigits[v] == nil {
			e.provDigits[v] = b
		}
	}
	if neg {
		v = T.op(OBvNeg, 64, 0, v)
	}
	return v, true
}

func (e *Exec) newError(text *Str) Value {
	t := e.run.prog.errorString
	o := e.newObj([]Value{text}, "error")
	return Iface{t: t, v: Ptr{obj: o}}
}

// numError builds a *strconv.NumError-like error value (opaque text).
func (e *Exec) numError(fn string, s *Str, what string) Value {
	if s.b == nil {
		return e.newError(mkStr("strconv." + fn + ": parsing " + strconv.Quote(s.s) + ": " + what))
	}
	return e.newError(mkStr("strconv." + fn + ": parsing: " + what))
}

func (e *Exec) concStr(s *Str, what string) string {
	if s.b == nil {
		return s.s
	}
	r := make([]byte, len(s.b))
	for i, t := range s.b {
		r[i] = byte(e.concretize(t, what))
	}
	return string(r)
}

// sprint renders one value for fmt verbs.
func (e *Exec) sprint(v Value, verb byte, loose bool) *Str {
	iv, ok := v.(Iface)
	if !ok {
		return mkStr("?")
	}
	if iv.t == nil {
		return mkStr("<nil>")
	}
	switch x := iv.v.(type) {
	case *Str:
		return x
	case *Term:
		b, _ := iv.t.Underlying().(*types.Basic)
		if x.sort == SBool {
			if x.isConst() {
				return mkStr(strconv.FormatBool(x.k != 0))
			}
			if loose {
				return mkStr("?")
			}
			if e.choose([]*Term{x, e.T.Not(x)}) == 0 {
				return mkStr("true")
			}
			return mkStr("false")
		}
		if x.sort >= SF32 || b == nil {
			return mkStr("?")
		}
		if !x.isConst() && loose {
			return mkStr("?")
		}
		if verb == 'x' || verb == 'X' || verb == 'c' || verb == 'q' {
			if !x.isConst() {
				return mkStr("?")
			}
			return mkStr(fmt.Sprintf("%"+string(verb), x.k))
		}
		return e.formatInt(x, e.ti(iv.t).sign)
	}
	return mkStr("?")
}

func (e *Exec) sprintf(format *Str, args Slice, loose bool) *Str {
	fm := e.concStr(format, "format")
	out := emptyStr
	n := 0
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' || i+1 >= len(fm) {
			out = e.strCat(out, mkStr(fm[i:i+1]))
			continue
		}
		i++
		for i < len(fm)-1 && strings.IndexByte("0123456789+-# .", fm[i]) >= 0 {
			i++
		}
		if fm[i] == '%' {
			out = e.strCat(out, mkStr("%"))
			continue
		}
		if n < args.len {
			out = e.strCat(out, e.sprint(args.obj.cells[args.off+n*args.esz], fm[i], loose))
			n++
		}
	}
	return out
}

func nop(e *Exec, f *frame, in *inst, args []Value) (Value, bool) { return nil, true }

func retNilErr(n int) intrinsic {
	return func(e *Exec, f *frame, in *inst, args []Value) (Value, bool) {
		return Tuple{e.T.Int(0), Iface{}}, true
	}
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	S := func(name string, fn intrinsic) { I[symPkg+name] = fn }

	// ---- harness vocabulary ----
	S("Byte", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(8), true })
	S("Bool", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(SBool), true })
	S("U16", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(16), true })
	S("U32", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(32), true })
	S("I32", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(32), true })
	S("U64", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(64), true })
	S("I64", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(64), true })
	S("Int", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.freshVar(64), true })
	S("F32", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.op(OFFromBits, SF32, 0, e.freshVar(32)), true
	})
	S("F64", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.op(OFFromBits, SF64, 0, e.freshVar(64)), true
	})
	S("Range", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		lo, hi := a[0].(*Term), a[1].(*Term)
		if !lo.isConst() || !hi.isConst() {
			e.unsupported("sym.Range bounds must be constant")
		}
		v := e.freshVar(64)
		if e.concMode {
			return v, true
		}
		c := e.T.And(e.T.Cmp(OSle, lo, v), e.T.Cmp(OSle, v, hi))
		if e.T.Eval(c, e.model) == 0 {
			e.addPC(c, map[int32]uint64{v.v1: lo.k})
		} else {
			e.addPC(c, nil)
		}
		return v, true
	})
	S("Choice", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		n := int(cint(a[0]))
		if n <= 0 {
			panic(pathEnd{"assume"})
		}
		if n > 256 {
			e.unsupported("sym.Choice over 256")
		}
		v := e.freshVar(8)
		if v.isConst() {
			return e.T.Int(int64(v.k)), true
		}
		alts := make([]*Term, n)
		for i := range alts {
			alts[i] = e.T.Eq(v, e.T.Const(8, uint64(i)))
		}
		if n == 1 {
			e.addPC(alts[0], map[int32]uint64{v.v1: 0})
			return e.T.Int(0), true
		}
		return e.T.Int(int64(e.choose(alts))), true
	})
	S("Bound", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return a[e.tier], true })
	S("Thorough", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.T.Bool(e.tier == 1), true })
	S("Bytes", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.bytesSlice(e.symBytes(int(cint(a[0])))), true
	})
	S("String", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.strFromTerms(e.symBytes(int(cint(a[0])))), true
	})
	S("StringIn", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		b := e.symBytes(int(cint(a[0])))
		var set [4]uint64
		for _, c := range []byte(strArg(a[1]).s) {
			set[c>>6] |= 1 << (c & 63)
		}
		for _, t := range b {
			e.assume(e.T.InSet(t, &set))
		}
		return e.strFromTerms(b), true
	})
	S("Assume", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.assume(a[0].(*Term))
		return nil, true
	})
	S("Assert", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		e.assertCond(a[0].(*Term), e.show(a[1]))
		return nil, true
	})
	S("Fail", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		e.assertCond(e.T.ff, e.show(a[0]))
		return nil, true
	})
	S("Reach", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		e.run.noteReach(e.show(a[0]))
		return nil, true
	})
	S("ObserveStr", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		e.obs = append(e.obs[:len(e.obs):len(e.obs)], obsRec{e.show(a[0]), a[1]})
		return nil, true
	})
	S("ObserveInt", I[symPkg+"ObserveStr"])
	S("ObserveBool", I[symPkg+"ObserveStr"])
	S("StepLimit", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		old := e.maxSteps
		e.addUndo(func() { e.maxSteps = old })
		e.maxSteps = int(cint(a[0]))
		return nil, true
	})
	// non-forking connectives
	S("And", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.And(a[0].(*Term), a[1].(*Term)), true
	})
	S("Or", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.Or(a[0].(*Term), a[1].(*Term)), true
	})
	S("Implies", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.Or(e.T.Not(a[0].(*Term)), a[1].(*Term)), true
	})
	S("InSet", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		var set [4]uint64
		for _, c := range []byte(strArg(a[1]).s) {
			set[c>>6] |= 1 << (c & 63)
		}
		return e.T.InSet(a[0].(*Term), &set), true
	})
	S("ConcretizeInt", func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.Int(int64(e.concretize(a[0].(*Term), "value"))), true
	})

	// ---- strings / bytes ----
	I["strings.ToLower"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.caseMap(strArg(a[0]), false), true
	}
	I["strings.ToUpper"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.caseMap(strArg(a[0]), true), true
	}
	I["strings.EqualFold"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		x, y := strArg(a[0]), strArg(a[1])
		if conc(x, y) {
			return e.T.Bool(strings.EqualFold(x.s, y.s)), true
		}
		c := e.T.And(e.allASCII(e.strTerms(x)), e.allASCII(e.strTerms(y)))
		if e.choose([]*Term{c, e.T.Not(c)}) == 1 {
			e.boundEnd("case folding of non-ASCII text")
		}
		return e.strEq(e.strFromTerms(e.caseBytes(e.strTerms(x), false)), e.strFromTerms(e.caseBytes(e.strTerms(y), false))), true
	}
	trim := func(left, right bool) func(e *Exec, s *Str, isSp func(*Term) *Term) *Str {
		return func(e *Exec, s *Str, isSp func(*Term) *Term) *Str {
			b := e.strTerms(s)
			T := e.T
			lo, hi := 0, len(b)
			if left {
				var alts []*Term
				pre := T.tt
				for i := 0; i <= len(b); i++ {
					if i == len(b) {
						alts = append(alts, pre)
						break
					}
					sp := isSp(b[i])
					alts = append(alts, T.And(pre, T.Not(sp)))
					pre = T.And(pre, sp)
				}
				lo = e.choose(alts)
			}
			if right {
				var alts []*Term
				pre := T.tt
				for i := hi; i >= lo; i-- {
					if i == lo {
						alts = append(alts, pre)
						break
					}
					sp := isSp(b[i-1])
					alts = append(alts, T.And(pre, T.Not(sp)))
					pre = T.And(pre, sp)
				}
				hi -= e.choose(alts)
			}
			return e.strSlice(s, lo, hi)
		}
	}
	I["strings.TrimSpace"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := strArg(a[0])
		if s.b == nil {
			return mkStr(strings.TrimSpace(s.s)), true
		}
		// Unicode spaces all contain a byte >= 0x80; those need the body
		c := e.allASCII(s.b)
		if e.choose([]*Term{c, e.T.Not(c)}) == 1 {
			return nil, false
		}
		return trim(true, true)(e, s, func(t *Term) *Term { return isSpaceTerm(e, t) }), true
	}
	cutset := func(left, right bool, nat func(s, c string) string) intrinsic {
		return func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
			s, c := strArg(a[0]), strArg(a[1])
			if conc(s, c) {
				return mkStr(nat(s.s, c.s)), true
			}
			if c.b != nil {
				return nil, false
			}
			var set [4]uint64
			for i := 0; i < len(c.s); i++ {
				if c.s[i] >= 0x80 {
					return nil, false
				}
				set[c.s[i]>>6] |= 1 << (c.s[i] & 63)
			}
			return trim(left, right)(e, s, func(t *Term) *Term { return e.T.InSet(t, &set) }), true
		}
	}
	I["strings.Trim"] = cutset(true, true, strings.Trim)
	I["strings.TrimLeft"] = cutset(true, false, strings.TrimLeft)
	I["strings.TrimRight"] = cutset(false, true, strings.TrimRight)
	idx := func(last bool) intrinsic {
		return func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
			s := strArg(a[0])
			var sub []*Term
			switch y := a[1].(type) {
			case *Str:
				sub = e.strTerms(y)
			case *Term:
				if y.sort != 8 {
					if !y.isConst() || y.k >= 0x80 {
						return nil, false
					}
					y = e.T.Const(8, y.k)
				}
				sub = []*Term{y}
			}
			if last {
				return e.T.Int(int64(e.lastIndexOf(e.strTerms(s), sub))), true
			}
			return e.T.Int(int64(e.indexOf(e.strTerms(s), sub))), true
		}
	}
	I["strings.Index"] = idx(false)
	I["strings.IndexByte"] = idx(false)
	I["strings.IndexRune"] = idx(false)
	I["strings.LastIndex"] = idx(true)
	I["strings.LastIndexByte"] = idx(true)
	contains := func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := e.strTerms(strArg(a[0]))
		var sub []*Term
		switch y := a[1].(type) {
		case *Str:
			sub = e.strTerms(y)
		case *Term:
			if !y.isConst() || y.k >= 0x80 {
				return nil, false
			}
			sub = []*Term{e.T.Const(8, y.k)}
		}
		r := e.T.Bool(len(sub) == 0)
		for i := 0; i+len(sub) <= len(s) && r != e.T.tt; i++ {
			m := e.T.tt
			for j := range sub {
				m = e.T.And(m, e.T.Eq(s[i+j], sub[j]))
			}
			r = e.T.Or(r, m)
		}
		return r, true
	}
	I["strings.Contains"] = contains
	I["strings.ContainsRune"] = contains
	I["strings.HasPrefix"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s, p := strArg(a[0]), strArg(a[1])
		if p.Len() > s.Len() {
			return e.T.ff, true
		}
		return e.strEq(e.strSlice(s, 0, p.Len()), p), true
	}
	I["strings.HasSuffix"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s, p := strArg(a[0]), strArg(a[1])
		if p.Len() > s.Len() {
			return e.T.ff, true
		}
		return e.strEq(e.strSlice(s, s.Len()-p.Len(), s.Len()), p), true
	}
	I["strings.Compare"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		x, y := strArg(a[0]), strArg(a[1])
		return e.T.Ite(e.strEq(x, y), e.T.Int(0), e.T.Ite(e.strLess(x, y, false), e.T.Int(-1), e.T.Int(1))), true
	}
	bidx := func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		var b []*Term
		switch x := a[0].(type) {
		case Slice:
			b = e.sliceBytes(x)
		case *Str:
			b = e.strTerms(x)
		}
		return e.T.Int(int64(e.indexOf(b, []*Term{a[1].(*Term)}))), true
	}
	I["bytes.IndexByte"] = bidx
	I["internal/bytealg.IndexByte"] = bidx
	I["internal/bytealg.IndexByteString"] = bidx
	cnt := func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		var b []*Term
		switch x := a[0].(type) {
		case Slice:
			b = e.sliceBytes(x)
		case *Str:
			b = e.strTerms(x)
		}
		r := e.T.Int(0)
		for _, t := range b {
			r = e.T.Bin(OAdd, r, e.T.Ite(e.T.Eq(t, a[1].(*Term)), e.T.Int(1), e.T.Int(0)))
		}
		return r, true
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	I["internal/bytealg.IndexString"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.Int(int64(e.indexOf(e.strTerms(strArg(a[0])), e.strTerms(strArg(a[1]))))), true
	}
	I["internal/bytealg.Index"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.Int(int64(e.indexOf(e.sliceBytes(a[0].(Slice)), e.sliceBytes(a[1].(Slice))))), true
	}
	I["internal/bytealg.Compare"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		x, y := e.strFromTerms(e.sliceBytes(a[0].(Slice))), e.strFromTerms(e.sliceBytes(a[1].(Slice)))
		return e.T.Ite(e.strEq(x, y), e.T.Int(0), e.T.Ite(e.strLess(x, y, false), e.T.Int(-1), e.T.Int(1))), true
	}
	beq := func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.strEq(e.strFromTerms(e.sliceBytes(a[0].(Slice))), e.strFromTerms(e.sliceBytes(a[1].(Slice)))), true
	}
	I["bytes.Equal"] = beq
	I["internal/bytealg.Equal"] = beq
	I["internal/bytealg.MakeNoZero"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		n := int(cint(a[0]))
		return e.makeSlice(e.ti(types.Typ[types.Uint8]), n, n), true
	}
	I["(*strings.Builder).copyCheck"] = nop
	I["strings.Clone"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return a[0], true }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["internal/abi.NoEscape"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return a[0], true }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["unicode.IsSpace"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		r := a[0].(*Term)
		c := e.T.ff
		for _, x := range []uint64{9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} {
			c = e.T.Or(c, e.T.Eq(r, e.T.Const(32, x)))
		}
		c = e.T.Or(c, e.T.And(e.T.Cmp(OUle, e.T.Const(32, 0x2000), r), e.T.Cmp(OUle, r, e.T.Const(32, 0x200a))))
		return c, true
	}
	I["unicode/utf8.ValidString"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		if s := strArg(a[0]); s.b == nil {
			return e.T.Bool(utf8.ValidString(s.s)), true
		}
		return nil, false
	}

	// ---- strconv ----
	I["strconv.Itoa"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.formatInt(a[0].(*Term), true), true
	}
	I["strconv.FormatInt"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		v, b := a[0].(*Term), int(cint(a[1]))
		if v.isConst() {
			return mkStr(strconv.FormatInt(int64(v.k), b)), true
		}
		if b != 10 {
			return nil, false
		}
		return e.formatInt(v, true), true
	}
	I["strconv.FormatUint"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		v, b := a[0].(*Term), int(cint(a[1]))
		if v.isConst() {
			return mkStr(strconv.FormatUint(v.k, b)), true
		}
		if b != 10 {
			return nil, false
		}
		return e.formatInt(v, false), true
	}
	I["strconv.Atoi"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := strArg(a[0])
		if s.b == nil {
			v, err := strconv.Atoi(s.s)
			if err != nil {
				return Tuple{e.T.Int(int64(v)), e.newError(mkStr(err.Error()))}, true
			}
			return Tuple{e.T.Int(int64(v)), Iface{}}, true
		}
		if s.Len() > 18 {
			return nil, false
		}
		v, ok := e.parseDec(s.b)
		if !ok {
			return Tuple{e.T.Int(0), e.numError("Atoi", s, "invalid syntax")}, true
		}
		return Tuple{v, Iface{}}, true
	}
	I["strconv.ParseInt"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := strArg(a[0])
		if conc(a...) {
			v, err := strconv.ParseInt(s.s, int(cint(a[1])), int(cint(a[2])))
			if err != nil {
				return Tuple{e.T.Int(v), e.newError(mkStr(err.Error()))}, true
			}
			return Tuple{e.T.Int(v), Iface{}}, true
		}
		bits := int(cint(a[2]))
		if bits == 0 {
			bits = 64
		}
		if cint(a[1]) != 10 || s.Len() > 18 || (bits != 64 && bits != 32) {
			return nil, false
		}
		v, ok := e.parseDec(s.b)
		if !ok {
			return Tuple{e.T.Int(0), e.numError("ParseInt", s, "invalid syntax")}, true
		}
		if bits == 32 {
			T := e.T
			hi := T.Cmp(OSlt, T.Const(64, math.MaxInt32), v)
			lo := T.Cmp(OSlt, v, T.Const(64, uint64(0xFFFFFFFF80000000)))
			switch e.choose([]*Term{T.And(T.Not(hi), T.Not(lo)), hi, lo}) {
			case 1:
				return Tuple{T.Int(math.MaxInt32), e.numError("ParseInt", s, "value out of range")}, true
			case 2:
				return Tuple{T.Int(math.MinInt32), e.numError("ParseInt", s, "value out of range")}, true
			}
		}
		return Tuple{v, Iface{}}, true
	}
	I["strconv.ParseFloat"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		str := e.concStr(strArg(a[0]), "float text")
		v, err := strconv.ParseFloat(str, int(cint(a[1])))
		var ev Value = Iface{}
		if err != nil {
			ev = e.newError(mkStr(err.Error()))
		}
		return Tuple{e.T.Const(SF64, math.Float64bits(v)), ev}, true
	}
	I["strconv.FormatFloat"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		if !conc(a...) {
			e.unsupported("FormatFloat of a symbolic value")
		}
		return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].(*Term).k), byte(a[1].(*Term).k), int(cint(a[2])), int(cint(a[3])))), true
	}
	I["strconv.Quote"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		if s := strArg(a[0]); s.b == nil {
			return mkStr(strconv.Quote(s.s)), true
		}
		return nil, false
	}

	// ---- math ----
	I["math.Abs"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		x, T := a[0].(*Term), e.T
		if x.isConst() {
			return T.op(OFFromBits, SF64, 0, T.Const(64, math.Float64bits(math.Abs(math.Float64frombits(x.k))))), true
		}
		zero := T.op(OFFromBits, SF64, 0, T.Const(64, 0))
		neg := T.op(OFNeg, SF64, 0, x)
		return T.Ite(T.fop(OFLt, SBool, x, zero), neg, T.Ite(T.fop(OFEq, SBool, x, zero), zero, x)), true
	}
	I["math.Float64bits"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return e.T.Const(64, t.k), true
		}
		if t.op == OFFromBits {
			return t.a[0], true
		}
		e.unsupported("Float64bits of a computed float")
		return nil, true
	}
	I["math.Float64frombits"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.op(OFFromBits, SF64, 0, a[0].(*Term)), true
	}
	I["math.Float32frombits"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.T.op(OFFromBits, SF32, 0, a[0].(*Term)), true
	}
	I["math.Float32bits"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return e.T.Const(32, t.k), true
		}
		if t.op == OFFromBits {
			return t.a[0], true
		}
		e.unsupported("Float32bits of a computed float")
		return nil, true
	}

	// ---- fmt, os, net, sync, runtime ----
	outp := func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		e.effect()
		return Tuple{e.T.Int(0), Iface{}}, true
	}
	for _, n := range []string{"Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint"} {
		I["fmt."+n] = outp
	}
	I["fmt.Sprintf"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.sprintf(strArg(a[0]), a[1].(Slice), false), true
	}
	I["fmt.Errorf"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return e.newError(e.sprintf(strArg(a[0]), a[1].(Slice), true)), true
	}
	I["fmt.Sprint"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := a[0].(Slice)
		out := emptyStr
		for i := 0; i < s.len; i++ {
			out = e.strCat(out, e.sprint(s.obj.cells[s.off+i*s.esz], 'v', false))
		}
		return out, true
	}
	I["net.ParseIP"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := strArg(a[0])
		if s.b != nil {
			e.run.noteAssume("net.ParseIP of symbolic text is modelled as nil (the IP object is not observed)")
			return Slice{esz: 1}, true
		}
		ip := net.ParseIP(s.s)
		if ip == nil {
			return Slice{esz: 1}, true
		}
		return e.bytesSlice(e.strTerms(mkStr(string(ip)))), true
	}
	I["(net.IP).String"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		s := e.strFromTerms(e.sliceBytes(a[0].(Slice)))
		if s.b == nil {
			return mkStr(net.IP(s.s).String()), true
		}
		return nil, false
	}
	I["os.Getpid"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.envVar(64), true }
	I["os.OpenFile"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		return Tuple{Ptr{}, e.newError(mkStr("no file system in the model"))}, true
	}
	I["time.Sleep"] = nop
	I["time.Now"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		// wall clock: any instant; the representation has no monotonic part
		ns := e.envVar(32)
		e.assume(e.T.Cmp(OUlt, ns, e.T.Const(32, 1000000000)))
		sec := e.envVar(64)
		// years 1970..2105 in seconds since year 1
		base := uint64(62135596800)
		e.assume(e.T.And(e.T.Cmp(OUle, e.T.Const(64, base), sec), e.T.Cmp(OUlt, sec, e.T.Const(64, base+(1<<32)))))
		return Agg{e.T.ZExt(ns, 64), sec, Ptr{}}, true
	}
	I["(*sync.Mutex).Lock"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.mutexLock(a[0].(Ptr)) }
	I["(*sync.Mutex).Unlock"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.mutexUnlock(a[0].(Ptr)) }
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			I[p+"Load"+ty] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
				p := a[0].(Ptr)
				return p.obj.cells[p.off], true
			}
			I[p+"Store"+ty] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
				p := a[0].(Ptr)
				e.setCell(p.obj, p.off, a[1])
				return nil, true
			}
			I[p+"Add"+ty] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
				p := a[0].(Ptr)
				v := e.T.Bin(OAdd, p.obj.cells[p.off].(*Term), a[1].(*Term))
				e.setCell(p.obj, p.off, v)
				return v, true
			}
			I[p+"CompareAndSwap"+ty] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
				p := a[0].(Ptr)
				old := p.obj.cells[p.off]
				var c *Term
				if x, ok := old.(*Term); ok {
					c = e.T.Eq(x, a[1].(*Term))
				} else {
					c = e.valEq(nil, old, a[1])
				}
				if e.choose([]*Term{c, e.T.Not(c)}) == 0 {
					e.setCell(p.obj, p.off, a[2])
					return e.T.tt, true
				}
				return e.T.ff, true
			}
		}
	}
	I["runtime.GC"] = nop
	I["runtime.KeepAlive"] = nop
	I["runtime.SetFinalizer"] = nop
	I["time.runtimeNano"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return e.T.Int(1), true }
	I["time.initLocal"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) {
		// the model runs in UTC
		return nil, true
	}
	I["internal/godebug.New"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return Ptr{}, true }
	I["(*internal/godebug.Setting).Value"] = func(e *Exec, f *frame, in *inst, a []Value) (Value, bool) { return emptyStr, true }
}

// envVar is an environment value: unconstrained, but not part of the replayed
// input vector (the real run draws its own).
func (e *Exec) envVar(s Sort) *Term {
	e.effect()
	if e.concMode {
		return e.T.Const(s, 1000000)
	}
	return e.auxVar(s)
}
