package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

func (e *Exec) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return e.eqMixed(tx, ty, x, y)
	case token.NEQ:
		return e.T.Not(e.eqMixed(tx, ty, x, y))
	}
	if a, ok := x.(*Str); ok {
		b := y.(*Str)
		switch op {
		case token.ADD:
			return e.strCat(a, b)
		case token.LSS:
			return e.strLess(a, b, false)
		case token.LEQ:
			return e.strLess(a, b, true)
		case token.GTR:
			return e.strLess(b, a, false)
		case token.GEQ:
			return e.strLess(b, a, true)
		}
	}
	if u, ok := x.(UPtr); ok {
		if _, ok2 := y.(*Term); ok2 {
			return u // pointer arithmetic used only by noescape tricks (x ^ 0)
		}
	}
	a, ok := x.(*Term)
	if !ok {
		e.unsupported(fmt.Sprintf("binop on %T", x))
	}
	b := y.(*Term)
	T := e.T
	ti := e.ti(tx)
	sg := ti.sign
	if a.sort >= SF32 {
		switch op {
		case token.ADD:
			return T.fop(OFAdd, a.sort, a, b)
		case token.SUB:
			return T.fop(OFSub, a.sort, a, b)
		case token.MUL:
			return T.fop(OFMul, a.sort, a, b)
		case token.QUO:
			return T.fop(OFDiv, a.sort, a, b)
		case token.LSS:
			return T.fop(OFLt, SBool, a, b)
		case token.LEQ:
			return T.fop(OFLe, SBool, a, b)
		case token.GTR:
			return T.fop(OFLt, SBool, b, a)
		case token.GEQ:
			return T.fop(OFLe, SBool, b, a)
		}
		e.unsupported("float op " + op.String())
	}
	lt, le := OUlt, OUle
	if sg {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.ADD:
		return T.Bin(OAdd, a, b)
	case token.SUB:
		return T.Bin(OSub, a, b)
	case token.MUL:
		return T.Bin(OMul, a, b)
	case token.QUO, token.REM:
		z := T.Eq(b, T.Const(b.sort, 0))
		if z.isConst() {
			if z.k != 0 {
				e.targetPanic("runtime error: integer divide by zero")
			}
		} else if e.choose([]*Term{T.Not(z), z}) == 1 {
			e.targetPanic("runtime error: integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if sg {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return T.Bin(o, a, b)
	case token.AND:
		if a.sort == SBool {
			return T.And(a, b)
		}
		return T.Bin(OBAnd, a, b)
	case token.OR:
		if a.sort == SBool {
			return T.Or(a, b)
		}
		return T.Bin(OBOr, a, b)
	case token.XOR:
		return T.Bin(OBXor, a, b)
	case token.AND_NOT:
		return T.Bin(OBAnd, a, T.op(OBvNot, b.sort, 0, b))
	case token.SHL, token.SHR:
		if e.ti(ty).sign {
			neg := T.Cmp(OSlt, b, T.Const(b.sort, 0))
			if neg.isConst() {
				if neg.k != 0 {
					e.targetPanic("runtime error: negative shift amount")
				}
			} else if e.choose([]*Term{T.Not(neg), neg}) == 1 {
				e.targetPanic("runtime error: negative shift amount")
			}
		}
		var cnt *Term
		if b.sort <= a.sort {
			cnt = T.ZExt(b, a.sort)
		} else {
			big := T.Cmp(OUle, T.Const(b.sort, uint64(a.sort)), b)
			cnt = T.Ite(big, T.Const(a.sort, uint64(a.sort)), T.Extract(b, 0, a.sort))
			if a.sort == 8 && b.sort > 8 {
				cnt = T.Ite(big, T.Const(8, 8), T.Extract(b, 0, 8))
			}
		}
		if op == token.SHL {
			return T.Bin(OShl, a, cnt)
		}
		if sg {
			return T.Bin(OAShr, a, cnt)
		}
		return T.Bin(OLShr, a, cnt)
	case token.LSS:
		return T.Cmp(lt, a, b)
	case token.LEQ:
		return T.Cmp(le, a, b)
	case token.GTR:
		return T.Cmp(lt, b, a)
	case token.GEQ:
		return T.Cmp(le, b, a)
	}
	e.unsupported("binop " + op.String())
	return nil
}

func (e *Exec) eqMixed(tx, ty types.Type, x, y Value) *Term {
	// comparisons between interface and concrete values
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix != iy {
		if !ix {
			if _, isI := x.(Iface); !isI {
				x = Iface{tx, x}
			}
		} else {
			if _, isI := y.(Iface); !isI {
				y = Iface{ty, y}
			}
		}
		return e.valEq(tx, x, y)
	}
	if c, ok := x.(Slice); ok {
		d := y.(Slice)
		if c.obj == nil {
			return e.T.Bool(d.obj == nil)
		}
		return e.T.Bool(false == (d.obj == nil) && c == d)
	}
	return e.valEq(tx, x, y)
}

func (e *Exec) convert(from, to types.Type, v Value) Value {
	T := e.T
	if tp, ok := to.Underlying().(*types.TypeParam); ok {
		_ = tp
		e.unsupported("type parameter conversion")
	}
	fi, ti := e.ti(from), e.ti(to)
	switch ti.kind {
	case tkScalar:
		if u, ok := v.(UPtr); ok { // uintptr(unsafe.Pointer)
			return u
		}
		t, ok := v.(*Term)
		if !ok {
			e.unsupported(fmt.Sprintf("convert %v to %v", from, to))
		}
		fs, ts := t.sort, ti.sort
		switch {
		case fs < SF32 && ts < SF32:
			if ts <= fs {
				return T.Extract(t, 0, ts)
			}
			if fi.sign {
				return T.SExt(t, ts)
			}
			return T.ZExt(t, ts)
		case fs < SF32:
			if fi.sign {
				return T.fromInt(t, ts, true)
			}
			return T.fromInt(t, ts, false)
		case ts < SF32:
			if ti.sign {
				return T.toInt(t, ts, true)
			}
			return T.toInt(t, ts, false)
		}
		if fs == ts {
			return t
		}
		return T.op(OFToF, ts, 0, t)
	case tkString:
		switch x := v.(type) {
		case *Str:
			return x
		case *Term:
			var r *Term
			if x.sort >= 32 {
				if fi.sign || x.sort == 32 {
					if x.sort == 64 {
						// out of range -> U+FFFD
						big := T.Not(T.Eq(T.SExt(T.Extract(x, 0, 32), 64), x))
						if !big.isConst() {
							if e.choose([]*Term{T.Not(big), big}) == 1 {
								return mkStr("\uFFFD")
							}
						} else if big.k != 0 {
							return mkStr("\uFFFD")
						}
					}
					r = T.Extract(x, 0, 32)
				} else {
					r = T.Extract(x, 0, 32)
				}
			} else if fi.sign {
				r = T.SExt(x, 32)
			} else {
				r = T.ZExt(x, 32)
			}
			return e.strFromTerms(e.encodeRune(r))
		case Slice:
			el := from.Underlying().(*types.Slice).Elem()
			es := e.ti(el)
			if es.sort == 8 {
				return e.strFromTerms(e.sliceBytes(x))
			}
			var out []*Term
			for j := 0; j < x.len; j++ {
				out = append(out, e.encodeRune(x.obj.cells[x.off+j].(*Term))...)
			}
			return e.strFromTerms(out)
		}
	case tkSlice:
		switch x := v.(type) {
		case Slice:
			return x
		case *Str:
			el := to.Underlying().(*types.Slice).Elem()
			es := e.ti(el)
			if es.sort == 8 {
				return e.bytesSlice(e.strTerms(x))
			}
			b := e.strTerms(x)
			var cells []Value
			for len(b) > 0 {
				r, n := e.decodeRune(b)
				cells = append(cells, r)
				b = b[n:]
			}
			return Slice{obj: e.newObj(cells, "runes"), len: len(cells), cap: len(cells), esz: 1}
		}
	case tkUnsafe:
		switch x := v.(type) {
		case Ptr:
			return UPtr{x}
		case UPtr:
			return x
		}
	case tkPtr:
		switch x := v.(type) {
		case Ptr:
			return x
		case UPtr:
			return e.castPtr(x.p, deref(to))
		}
	default:
		return v
	}
	e.unsupported(fmt.Sprintf("convert %v to %v", from, to))
	return nil
}

// castPtr reinterprets an integer cell as a byte array (read-only snapshot).
func (e *Exec) castPtr(p Ptr, elem types.Type) Value {
	if p.obj == nil {
		return p
	}
	a, ok := elem.Underlying().(*types.Array)
	if !ok {
		return p
	}
	if e.ti(a.Elem()).sort != 8 || e.ti(a.Elem()).kind != tkScalar {
		return p
	}
	t, ok := p.obj.cells[p.off].(*Term)
	if !ok || t.sort == 8 || t.sort == SBool || t.sort >= SF32 {
		return p
	}
	n := int(a.Len())
	cells := make([]Value, n)
	for i := range cells {
		if i*8 < int(t.sort) {
			cells[i] = e.T.Extract(t, uint64(i*8), 8)
		} else {
			cells[i] = e.T.Const(8, 0)
		}
	}
	return Ptr{obj: e.newObj(cells, "cast")}
}

func (e *Exec) sliceBytes(s Slice) []*Term {
	out := make([]*Term, s.len)
	for j := 0; j < s.len; j++ {
		out[j] = s.obj.cells[s.off+j].(*Term)
	}
	return out
}
func (e *Exec) bytesSlice(b []*Term) Slice {
	cells := make([]Value, len(b))
	for i, t := range b {
		cells[i] = t
	}
	return Slice{obj: e.newObj(cells, "bytes"), len: len(b), cap: len(b), esz: 1}
}

func (e *Exec) callBuiltin(f *frame, in *inst, bi *ssa.Builtin, args []Value) Value {
	T := e.T
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return T.Int(int64(x.Len()))
		case Slice:
			return T.Int(int64(x.len))
		case *MapObj:
			if x == nil {
				return T.Int(0)
			}
			return T.Int(int64(len(x.entries)))
		case Ptr:
			// pointer to array
			e.unsupported("len of array pointer")
		}
	case "cap":
		if x, ok := args[0].(Slice); ok {
			return T.Int(int64(x.cap))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case *Str:
			for _, t := range e.strTerms(y) {
				add = append(add, t)
			}
		case Slice:
			if y.obj != nil {
				add = y.obj.cells[y.off : y.off+y.len*y.esz]
			}
		}
		return e.appendCells(s, add)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		n := 0
		switch y := args[1].(type) {
		case *Str:
			n = y.Len()
			for _, t := range e.strTerms(y) {
				src = append(src, t)
			}
		case Slice:
			n = y.len
			if y.obj != nil {
				src = append([]Value(nil), y.obj.cells[y.off:y.off+y.len*y.esz]...)
			}
		}
		if d.len < n {
			n = d.len
		}
		for j := 0; j < n*d.esz; j++ {
			e.setCell(d.obj, d.off+j, src[j])
		}
		return T.Int(int64(n))
	case "delete":
		m := args[0].(*MapObj)
		e.mapDelete(m, argType(in, 0), args[1])
		return nil
	case "recover":
		// legal only directly inside a deferred call during a panic
		fr := f
		if fr.forDefer && fr.ps != nil && !fr.ps.recovered {
			ps := fr.ps
			e.addUndo(func() { ps.recovered = false })
			ps.recovered = true
			return ps.val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "panic":
		e.startPanic(args[0], e.panicText(args[0]))
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if x, ok := r.(*Term); ok {
				y := a.(*Term)
				sg := e.ti(argType(in, 0)).sign
				var c *Term
				if x.sort >= SF32 {
					c = T.fop(OFLt, SBool, y, x)
				} else if sg {
					c = T.Cmp(OSlt, y, x)
				} else {
					c = T.Cmp(OUlt, y, x)
				}
				if bi.Name() == "max" {
					c = T.Not(c)
					if x == y {
						continue
					}
				}
				r = T.Ite(c, y, x)
			} else {
				e.unsupported("min/max of strings")
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			e.targetPanic("value method called using nil pointer")
		}
		return args[0]
	case "clear":
		if m, ok := args[0].(*MapObj); ok {
			if m != nil {
				e.mapMut(m)
				m.entries = nil
				m.index = nil
				m.allConc = true
			}
			return nil
		}
		if s, ok := args[0].(Slice); ok {
			el := e.ti(argType(in, 0).Underlying().(*types.Slice).Elem())
			for j := 0; j < s.len; j++ {
				for k, z := range el.zero {
					e.setCell(s.obj, s.off+j*s.esz+k, z)
				}
			}
			return nil
		}
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := e.lenTerm(args[1].(*Term), types.Typ[types.Int], "unsafe.String")
		if n == 0 {
			return emptyStr
		}
		b := make([]*Term, n)
		for j := range b {
			b[j] = p.obj.cells[p.off+j].(*Term)
		}
		return e.strFromTerms(b)
	case "StringData":
		s := args[0].(*Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		return Ptr{obj: e.bytesSlice(e.strTerms(s)).obj}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{obj: s.obj, off: s.off}
	case "Slice":
		p := args[0].(Ptr)
		n := e.lenTerm(args[1].(*Term), types.Typ[types.Int], "unsafe.Slice")
		if p.obj == nil {
			return Slice{esz: 1}
		}
		return Slice{obj: p.obj, off: p.off, len: n, cap: n, esz: 1}
	}
	e.unsupported("builtin " + bi.Name())
	return nil
}

func argType(in *inst, i int) types.Type {
	switch c := in.in.(type) {
	case *ssa.Call:
		return c.Call.Args[i].Type()
	case *ssa.Defer:
		return c.Call.Args[i].Type()
	}
	return nil
}

func (e *Exec) appendCells(s Slice, add []Value) Slice {
	esz := s.esz
	if esz == 0 {
		n := s.len
		return Slice{obj: s.obj, len: n, cap: n}
	}
	n := len(add) / esz
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap {
		base := s.off + s.len*esz
		cp := append([]Value(nil), add...)
		for j, v := range cp {
			e.setCell(s.obj, base+j, v)
		}
		return Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap, esz: esz}
	}
	nc := s.cap*2 + 0
	if nc < s.len+n {
		nc = s.len + n
	}
	if nc < 8 && esz == 1 {
		nc = 8
	}
	cells := make([]Value, 0, nc*esz)
	if s.obj != nil {
		cells = append(cells, s.obj.cells[s.off:s.off+s.len*esz]...)
	}
	cells = append(cells, add...)
	z := e.zeroLike(add[:esz])
	for len(cells) < nc*esz {
		cells = append(cells, z...)
	}
	return Slice{obj: e.newObj(cells, "append"), len: s.len + n, cap: nc, esz: esz}
}

func (e *Exec) zeroLike(vs []Value) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		switch x := v.(type) {
		case *Term:
			out[i] = e.T.Const(x.sort, 0)
		case *Str:
			out[i] = emptyStr
		case Ptr:
			out[i] = Ptr{}
		case Slice:
			out[i] = Slice{esz: x.esz}
		case Iface:
			out[i] = Iface{}
		case *MapObj:
			out[i] = (*MapObj)(nil)
		case *Closure:
			out[i] = (*Closure)(nil)
		case UPtr:
			out[i] = UPtr{}
		}
	}
	return out
}

// show renders a value for messages (symbolic bytes as '?').
func (e *Exec) show(v Value) string {
	switch x := v.(type) {
	case *Str:
		if x.b == nil {
			return x.s
		}
		var sb strings.Builder
		for _, t := range x.b {
			if t.isConst() {
				sb.WriteByte(byte(t.k))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.k)
		}
		return "?"
	}
	return fmt.Sprintf("%T", v)
}
