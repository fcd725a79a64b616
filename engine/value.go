package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

// Str is an immutable string of concrete length; b==nil means the text s.
type Str struct {
	s string
	b []*Term
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Object struct {
	cells  []Value
	stamp  uint64
	id     int
	name   string
	prov   string
	uninit bool // global of a package whose initialiser is not modelled
}

type SymIdx struct {
	idx    *Term // element index (64 bit)
	n      int   // number of elements
	stride int
}

type Ptr struct {
	obj *Object
	off int
	sym *SymIdx
}
type Slice struct {
	obj           *Object
	off, len, cap int
	esz           int
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}
type Agg []Value
type Tuple []Value

type mapEntry struct{ k, v Value }
type MapObj struct {
	entries []mapEntry
	stamp   uint64
	allConc bool
	index   map[string]int // only valid when allConc
	id      int
}
type Iter struct {
	str   *Str
	m     *MapObj
	ks    []mapEntry
	pos   int
	stamp uint64
}

// UPtr is an unsafe.Pointer / uintptr view of a pointer.
type UPtr struct{ p Ptr }

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.obj == nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type typeInfo struct {
	size int
	zero []Value
	sort Sort // for scalars
	kind uint8
	sign bool
}

const (
	tkScalar uint8 = iota
	tkString
	tkPtr
	tkSlice
	tkIface
	tkMap
	tkFunc
	tkAgg
	tkTuple
	tkUnsafe
	tkChan
	tkUnsupported
)

func basicSort(b *types.Basic) (Sort, bool, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return SF32, true, true
	case types.Float64, types.UntypedFloat:
		return SF64, true, true
	}
	return 0, false, false
}

func (e *Exec) ti(t types.Type) *typeInfo {
	if r, ok := e.tinfo[t]; ok {
		return r
	}
	r := &typeInfo{}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			r.kind, r.size, r.zero = tkString, 1, []Value{emptyStr}
		} else if u.Kind() == types.UnsafePointer {
			r.kind, r.size, r.zero = tkUnsafe, 1, []Value{UPtr{}}
		} else if u.Kind() == types.UntypedNil {
			r.kind, r.size, r.zero = tkPtr, 1, []Value{Ptr{}}
		} else if s, sg, ok := basicSort(u); ok {
			r.kind, r.size, r.sort, r.sign = tkScalar, 1, s, sg
			r.zero = []Value{e.T.Const(s, 0)}
		} else {
			r.kind, r.size, r.zero = tkUnsupported, 1, []Value{nil}
		}
	case *types.Pointer:
		r.kind, r.size, r.zero = tkPtr, 1, []Value{Ptr{}}
	case *types.Slice:
		r.kind, r.size = tkSlice, 1
		r.zero = []Value{Slice{esz: -1}}
		e.tinfo[t] = r
		r.zero = []Value{Slice{esz: e.ti(u.Elem()).size}}
	case *types.Interface:
		r.kind, r.size, r.zero = tkIface, 1, []Value{Iface{}}
	case *types.Map:
		r.kind, r.size, r.zero = tkMap, 1, []Value{(*MapObj)(nil)}
	case *types.Signature:
		r.kind, r.size, r.zero = tkFunc, 1, []Value{(*Closure)(nil)}
	case *types.Chan:
		r.kind, r.size, r.zero = tkChan, 1, []Value{nil}
	case *types.Struct:
		r.kind = tkAgg
		for i := 0; i < u.NumFields(); i++ {
			f := e.ti(u.Field(i).Type())
			r.size += f.size
			r.zero = append(r.zero, f.zero...)
		}
	case *types.Array:
		r.kind = tkAgg
		el := e.ti(u.Elem())
		n := int(u.Len())
		if n > 1<<22 {
			e.unsupported("huge array type " + t.String())
		}
		r.size = el.size * n
		r.zero = make([]Value, 0, r.size)
		for i := 0; i < n; i++ {
			r.zero = append(r.zero, el.zero...)
		}
	case *types.Tuple:
		r.kind, r.size = tkTuple, 1
	default:
		r.kind, r.size, r.zero = tkUnsupported, 1, []Value{nil}
	}
	e.tinfo[t] = r
	return r
}

var emptyStr = &Str{}

func (e *Exec) zero(t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tu.Len())
		for i := range r {
			r[i] = e.zero(tu.At(i).Type())
		}
		return r
	}
	i := e.ti(t)
	if i.kind == tkAgg {
		return Agg(append([]Value(nil), i.zero...))
	}
	if len(i.zero) == 0 {
		return nil
	}
	return i.zero[0]
}

func (e *Exec) fieldOff(st *types.Struct, n int) int {
	key := fieldKey{st, n}
	if v, ok := e.foff[key]; ok {
		return v
	}
	off := 0
	for i := 0; i < n; i++ {
		off += e.ti(st.Field(i).Type()).size
	}
	e.foff[key] = off
	return off
}

type fieldKey struct {
	st *types.Struct
	n  int
}

func (e *Exec) newObj(cells []Value, name string) *Object {
	e.objSeq++
	return &Object{cells: cells, stamp: e.serial, id: e.objSeq, name: name}
}

func (e *Exec) allocType(t types.Type, name string) *Object {
	i := e.ti(t)
	return e.newObj(append([]Value(nil), i.zero...), name)
}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

// strFromTerms normalises to a concrete string when possible.
func (e *Exec) strFromTerms(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, t := range b {
		r[i] = byte(t.k)
	}
	return &Str{s: string(r)}
}

func (e *Exec) strTerms(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = e.T.Const(8, uint64(s.s[i]))
	}
	return r
}
func (e *Exec) strAt(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return e.T.Const(8, uint64(s.s[i]))
}
func (e *Exec) strSlice(s *Str, lo, hi int) *Str {
	if s.b == nil {
		return mkStr(s.s[lo:hi])
	}
	return e.strFromTerms(s.b[lo:hi])
}
func (e *Exec) strCat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, e.strTerms(a)...)
	r = append(r, e.strTerms(b)...)
	return &Str{b: r}
}
func (e *Exec) strEq(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return e.T.ff
	}
	if a.b == nil && b.b == nil {
		return e.T.Bool(a.s == b.s)
	}
	r := e.T.tt
	for i := 0; i < a.Len(); i++ {
		r = e.T.And(r, e.T.Eq(e.strAt(a, i), e.strAt(b, i)))
		if r == e.T.ff {
			return r
		}
	}
	return r
}

// strLess: a < b (or a <= b when orEq) lexicographically.
func (e *Exec) strLess(a, b *Str, orEq bool) *Term {
	if a.b == nil && b.b == nil {
		if orEq {
			return e.T.Bool(a.s <= b.s)
		}
		return e.T.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var r *Term
	if a.Len() == b.Len() {
		r = e.T.Bool(orEq)
	} else {
		r = e.T.Bool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := e.strAt(a, i), e.strAt(b, i)
		r = e.T.Ite(e.T.Eq(x, y), r, e.T.Cmp(OUlt, x, y))
	}
	return r
}

func (e *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	i := e.ti(t)
	if c.Value == nil {
		return e.zero(t)
	}
	switch i.kind {
	case tkString:
		return mkStr(constant.StringVal(c.Value))
	case tkScalar:
		switch i.sort {
		case SBool:
			return e.T.Bool(constant.BoolVal(c.Value))
		case SF32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return e.T.Const(SF32, uint64(math.Float32bits(f)))
		case SF64:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return e.T.Const(SF64, math.Float64bits(f))
		}
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return e.T.Const(i.sort, uint64(x))
		}
		x, _ := constant.Uint64Val(v)
		return e.T.Const(i.sort, x)
	case tkUnsafe:
		return UPtr{}
	}
	e.unsupported(fmt.Sprintf("constant %v of type %v", c, t))
	return nil
}

// valEq builds the equality of two values of static type t.
func (e *Exec) valEq(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.T.Eq(x, b.(*Term))
	case *Str:
		return e.strEq(x, b.(*Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return e.T.ff
		}
		if x.sym != nil || y.sym != nil {
			e.unsupported("comparison of symbolic pointers")
		}
		return e.T.Bool(x.obj == y.obj && (x.obj == nil || x.off == y.off))
	case UPtr:
		y := b.(UPtr)
		return e.T.Bool(x.p.obj == y.p.obj && x.p.off == y.p.off)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			e.unsupported("iface compare")
		}
		if x.t == nil || y.t == nil {
			return e.T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.T.ff
		}
		if !types.Comparable(x.t) {
			e.targetPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return e.valEq(x.t, x.v, y.v)
	case Slice:
		y := b.(Slice)
		if y.obj == nil && y.len == 0 && y.cap == 0 {
			return e.T.Bool(x.obj == nil)
		}
		if x.obj == nil {
			return e.T.Bool(y.obj == nil)
		}
		e.unsupported("slice compare")
	case *MapObj:
		return e.T.Bool(x == b.(*MapObj))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return e.T.Bool(x == nil && y == nil)
		}
		return e.T.Bool(x == y)
	case Agg:
		y := b.(Agg)
		return e.cellsEq(t, []Value(x), []Value(y))
	case nil:
		return e.T.Bool(b == nil)
	}
	e.unsupported(fmt.Sprintf("compare %T", a))
	return nil
}

func (e *Exec) cellsEq(t types.Type, x, y []Value) *Term {
	r := e.T.tt
	switch u := t.Underlying().(type) {
	case *types.Struct:
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.ti(ft).size
			if u.Field(i).Name() != "_" {
				r = e.T.And(r, e.cellsEq(ft, x[off:off+n], y[off:off+n]))
			}
			off += n
		}
		return r
	case *types.Array:
		n := e.ti(u.Elem()).size
		for i := 0; i < int(u.Len()); i++ {
			r = e.T.And(r, e.cellsEq(u.Elem(), x[i*n:i*n+n], y[i*n:i*n+n]))
		}
		return r
	}
	return e.valEq(t, x[0], y[0])
}

// keyString encodes a concrete map key; ok=false when it is symbolic.
func (e *Exec) keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d:%d", x.sort, x.k), true
		}
		return "", false
	case *Str:
		if x.b == nil {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		if x.obj == nil {
			return "p0", true
		}
		return fmt.Sprintf("p%d.%d", x.obj.id, x.off), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		s, ok := e.keyString(x.v)
		return "I" + x.t.String() + "|" + s, ok
	case Agg:
		var sb strings.Builder
		for _, c := range x {
			s, ok := e.keyString(c)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return "A" + sb.String(), true
	case nil:
		return "nil", true
	}
	e.unsupported(fmt.Sprintf("map key %T", v))
	return "", false
}
