package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sort of a term: 0 = Bool, 1..64 = bit-vector of that width, SF32/SF64 = IEEE floats.
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 100
	SF64  Sort = 101
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBvNot
	OBvNeg
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // k = lo; width from sort
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromSBV
	OFFromUBV
	OFToSBV
	OFToUBV
	OFToF
	OFFromBits
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBvNot: "bvnot", OBvNeg: "bvneg",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

type Term struct {
	op   Op
	sort Sort
	nv   int8 // number of args
	id   uint32
	k    uint64
	a    [3]*Term
	// variable summary: -1 none, >=0 the only variable, -2 several (vars set lazily)
	v1   int32
	vars []int32
	// evaluation memo
	evGen uint32
	evVal uint64
}

type termKey struct {
	op      Op
	sort    Sort
	k       uint64
	a, b, c uint32
}

type Terms struct {
	tab     map[termKey]*Term
	next    uint32
	smallB  [256]*Term // 8-bit constants
	smallI  [1024]*Term
	tt, ff  *Term
	dy      map[*Term]dyad // exact floats, see dyadic.go
	trunc   map[*Term]*Term
	fromI   map[*Term]*Term
	gen     uint32
	varSort []Sort
	varTerm []*Term
	bitset  map[*Term]*[4]uint64
}

func newTerms() *Terms {
	T := &Terms{tab: map[termKey]*Term{}, bitset: map[*Term]*[4]uint64{}}
	T.next = 1
	T.tt = T.mk(OConst, SBool, 1, nil, nil, nil)
	T.ff = T.mk(OConst, SBool, 0, nil, nil, nil)
	return T
}

func (T *Terms) mk(op Op, s Sort, k uint64, a, b, c *Term) *Term {
	key := termKey{op: op, sort: s, k: k}
	n := int8(0)
	if a != nil {
		key.a = a.id
		n = 1
	}
	if b != nil {
		key.b = b.id
		n = 2
	}
	if c != nil {
		key.c = c.id
		n = 3
	}
	if t, ok := T.tab[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, k: k, nv: n, id: T.next}
	T.next++
	t.a[0], t.a[1], t.a[2] = a, b, c
	t.v1 = -1
	if op == OVar {
		t.v1 = int32(k)
	}
	for i := int8(0); i < n; i++ {
		av := t.a[i].v1
		if av == -1 {
			continue
		}
		if t.v1 == -1 {
			t.v1 = av
		} else if t.v1 != av || av == -2 {
			t.v1 = -2
		}
	}
	T.tab[key] = t
	return t
}

// varsOf returns the sorted variable set of t.
func (T *Terms) varsOf(t *Term) []int32 {
	if t.v1 == -1 {
		return nil
	}
	if t.vars != nil {
		return t.vars
	}
	if t.v1 >= 0 {
		t.vars = []int32{t.v1}
		return t.vars
	}
	var res []int32
	for i := int8(0); i < t.nv; i++ {
		res = mergeVars(res, T.varsOf(t.a[i]))
	}
	t.vars = res
	return res
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast path: b subset of a
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			out = append(out, a[i])
			i++
		} else if a[i] > b[j] {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func sext(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }

func (T *Terms) Const(s Sort, v uint64) *Term {
	if s >= 1 && s <= 64 {
		v &= mask(s)
	}
	if s == 8 {
		if c := T.smallB[v]; c != nil {
			return c
		}
		c := T.mk(OConst, s, v, nil, nil, nil)
		T.smallB[v] = c
		return c
	}
	if s == 64 && v < 1024 {
		if c := T.smallI[v]; c != nil {
			return c
		}
		c := T.mk(OConst, s, v, nil, nil, nil)
		T.smallI[v] = c
		return c
	}
	if s == SBool {
		if v != 0 {
			return T.tt
		}
		return T.ff
	}
	return T.mk(OConst, s, v, nil, nil, nil)
}
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.tt
	}
	return T.ff
}
func (T *Terms) Int(v int64) *Term { return T.Const(64, uint64(v)) }

// Var: returns variable number n with the given sort, creating it when needed.
func (T *Terms) Var(n int, s Sort) *Term {
	return T.mk(OVar, s, uint64(n), nil, nil, nil)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func f64(v uint64) float64 { return math.Float64frombits(v) }
func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }

// evalOp computes an operator on concrete values.
func evalOp(op Op, s Sort, k uint64, t *Term, x, y, z uint64) uint64 {
	var as Sort
	if t.a[0] != nil {
		as = t.a[0].sort
	}
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OBvNot:
		return ^x & mask(s)
	case OBvNeg:
		return -x & mask(s)
	case OAdd:
		return (x + y) & mask(s)
	case OSub:
		return (x - y) & mask(s)
	case OMul:
		return (x * y) & mask(s)
	case OUDiv:
		if y == 0 {
			return mask(s)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, s), sext(y, s)
		if b == 0 {
			if a >= 0 {
				return mask(s)
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & mask(s)
		}
		return uint64(a/b) & mask(s)
	case OSRem:
		a, b := sext(x, s), sext(y, s)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(s)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(s) {
			return 0
		}
		return (x << y) & mask(s)
	case OLShr:
		if y >= uint64(s) {
			return 0
		}
		return x >> y
	case OAShr:
		a := sext(x, s)
		if y >= uint64(s) {
			y = 63
		}
		return uint64(a>>y) & mask(s)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext(x, as) < sext(y, as))
	case OSle:
		return b2u(sext(x, as) <= sext(y, as))
	case OConcat:
		return (x<<t.a[1].sort | y) & mask(s)
	case OExtract:
		return (x >> k) & mask(s)
	case OZExt:
		return x
	case OSExt:
		return uint64(sext(x, as)) & mask(s)
	case OFAdd, OFSub, OFMul, OFDiv:
		if s == SF64 {
			a, b := f64(x), f64(y)
			switch op {
			case OFAdd:
				return math.Float64bits(a + b)
			case OFSub:
				return math.Float64bits(a - b)
			case OFMul:
				return math.Float64bits(a * b)
			}
			return math.Float64bits(a / b)
		}
		a, b := f32(x), f32(y)
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		default:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	case OFNeg:
		if s == SF64 {
			return x ^ (1 << 63)
		}
		return x ^ (1 << 31)
	case OFLt, OFLe, OFEq:
		var a, b float64
		if as == SF64 {
			a, b = f64(x), f64(y)
		} else {
			a, b = float64(f32(x)), float64(f32(y))
		}
		switch op {
		case OFLt:
			return b2u(a < b)
		case OFLe:
			return b2u(a <= b)
		}
		return b2u(a == b)
	case OFFromSBV:
		if s == SF64 {
			return math.Float64bits(float64(sext(x, as)))
		}
		return uint64(math.Float32bits(float32(sext(x, as))))
	case OFFromUBV:
		if s == SF64 {
			return math.Float64bits(float64(x))
		}
		return uint64(math.Float32bits(float32(x)))
	case OFToSBV:
		if as == SF64 {
			return uint64(int64(f64(x))) & mask(s)
		}
		return uint64(int64(f32(x))) & mask(s)
	case OFToUBV:
		if as == SF64 {
			return uint64(f64(x)) & mask(s)
		}
		return uint64(f32(x)) & mask(s)
	case OFToF:
		if as == s {
			return x
		}
		if s == SF64 {
			return math.Float64bits(float64(f32(x)))
		}
		return uint64(math.Float32bits(float32(f64(x))))
	case OFFromBits:
		return x
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

// Eval evaluates t under an assignment.
func (T *Terms) Eval(t *Term, m []uint64) uint64 {
	T.gen++
	return T.ev(t, m)
}
func (T *Terms) ev(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(m) {
			return m[t.k]
		}
		return 0
	}
	if t.evGen == T.gen {
		return t.evVal
	}
	var x, y, z uint64
	switch t.op {
	case OIte:
		if T.ev(t.a[0], m) != 0 {
			x = T.ev(t.a[1], m)
		} else {
			x = T.ev(t.a[2], m)
		}
		t.evGen, t.evVal = T.gen, x
		return x
	case OAnd:
		if T.ev(t.a[0], m) == 0 {
			x = 0
		} else {
			x = T.ev(t.a[1], m)
		}
		t.evGen, t.evVal = T.gen, x
		return x
	case OOr:
		if T.ev(t.a[0], m) != 0 {
			x = 1
		} else {
			x = T.ev(t.a[1], m)
		}
		t.evGen, t.evVal = T.gen, x
		return x
	}
	x = T.ev(t.a[0], m)
	if t.nv > 1 {
		y = T.ev(t.a[1], m)
	}
	if t.nv > 2 {
		z = T.ev(t.a[2], m)
	}
	r := evalOp(t.op, t.sort, t.k, t, x, y, z)
	t.evGen, t.evVal = T.gen, r
	return r
}

// op builds an operator application with folding and simplification.
func (T *Terms) op(op Op, s Sort, k uint64, args ...*Term) *Term {
	var a, b, c *Term
	a = args[0]
	if len(args) > 1 {
		b = args[1]
	}
	if len(args) > 2 {
		c = args[2]
	}
	if a.isConst() && (b == nil || b.isConst()) && (c == nil || c.isConst()) {
		tmp := Term{op: op, sort: s, k: k}
		tmp.a[0], tmp.a[1], tmp.a[2] = a, b, c
		var y, z uint64
		if b != nil {
			y = b.k
		}
		if c != nil {
			z = c.k
		}
		return T.Const(s, evalOp(op, s, k, &tmp, a.k, y, z))
	}
	return T.mk(op, s, k, a, b, c)
}

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	switch a.op {
	case OUlt:
		return T.mk(OUle, SBool, 0, a.a[1], a.a[0], nil)
	case OUle:
		return T.mk(OUlt, SBool, 0, a.a[1], a.a[0], nil)
	case OSlt:
		return T.mk(OSle, SBool, 0, a.a[1], a.a[0], nil)
	case OSle:
		return T.mk(OSlt, SBool, 0, a.a[1], a.a[0], nil)
	}
	return T.mk(ONot, SBool, 0, a, nil, nil)
}
func (T *Terms) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return T.ff
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return T.ff
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return T.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAnd, SBool, 0, a, b, nil)
}
func (T *Terms) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return T.tt
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return T.tt
		}
		return a
	}
	if a == b {
		return a
	}
	if T.Not(a) == b {
		return T.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OOr, SBool, 0, a, b, nil)
}
func (T *Terms) Eq(a, b *Term) *Term {
	if a == b && a.sort < SF32 {
		return T.tt
	}
	if a.sort >= SF32 {
		return T.fop(OFEq, SBool, a, b)
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.sort == SBool {
			if b.k != 0 {
				return a
			}
			return T.Not(a)
		}
		switch a.op {
		case OZExt:
			if b.k > mask(a.a[0].sort) {
				return T.ff
			}
			return T.Eq(a.a[0], T.Const(a.a[0].sort, b.k))
		case OSExt:
			w := a.a[0].sort
			if uint64(sext(b.k&mask(w), w))&mask(a.sort) != b.k {
				return T.ff
			}
			return T.Eq(a.a[0], T.Const(w, b.k))
		case OIte:
			x, y := T.Eq(a.a[1], b), T.Eq(a.a[2], b)
			if x.isConst() || y.isConst() {
				return T.Ite(a.a[0], x, y)
			}
		case OConcat:
			lw := a.a[1].sort
			return T.And(T.Eq(a.a[0], T.Const(a.a[0].sort, b.k>>lw)), T.Eq(a.a[1], T.Const(lw, b.k)))
		case OAdd:
			if a.a[1].isConst() {
				return T.Eq(a.a[0], T.Const(a.sort, b.k-a.a[1].k))
			}
		case OBXor:
			if a.a[1].isConst() {
				return T.Eq(a.a[0], T.Const(a.sort, b.k^a.a[1].k))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
			return T.Eq(a.a[0], b.a[0])
		}
		if a.op == OConcat && b.op == OConcat && a.a[1].sort == b.a[1].sort {
			return T.And(T.Eq(a.a[0], b.a[0]), T.Eq(a.a[1], b.a[1]))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return T.mk(OEq, SBool, 0, a, b, nil)
}
func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.k != 0 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	if c.op == ONot {
		return T.Ite(c.a[0], b, a)
	}
	if b.op == OIte && b.a[0] == c {
		return T.Ite(c, a, b.a[2])
	}
	if a.op == OIte && a.a[0] == c {
		return T.Ite(c, a.a[1], b)
	}
	return T.mk(OIte, a.sort, 0, c, a, b)
}

func (T *Terms) ZExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OZExt {
		return T.ZExt(a.a[0], w)
	}
	return T.op(OZExt, w, 0, a)
}
func (T *Terms) SExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == OZExt {
		return T.ZExt(a.a[0], w)
	}
	return T.op(OSExt, w, 0, a)
}
func (T *Terms) Extract(a *Term, lo uint64, w Sort) *Term {
	if lo == 0 && a.sort == w {
		return a
	}
	switch a.op {
	case OExtract:
		return T.Extract(a.a[0], a.k+lo, w)
	case OZExt, OSExt:
		iw := uint64(a.a[0].sort)
		if lo+uint64(w) <= iw {
			return T.Extract(a.a[0], lo, w)
		}
		if a.op == OZExt {
			if lo >= iw {
				return T.Const(w, 0)
			}
			return T.ZExt(T.Extract(a.a[0], lo, Sort(iw-lo)), w)
		}
		if lo == 0 {
			return T.SExt(a.a[0], w)
		}
	case OConcat:
		lw := uint64(a.a[1].sort)
		if lo+uint64(w) <= lw {
			return T.Extract(a.a[1], lo, w)
		}
		if lo >= lw {
			return T.Extract(a.a[0], lo-lw, w)
		}
		return T.Concat(T.Extract(a.a[0], 0, Sort(lo+uint64(w)-lw)), T.Extract(a.a[1], lo, Sort(lw-lo)))
	case OBAnd, OBOr, OBXor:
		return T.Bin(a.op, T.Extract(a.a[0], lo, w), T.Extract(a.a[1], lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return T.Bin(a.op, T.Extract(a.a[0], 0, w), T.Extract(a.a[1], 0, w))
		}
	case OBvNot:
		return T.op(OBvNot, w, 0, T.Extract(a.a[0], lo, w))
	case OIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return T.Ite(a.a[0], T.Extract(a.a[1], lo, w), T.Extract(a.a[2], lo, w))
		}
	}
	return T.op(OExtract, w, lo, a)
}
func (T *Terms) Concat(a, b *Term) *Term {
	s := a.sort + b.sort
	if a.isConst() && a.k == 0 {
		return T.ZExt(b, s)
	}
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] && a.k == b.k+uint64(b.sort) {
		return T.Extract(a.a[0], b.k, s)
	}
	if a.op == OZExt {
		return T.ZExt(T.Concat(a.a[0], b), s)
	}
	// (x . y) . z with y,z adjacent extracts
	if a.op == OConcat && a.a[1].op == OExtract && b.op == OExtract && a.a[1].a[0] == b.a[0] && a.a[1].k == b.k+uint64(b.sort) {
		return T.Concat(a.a[0], T.Extract(b.a[0], b.k, a.a[1].sort+b.sort))
	}
	return T.op(OConcat, s, 0, a, b)
}

// lowZeros / highZeros give the number of bits known to be zero.
func lowZeros(t *Term) int {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return int(t.sort)
		}
		return bits.TrailingZeros64(t.k)
	case OConcat:
		l := lowZeros(t.a[1])
		if l == int(t.a[1].sort) {
			return l + lowZeros(t.a[0])
		}
		return l
	case OZExt:
		l := lowZeros(t.a[0])
		if l == int(t.a[0].sort) {
			return int(t.sort)
		}
		return l
	}
	return 0
}
func highZeros(t *Term) int {
	switch t.op {
	case OConst:
		return int(t.sort) - bits.Len64(t.k)
	case OZExt:
		return int(t.sort-t.a[0].sort) + highZeros(t.a[0])
	case OConcat:
		h := highZeros(t.a[0])
		if h == int(t.a[0].sort) {
			return h + highZeros(t.a[1])
		}
		return h
	}
	return 0
}

func (T *Terms) Bin(op Op, a, b *Term) *Term {
	s := a.sort
	if a.isConst() && b.isConst() {
		return T.op(op, s, 0, a, b)
	}
	// constants to the right for commutative operators
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	switch op {
	case OAdd:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return T.Bin(OAdd, a.a[0], T.Const(s, a.a[1].k+b.k))
			}
		}
	case OSub:
		if a == b {
			return T.Const(s, 0)
		}
		if b.isConst() {
			return T.Bin(OAdd, a, T.Const(s, -b.k))
		}
	case OMul:
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OUDiv:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return T.Bin(OLShr, a, T.Const(s, uint64(bits.TrailingZeros64(b.k))))
		}
		if b.isConst() && b.k != 0 && a.op == OZExt && b.k <= mask(a.a[0].sort) {
			return T.ZExt(T.op(OUDiv, a.a[0].sort, 0, a.a[0], T.Const(a.a[0].sort, b.k)), s)
		}
	case OURem:
		if b.isConst() && b.k != 0 && b.k&(b.k-1) == 0 {
			return T.Bin(OBAnd, a, T.Const(s, b.k-1))
		}
		if b.isConst() && b.k != 0 && a.op == OZExt && b.k <= mask(a.a[0].sort) {
			return T.ZExt(T.op(OURem, a.a[0].sort, 0, a.a[0], T.Const(a.a[0].sort, b.k)), s)
		}
	case OSDiv, OSRem:
		// both operands known non-negative -> unsigned
		if highZeros(a) > 0 && highZeros(b) > 0 {
			if op == OSDiv {
				return T.Bin(OUDiv, a, b)
			}
			return T.Bin(OURem, a, b)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == mask(s) {
				return a
			}
			if a.op == OBAnd && a.a[1].isConst() {
				return T.Bin(OBAnd, a.a[0], T.Const(s, a.a[1].k&b.k))
			}
			// contiguous mask -> extract
			lo := bits.TrailingZeros64(b.k)
			n := bits.OnesCount64(b.k)
			if bits.Len64(b.k) == lo+n {
				r := T.Extract(a, uint64(lo), Sort(n))
				if lo > 0 {
					r = T.Concat(r, T.Const(Sort(lo), 0))
				}
				return T.ZExt(r, s)
			}
		}
	case OBOr, OBXor:
		if a == b {
			if op == OBOr {
				return a
			}
			return T.Const(s, 0)
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if r := T.disjointOr(a, b); r != nil {
			return r
		}
		if b.isConst() && op == OBOr && b.k == mask(s) {
			return b
		}
	case OShl:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(s) {
				return T.Const(s, 0)
			}
			return T.Concat(T.Extract(a, 0, s-Sort(b.k)), T.Const(Sort(b.k), 0))
		}
	case OLShr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(s) {
				return T.Const(s, 0)
			}
			return T.ZExt(T.Extract(a, b.k, s-Sort(b.k)), s)
		}
	case OAShr:
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(s) {
				b = T.Const(s, uint64(s)-1)
			}
			return T.SExt(T.Extract(a, b.k, s-Sort(b.k)), s)
		}
	}
	return T.op(op, s, 0, a, b)
}

// disjointOr rewrites a|b as a concatenation when the operands occupy disjoint bit ranges.
func (T *Terms) disjointOr(a, b *Term) *Term {
	s := int(a.sort)
	try := func(hi, lo *Term) *Term {
		n := lowZeros(hi)
		if n <= 0 || n >= s {
			return nil
		}
		if highZeros(lo) < s-n {
			return nil
		}
		return T.Concat(T.Extract(hi, uint64(n), Sort(s-n)), T.Extract(lo, 0, Sort(n)))
	}
	if r := try(a, b); r != nil {
		return r
	}
	if r := try(b, a); r != nil {
		return r
	}
	// operand pieces: a = (a1 . 0..0 . a2) patterns
	if a.op == OConcat || b.op == OConcat {
		x, y := a, b
		if x.op != OConcat {
			x, y = y, x
		}
		lw := x.a[1].sort
		hi := T.Extract(y, uint64(lw), x.a[0].sort)
		lo := T.Extract(y, 0, lw)
		if (hi.isConst() && hi.k == 0) || (lo.isConst() && lo.k == 0) {
			return T.Concat(T.Bin(OBOr, x.a[0], hi), T.Bin(OBOr, x.a[1], lo))
		}
	}
	return nil
}

func (T *Terms) Cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.op(op, SBool, 0, a, b)
	}
	if a == b {
		return T.Bool(op == OUle || op == OSle)
	}
	// signed compare of zero-extended values -> unsigned on narrow width
	if op == OSlt || op == OSle {
		ha, hb := highZeros(a), highZeros(b)
		if ha > 0 && hb > 0 {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if ha > 0 && b.isConst() && sext(b.k, b.sort) < 0 {
			return T.ff
		} else if hb > 0 && a.isConst() && sext(a.k, a.sort) < 0 {
			return T.tt
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZExt && b.isConst() {
			w := a.a[0].sort
			if b.k > mask(w) {
				return T.tt
			}
			return T.Cmp(op, a.a[0], T.Const(w, b.k))
		}
		if b.op == OZExt && a.isConst() {
			w := b.a[0].sort
			if a.k > mask(w) {
				return T.ff
			}
			return T.Cmp(op, T.Const(w, a.k), b.a[0])
		}
		if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
			return T.Cmp(op, a.a[0], b.a[0])
		}
		if op == OUlt && b.isConst() && b.k == 0 {
			return T.ff
		}
		if op == OUle && a.isConst() && a.k == 0 {
			return T.tt
		}
	}
	return T.op(op, SBool, 0, a, b)
}

// Bitset of a boolean term over one variable of width <= 8.
func (T *Terms) Bitset(t *Term) *[4]uint64 {
	if b, ok := T.bitset[t]; ok {
		return b
	}
	var r [4]uint64
	m := make([]uint64, t.v1+1)
	w := T.varSort[t.v1]
	n := 256
	if w < 8 {
		n = 1 << w
		if w == 0 {
			n = 2
		}
	}
	for i := 0; i < n; i++ {
		m[t.v1] = uint64(i)
		if T.Eval(t, m) != 0 {
			r[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	T.bitset[t] = &r
	return &r
}

// FromBitset builds the membership predicate of an 8-bit variable as range tests.
func (T *Terms) InSet(x *Term, set *[4]uint64) *Term {
	res := T.ff
	i := 0
	has := func(i int) bool { return set[i>>6]>>(uint(i)&63)&1 != 0 }
	for i < 256 {
		if !has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && has(j+1) {
			j++
		}
		var c *Term
		if i == j {
			c = T.Eq(x, T.Const(8, uint64(i)))
		} else {
			c = T.And(T.Cmp(OUle, T.Const(8, uint64(i)), x), T.Cmp(OUle, x, T.Const(8, uint64(j))))
		}
		res = T.Or(res, c)
		i = j + 1
	}
	return res
}

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

// smtRef gives the SMT-LIB text that refers to t, given the operand references.
func smtExpr(t *Term, ref func(*Term) string) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.k != 0 {
				return "true"
			}
			return "false"
		case SF32:
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.k)
		case SF64:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.sort)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.sort)-1, t.k, ref(t.a[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-t.a[0].sort, ref(t.a[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.a[0].sort, ref(t.a[0]))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(%s RNE %s %s)", n, ref(t.a[0]), ref(t.a[1]))
	case OFFromSBV, OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpDims(t.sort), ref(t.a[0]))
	case OFFromUBV:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpDims(t.sort), ref(t.a[0]))
	case OFToSBV:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort, ref(t.a[0]))
	case OFToUBV:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.sort, ref(t.a[0]))
	case OFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpDims(t.sort), ref(t.a[0]))
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for i := int8(0); i < t.nv; i++ {
		sb.WriteString(" " + ref(t.a[i]))
	}
	sb.WriteString(")")
	return sb.String()
}
func fpDims(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

func (T *Terms) count() int { return len(T.tab) }
