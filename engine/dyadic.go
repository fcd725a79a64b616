package main

import (
	"math"
	"math/bits"
)

// Exact float arithmetic. A 64-bit float known to equal I*2^e exactly, with
// lo <= I <= hi and |I| < 2^53, is tracked as such; operations whose exact result
// also fits 53 bits involve no rounding, so they are done on I.
type dyad struct {
	i      *Term // 64 bits, two's complement
	e      int
	lo, hi int64
}

const dyMax = int64(1) << 53

// umax bounds an unsigned bit-vector term.
func umax(t *Term) uint64 {
	full := uint64(math.MaxUint64)
	if t.sort < 64 {
		full = 1<<t.sort - 1
	}
	switch t.op {
	case OConst:
		return t.k
	case OZExt:
		return umax(t.a[0])
	case OBAnd:
		return min(umax(t.a[0]), umax(t.a[1]))
	case OLShr:
		if t.a[1].isConst() {
			if t.a[1].k >= uint64(t.sort) {
				return 0
			}
			return umax(t.a[0]) >> t.a[1].k
		}
		return umax(t.a[0])
	case OIte:
		return max(umax(t.a[1]), umax(t.a[2]))
	case OConcat:
		h := umax(t.a[0])
		return h<<t.a[1].sort | (1<<t.a[1].sort - 1)
	case OURem:
		if t.a[1].isConst() && t.a[1].k > 0 {
			return min(umax(t.a[0]), t.a[1].k-1)
		}
	}
	return full
}

func (T *Terms) dyOf(t *Term) (dyad, bool) {
	if t.sort != SF64 {
		return dyad{}, false
	}
	if t.isConst() {
		f := f64(t.k)
		if f == 0 && t.k == 0 {
			return dyad{T.Int(0), 0, 0, 0}, true
		}
		if math.IsNaN(f) || math.IsInf(f, 0) || f <= 0 {
			return dyad{}, false
		}
		fr, ex := math.Frexp(f)
		m := uint64(fr * (1 << 53))
		z := bits.TrailingZeros64(m)
		m >>= z
		if ex > 200 || ex < -200 {
			return dyad{}, false
		}
		return dyad{T.Int(int64(m)), ex - 53 + z, int64(m), int64(m)}, true
	}
	d, ok := T.dy[t]
	return d, ok
}

func (T *Terms) dySet(t *Term, d dyad) *Term {
	if t.isConst() || t.sort != SF64 || d.lo <= -dyMax || d.hi >= dyMax || d.e > 400 || d.e < -400 {
		return t
	}
	if d.i.isConst() {
		return T.Const(SF64, math.Float64bits(math.Ldexp(float64(int64(d.i.k)), d.e)))
	}
	if T.dy == nil {
		T.dy = map[*Term]dyad{}
	}
	T.dy[t] = d
	return t
}

// dyAlign brings two values to one exponent; the bounds stay below 2^62.
func (T *Terms) dyAlign(a, b dyad) (dyad, dyad, bool) {
	up := func(d dyad, by int) (dyad, bool) {
		if by == 0 || d.lo == 0 && d.hi == 0 {
			d.e -= by
			return d, true
		}
		if by > 61 || max(d.hi, -d.lo) >= int64(1)<<62>>by {
			return d, false
		}
		return dyad{T.Bin(OMul, d.i, T.Int(1<<by)), d.e - by, d.lo << by, d.hi << by}, true
	}
	ok := true
	if a.e > b.e {
		a, ok = up(a, a.e-b.e)
	} else if b.e > a.e {
		b, ok = up(b, b.e-a.e)
	}
	return a, b, ok
}

func (T *Terms) fop(op Op, s Sort, x, y *Term) *Term {
	r := T.op(op, s, 0, x, y)
	if r.isConst() {
		return r
	}
	a, ok := T.dyOf(x)
	b, ok2 := T.dyOf(y)
	if !ok || !ok2 {
		return r
	}
	switch op {
	case OFMul:
		if a.lo < 0 || b.lo < 0 {
			return r
		}
		if h, l := bits.Mul64(uint64(a.hi), uint64(b.hi)); h != 0 || l >= uint64(dyMax) {
			return r
		}
		return T.dySet(r, dyad{T.Bin(OMul, a.i, b.i), a.e + b.e, a.lo * b.lo, a.hi * b.hi})
	case OFDiv:
		if y.isConst() && b.hi == 1 {
			return T.dySet(r, dyad{a.i, a.e - b.e, a.lo, a.hi})
		}
		return r
	}
	if op == OFSub && a.e < 0 && a.e > -62 && a.lo >= 0 && T.fromI[y] != nil && T.trunc[T.fromI[y]] == x {
		// x - float(int(x)) is the fraction of x
		m := int64(1)<<-a.e - 1
		return T.dySet(r, dyad{T.Bin(OBAnd, a.i, T.Int(m)), a.e, 0, min(m, a.hi)})
	}
	a, b, ok = T.dyAlign(a, b)
	if !ok {
		return r
	}
	switch op {
	case OFAdd:
		return T.dySet(r, dyad{T.Bin(OAdd, a.i, b.i), a.e, a.lo + b.lo, a.hi + b.hi})
	case OFSub:
		return T.dySet(r, dyad{T.Bin(OSub, a.i, b.i), a.e, a.lo - b.hi, a.hi - b.lo})
	case OFLt:
		if a.hi < b.lo {
			return T.tt
		}
		if a.lo >= b.hi {
			return T.ff
		}
		return T.Cmp(OSlt, a.i, b.i)
	case OFLe:
		if a.hi <= b.lo {
			return T.tt
		}
		if a.lo > b.hi {
			return T.ff
		}
		return T.Cmp(OSle, a.i, b.i)
	case OFEq:
		return T.Eq(a.i, b.i)
	}
	return r
}

// fromInt converts an integer to a float.
func (T *Terms) fromInt(t *Term, ts Sort, signed bool) *Term {
	op := OFFromUBV
	if signed {
		op = OFFromSBV
	}
	r := T.op(op, ts, 0, t)
	m := umax(t)
	if ts != SF64 || r.isConst() || m >= uint64(dyMax) || signed && m >= 1<<(t.sort-1) {
		return r
	}
	if T.fromI == nil {
		T.fromI = map[*Term]*Term{}
	}
	T.fromI[r] = t
	return T.dySet(r, dyad{T.ZExt(t, 64), 0, 0, int64(m)})
}

// toInt truncates a float to an integer of w bits.
func (T *Terms) toInt(t *Term, w Sort, signed bool) *Term {
	if d, ok := T.dyOf(t); ok && !t.isConst() && d.lo >= 0 {
		i, hi := d.i, d.hi
		good := true
		if d.e > 0 {
			good = d.e < 62 && hi < int64(1)<<62>>d.e
			if good {
				i, hi = T.Bin(OMul, i, T.Int(1<<d.e)), hi<<d.e
			}
		} else if d.e < 0 {
			if -d.e >= 63 {
				i, hi = T.Int(0), 0
			} else {
				i, hi = T.Bin(OLShr, i, T.Int(int64(-d.e))), hi>>uint(-d.e)
			}
		}
		lim := uint64(1) << 62
		if w < 64 {
			lim = 1 << w
			if signed {
				lim >>= 1
			}
		}
		if good && uint64(hi) < lim {
			if w < 64 {
				i = T.Extract(i, 0, w)
			}
			if T.trunc == nil {
				T.trunc = map[*Term]*Term{}
			}
			T.trunc[i] = t
			return i
		}
	}
	if signed {
		return T.op(OFToSBV, w, 0, t)
	}
	return T.op(OFToUBV, w, 0, t)
}
