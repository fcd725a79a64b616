package rtp

import (
	"net"

	"github.com/use-go/gosips/rtp"

	"verif/harness/sym"
)

// anyTime is an arbitrary normalised time: the fraction comes from any NTP fraction.
func anyTime() *rtp.RTPTime {
	msw := sym.U32()
	sym.Assume(msw >= rtp.NTPTIMEOFFSET)
	fr := []uint32{0, 1 << 31, 1 << 30, 3 << 30, 4295, 4294967295, 4294, 8590}
	return rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(msw, fr[sym.Choice(sym.Bound(6, 8))]))
}

func same(a, b *rtp.RTPTime) bool { return a.ELT(b) && b.ELT(a) }

// H_R05_order: the four comparisons are one total order on any two times.
func H_R05_order() {
	a, b := anyTime(), anyTime()
	lt, gt, le, ge := a.LT(b), a.GT(b), a.ELT(b), a.EGT(b)
	sym.Assert(le == !gt, "a<=b is not a>b")
	sym.Assert(ge == !lt, "a>=b is not a<b")
	sym.Assert(!(lt && gt), "not both less and greater")
	sym.Assert(le || ge, "total")
	sym.Assert(lt == b.GT(a), "a<b is b>a")
	sym.Assert(le == b.EGT(a), "a<=b is b>=a")
	sym.Assert(a.ELT(a) && a.EGT(a) && !a.LT(a) && !a.GT(a), "reflexive")
	sym.Assert(same(a, a.Clone()), "a clone is equal")
	sym.ObserveBool("lt", lt)
}

// H_R05_trans: transitivity over any three times.
func H_R05_trans() {
	a, b, c := anyTime(), anyTime(), anyTime()
	if a.LT(b) && b.LT(c) {
		sym.Assert(a.LT(c), "transitive")
	}
	if a.ELT(b) && b.ELT(c) {
		sym.Assert(a.ELT(c), "transitive (or equal)")
	}
}

// H_R05_addsub: adding then subtracting gives the time back, sums are normalised and grow.
func H_R05_addsub() {
	a := anyTime()
	b := anyTime()
	orig, d := a.Clone(), b.Clone()
	a.Add(b)
	sym.Assert(same(b, d), "the operand is not changed by Add")
	sec1 := a.GetNTPTime().GetMSW() - rtp.NTPTIMEOFFSET
	so := orig.GetNTPTime().GetMSW() - rtp.NTPTIMEOFFSET
	sd := d.GetNTPTime().GetMSW() - rtp.NTPTIMEOFFSET
	carry := sec1 - so - sd
	sym.Assert(carry == 0 || carry == 1, "seconds add up with at most one carry")
	// normalised: adding a zero time changes nothing, and the fraction converts below one second
	z := a.Clone()
	z.Add(rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(rtp.NTPTIMEOFFSET, 0)))
	sym.Assert(same(z, a), "sum is normalised")
	if uint64(so)+uint64(sd) < 0xffffffff {
		sym.Assert(a.EGT(orig) && a.EGT(d), "sum is not below its parts")
		if d.GT(rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(rtp.NTPTIMEOFFSET, 0))) {
			sym.Assert(a.GT(orig), "adding a positive time grows")
		}
	}
	a.Sub(b)
	sym.Assert(same(a, orig), "(a+b)-b = a")
	sym.Assert(same(b, d), "the operand is not changed by Sub")
}

// H_R05_sub: (a-b)+b = a and a-b is not above a when a >= b.
func H_R05_sub() {
	a, b := anyTime(), anyTime()
	orig := a.Clone()
	ge := a.EGT(b)
	a.Sub(b)
	if ge {
		sym.Assert(a.ELT(orig), "difference is not above the minuend")
	}
	z := a.Clone()
	z.Add(rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(rtp.NTPTIMEOFFSET, 0)))
	sym.Assert(same(z, a), "difference is normalised")
	a.Add(b)
	sym.Assert(same(a, orig), "(a-b)+b = a")
}

// H_R06_sec: the seconds of any NTP time survive the conversions; times before 1970 give zero.
func H_R06_sec() {
	m := sym.U32()
	fr := []uint32{0, 1, 4295, 1 << 31, 4294967295}
	l := fr[sym.Choice(len(fr))]
	t := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(m, l))
	n := t.GetNTPTime()
	if m >= rtp.NTPTIMEOFFSET {
		sym.Assert(n.GetMSW() == m, "seconds survive NTP to RTP time and back")
		sym.Assert(n.GetLSW() <= l && l-n.GetLSW() <= 8591, "fraction survives within two microseconds, never later")
	} else {
		sym.Assert(n.GetMSW() == rtp.NTPTIMEOFFSET && n.GetLSW() == 0, "before 1970 is the epoch")
	}
	nt := rtp.NewNTPTime(m, l)
	sym.Assert(nt.GetMSW() == m && nt.GetLSW() == l, "NTP words kept")
}

// H_R06_mono: for any NTP time since 1970 and one with a listed fraction (8, thorough 64 values spread over the range) the converted times are in the same order, and equal NTP times convert equally.
func H_R06_mono() {
	m1, m2, l1 := sym.U32(), sym.U32(), sym.U32()
	n := sym.Bound(8, 64)
	l2 := uint32(sym.Choice(n)) * (4294967295 / uint32(n-1))
	sym.Assume(m1 >= rtp.NTPTIMEOFFSET && m2 >= rtp.NTPTIMEOFFSET)
	a := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(m1, l1))
	b := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(m2, l2))
	if m1 < m2 || m1 == m2 && l1 <= l2 {
		sym.Assert(a.ELT(b), "conversion keeps the order")
	}
	if m1 == m2 && l1 < l2 && l2-l1 > 4296 {
		sym.Assert(a.LT(b), "fractions more than a microsecond apart stay apart")
	}
}

// H_R06_frac: NTP fractions (64 values, thorough 256, spread over the range) survive within two microseconds, never later.
func H_R06_frac() {
	n := sym.Bound(64, 256)
	l := uint32(sym.Choice(n)) * (4294967295 / uint32(n-1))
	m := sym.U32()
	sym.Assume(m >= rtp.NTPTIMEOFFSET)
	t := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(m, l))
	n2 := t.GetNTPTime()
	sym.Assert(n2.GetMSW() == m, "seconds kept")
	sym.Assert(n2.GetLSW() <= l && l-n2.GetLSW() <= 8591, "fraction kept within two microseconds, never later")
}

// H_R06_fractions: conversion from a float of 0, 1, 59, 65535 and 10^6 whole seconds and 60 (thorough 250) fractions
// spread over the second, and ones next to its ends: whole seconds kept, fraction cut to a microsecond and never beyond.
func H_R06_fractions() {
	s := []uint32{0, 1, 59, 65535, 1000000}[sym.Choice(5)]
	n := sym.Bound(60, 250)
	ends := []float64{0.0000005, 0.0000015, 0.9999995, 0.9999999, 0.999999, 0.99999949}
	i := sym.Choice(n)
	f := 0.0
	if i < len(ends) {
		f = ends[i]
	} else {
		f = (float64(i) + 0.37) / float64(n)
	}
	t := rtp.NewRTPTimeFromFloat64(float64(s) + f)
	p := t.GetNTPTime()
	sym.Assert(p.GetMSW() == s+rtp.NTPTIMEOFFSET, "whole seconds kept")
	g := float64(p.GetLSW()) / 4294967296.0
	sym.Assert(g <= f+0.0000005 && f-g < 0.000003, "fraction kept to the microsecond")
	sym.Assert(t.LT(rtp.NewRTPTimeFromFloat64(float64(s)+1)) && rtp.NewRTPTimeFromFloat64(float64(s)).ELT(t), "between its whole seconds")
	u := t.Clone()
	u.Add(rtp.NewRTPTimeFromFloat64(0))
	sym.Assert(same(t, u), "normalised")
}

// H_R06_float: conversion from a float splits whole seconds and the fraction (dyadic fractions, any 16-bit second).
func H_R06_float() {
	s := sym.U16()
	fr := []float64{0, 0.5, 0.25, 0.75, 0.125}
	i := sym.Choice(len(fr))
	t := rtp.NewRTPTimeFromFloat64(float64(s) + fr[i])
	n := t.GetNTPTime()
	sym.Assert(n.GetMSW() == uint32(s)+rtp.NTPTIMEOFFSET, "whole seconds")
	sym.Assert(n.GetLSW() == uint32(fr[i]*4294967296.0), "an eighth of a second has its NTP fraction")
	sym.Assert(same(t, rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(uint32(s)+rtp.NTPTIMEOFFSET, uint32(fr[i]*4294967296.0)))), "fraction")
}

// H_R07_lcg: from any seed, each draw advances the 48-bit linear congruential state and returns its upper bits.
func H_R07_lcg() {
	seed := sym.U32()
	r := rtp.NewRandomRand48FromSeed(seed)
	st := uint64(seed)<<16 | 0x330e
	n := sym.Bound(3, 6)
	for i := 0; i < n; i++ {
		st = (0x5DEECE66D*st + 0xB) & 0xffffffffffff
		switch sym.Choice(4) {
		case 0:
			sym.Assert(r.GetRandom32() == uint32(st>>16), "32-bit draw")
		case 1:
			sym.Assert(r.GetRandom16() == uint16(st>>32), "16-bit draw")
		case 2:
			sym.Assert(r.GetRandom8() == uint8(st>>40), "8-bit draw")
		case 3:
			d := r.GetRandomDouble()
			sym.Assert(d == float64(int64(st))*3.552713678800500929355621337890625e-15, "double draw is state/2^48")
		}
	}
}

// H_R07_same: two generators with the same seed agree, reseeding restarts the sequence.
func H_R07_same() {
	seed := sym.U32()
	a := rtp.NewRandomRand48FromSeed(seed)
	b := rtp.NewRandomRand48FromSeed(sym.U32())
	if sym.Bool() {
		b.GetRandom8()
	}
	b.SetSeed(seed)
	for i := 0; i < 3; i++ {
		sym.Assert(a.GetRandom32() == b.GetRandom32(), "equal seeds give equal sequences")
	}
}

// H_R07_range: doubles lie in [0,1).
func H_R07_range() {
	r := rtp.NewRandomRand48FromSeed(sym.U32())
	d := r.GetRandomDouble()
	sym.Assert(d >= 0 && d < 1, "double in [0,1)")
}

func someAddr(kinds int) rtp.Address {
	switch sym.Choice(kinds) {
	case 0:
		return rtp.NewHostAddress(sym.String(sym.Choice(3)), sym.U16())
	case 1:
		return rtp.NewIPAddress(net.IP(sym.Bytes(4)), sym.U16())
	}
	return rtp.NewIPAddress(net.IP(sym.Bytes(16)), sym.U16())
}

func mapped(a, b net.IP) bool { // b (16 bytes) is the IPv4-mapped form of a (4 bytes)
	r := true
	for i := 0; i < 10; i++ {
		r = sym.And(r, b[i] == 0)
	}
	r = sym.And(r, sym.And(b[10] == 0xff, b[11] == 0xff))
	for i := 0; i < 4; i++ {
		r = sym.And(r, a[i] == b[12+i])
	}
	return r
}

func wantHost(a, b rtp.Address) bool {
	switch x := a.(type) {
	case *rtp.HostAddress:
		y, ok := b.(*rtp.HostAddress)
		return ok && x.GetHost() == y.GetHost()
	case *rtp.IPAddress:
		y, ok := b.(*rtp.IPAddress)
		if !ok {
			return false
		}
		i, j := x.GetIP(), y.GetIP()
		if len(i) == len(j) {
			r := true
			for k := range i {
				r = sym.And(r, i[k] == j[k])
			}
			return r
		}
		if len(i) == 4 {
			return mapped(i, j)
		}
		return mapped(j, i)
	}
	return false
}

func portOf(a rtp.Address) uint16 {
	switch x := a.(type) {
	case *rtp.HostAddress:
		return x.GetPort()
	case *rtp.IPAddress:
		return x.GetPort()
	}
	return 0
}

// H_R08_equal: host names of 0..2 bytes, IPv4 and IPv6 addresses, any port: both relations are what they say,
// symmetric and reflexive, and a clone is the same address.
func H_R08_equal() {
	a, b := someAddr(3), someAddr(3)
	h := a.IsFromSameHost(b)
	s := a.IsSameAddress(b)
	sym.Assert(h == wantHost(a, b), "same host exactly for equal hosts")
	sym.Assert(s == (wantHost(a, b) && portOf(a) == portOf(b)), "same address exactly for equal host and port")
	sym.Assert(h == b.IsFromSameHost(a), "same host is symmetric")
	sym.Assert(s == b.IsSameAddress(a), "same address is symmetric")
	c := a.Clone()
	sym.Assert(c.IsSameAddress(a) && a.IsSameAddress(c), "a clone is the same address")
	sym.Assert(c.GetAddressType() == a.GetAddressType(), "a clone has the same type")
	sym.ObserveBool("same", s)
}

// H_R08_clone: changing the original after Clone does not change the clone.
func H_R08_clone() {
	p, q := sym.U16(), sym.U16()
	a := rtp.NewHostAddress(sym.String(1), p)
	c := a.Clone().(*rtp.HostAddress)
	h := a.GetHost()
	a.SetHost(sym.String(2))
	a.SetPort(q)
	sym.Assert(c.GetHost() == h && c.GetPort() == p, "host clone is independent")
	sym.Assert(a.GetPort() == q, "port set")
	i := rtp.NewIPAddress(net.IP(sym.Bytes(4)), p)
	ip := append(net.IP(nil), i.GetIP()...)
	d := i.Clone().(*rtp.IPAddress)
	i.SetIP(net.IP(sym.Bytes(4)))
	i.SetPort(q)
	sym.Assert(d.GetPort() == p && d.GetIP()[0] == ip[0] && d.GetIP()[3] == ip[3], "IP clone is independent")
}

// H_R08_history: 4 (thorough 5) operations on a collision list against a reference list;
// addresses are host names of one byte with any port, times any whole or half second below 2^31.
func H_R08_history() {
	l := rtp.NewCollisionList()
	type ent struct {
		h string
		p uint16
		t *rtp.RTPTime
	}
	var ref []ent
	n := sym.Bound(4, 5)
	at := func() (*rtp.RTPTime, uint32) {
		s := sym.U32()
		sym.Assume(s < 1<<31)
		return rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(s+rtp.NTPTIMEOFFSET, uint32(sym.Choice(2))<<31)), s
	}
	for i := 0; i < n; i++ {
		switch sym.Choice(4) {
		case 0:
			h, p := sym.StringIn(1, "ab"), sym.U16()
			t, _ := at()
			ad := rtp.NewHostAddress(h, p)
			tc := t.Clone()
			isNew, err := l.UpdateAddress(ad, *tc)
			sym.Assert(err == nil, "update works")
			ad.SetHost("c")
			tc.Add(rtp.NewRTPTimeFromFloat64(1))
			k := -1
			for j := range ref {
				if ref[j].h == h && ref[j].p == p {
					k = j
				}
			}
			sym.Assert(isNew == (k < 0), "created exactly when absent")
			if k < 0 {
				ref = append(ref, ent{h, p, t})
			} else {
				ref[k].t = t
			}
		case 1:
			now, s := at()
			delay, d := at()
			sym.Assume(d < s)
			l.Timeout(now, delay)
			lim := now.Clone()
			lim.Sub(delay)
			var keep []ent
			for _, e := range ref {
				if !e.t.LT(lim) {
					keep = append(keep, e)
				}
			}
			ref = keep
		case 2:
			h, p := sym.StringIn(1, "ab"), sym.U16()
			want := false
			for _, e := range ref {
				if e.h == h && e.p == p {
					want = true
				}
			}
			sym.Assert(l.HasAddress(rtp.NewHostAddress(h, p)) == want, "lookup finds exactly the live addresses")
		case 3:
			l.Clear()
			ref = nil
		}
	}
	for _, e := range ref {
		sym.Assert(l.HasAddress(rtp.NewHostAddress(e.h, e.p)), "live address present at the end")
	}
	h, p, live := sym.StringIn(1, "abc"), sym.U16(), false
	for _, e := range ref {
		live = live || e.h == h && e.p == p
	}
	sym.Assert(l.HasAddress(rtp.NewHostAddress(h, p)) == live, "exactly the live addresses at the end")
	_, err := l.UpdateAddress(nil, *rtp.NewRTPTimeFromFloat64(0))
	sym.Assert(err != nil, "a missing address is refused")
}
