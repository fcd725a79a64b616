package header

import (
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

const (
	alpha  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
	alnum  = alpha + digits
	tokens = alnum + "-.!%*_+`'~"
	most   = 1<<63 - 1
)

func token(n int) string { return sym.StringIn(1+sym.Choice(n), tokens) }

// number is one number of a header: how it is set and read, and its least and greatest value.
type number struct {
	least, most int
	set         func(int) error
	get         func() int
}

func numbers(k int) number {
	switch k {
	case 0:
		h := header.NewContentLength()
		return number{0, most, h.SetContentLength, h.GetContentLength}
	case 1:
		h := header.NewExpires()
		return number{0, most, h.SetExpires, h.GetExpires}
	case 2:
		h := header.NewMinExpires()
		return number{0, most, h.SetExpires, h.GetExpires}
	case 3:
		h := header.NewMaxForwards()
		return number{0, 255, h.SetMaxForwards, h.GetMaxForwards}
	case 4:
		h := header.NewCSeq(0, "BYE")
		return number{0, 0x7fffffff, h.SetSequenceNumber, h.GetSequenceNumber}
	case 5:
		h := header.NewRSeq()
		return number{1, most, h.SetSequenceNumber, h.GetSequenceNumber}
	case 6:
		h := header.NewRAck()
		return number{1, most, h.SetRSeqNumber, h.GetRSeqNumber}
	case 7:
		h := header.NewRAck()
		return number{1, most, h.SetCSeqNumber, h.GetCSeqNumber}
	case 8:
		h := header.NewRetryAfter()
		return number{0, most, h.SetRetryAfter, h.GetRetryAfter}
	case 9:
		h := header.NewWarning()
		return number{300, 399, h.SetCode, h.GetCode}
	case 10:
		h := header.NewSubscriptionState()
		return number{0, most, h.SetExpires, h.GetExpires}
	case 11:
		h := header.NewSubscriptionState()
		return number{0, most, h.SetRetryAfter, h.GetRetryAfter}
	case 12:
		h := header.NewMimeVersion()
		return number{0, most, h.SetMajorVersion, h.GetMajorVersion}
	case 13:
		h := header.NewMimeVersion()
		return number{0, most, h.SetMinorVersion, h.GetMinorVersion}
	case 14:
		h := header.NewRetryAfter()
		return number{0, most, h.SetDuration, h.GetDuration}
	case 15:
		h := header.NewReason()
		return number{0, most, h.SetCause, h.GetCause}
	case 16:
		h := header.NewContact()
		return number{0, most, h.SetExpires, h.GetExpires}
	case 17:
		h := header.NewVia()
		return number{-1, 255, h.SetTTL, h.GetTTL}
	case 18:
		h := header.NewAuthentication("Authorization")
		return number{0, 0xffffffff, h.SetNonceCount, h.GetNonceCount}
	case 19:
		h := header.NewAuthenticationInfo()
		return number{0, 0xffffffff, h.SetNonceCount, h.GetNonceCount}
	}
	return number{}
}

// H_H01_fields: 14 numbers kept as such, any 64-bit value after any valid one.
func H_H01_fields() {
	n := numbers(sym.Choice(14))
	old, v := int(sym.I64()), int(sym.I64())
	sym.Assume(sym.And(old >= n.least, old <= n.most))
	sym.Assert(n.set(old) == nil, "a value in range is accepted")
	err := n.set(v)
	in := sym.And(v >= n.least, v <= n.most)
	sym.Assert((err == nil) == in, "a value is accepted iff it is in range")
	if err == nil {
		sym.Assert(n.get() == v, "a value set is the value read")
	} else {
		sym.Assert(n.get() == old, "a refused value leaves the old one")
	}
}

// H_H01_text: 6 numbers kept as text: -20..1100 (-20..20000), around their greatest value, powers of two and the ends of 64 bits, after
// one of two valid ones.
func H_H01_text() {
	n := numbers(14 + sym.Choice(6))
	old := []int{0, n.most}[sym.Choice(2)]
	var v int
	switch sym.Choice(5) {
	case 4:
		v = 1<<(7+sym.Choice(56)) - 1 + sym.Choice(2)
	case 0:
		v = sym.Range(-20, sym.Bound(1100, 20000))
	case 1:
		if v = n.most - 3 + sym.Choice(4); n.most < most {
			v += sym.Choice(4)
		}
	case 2:
		v = -most - 1 + sym.Choice(4)
	case 3:
		v = most - sym.Choice(4)
	}
	sym.Assert(n.set(old) == nil && n.get() == old, "a value in range is accepted")
	err := n.set(v)
	in := sym.And(v >= n.least, v <= n.most)
	sym.Assert((err == nil) == in, "a value is accepted iff it is in range")
	if err == nil {
		sym.Assert(n.get() == v, "a value set is the value read")
	} else {
		sym.Assert(n.get() == old, "a refused value leaves the old one")
	}
}

// H_H01_hops: any Max-Forwards value counted down 1..3 (5) times.
func H_H01_hops() {
	h := header.NewMaxForwards()
	v := int(sym.Byte())
	sym.Assert(h.SetMaxForwards(v) == nil, "a value in range is accepted")
	for i := 1 + sym.Choice(sym.Bound(3, 5)); i > 0; i-- {
		err := h.DecrementMaxForwards()
		sym.Assert((err == nil) == (v > 0), "Max-Forwards is counted down unless it is 0")
		if err == nil {
			v--
		}
		sym.Assert(h.GetMaxForwards() == v && h.HasReachedZero() == (v == 0), "Max-Forwards is counted down by one")
	}
}

// H_H01_times: any Timestamp and delay of 32-bit floating point.
func H_H01_times() {
	h := header.NewTimeStamp()
	v, d := sym.F32(), sym.F32()
	sym.Assert(h.SetTimeStamp(2) == nil, "a value in range is accepted")
	ok := sym.And(v >= 0, v <= 3.4028234663852886e38)
	err := h.SetTimeStamp(v)
	sym.Assert((err == nil) == ok, "a value is accepted iff it is in range")
	if err == nil {
		sym.Assert(h.GetTimeStamp() == v, "a value set is the value read")
	} else {
		sym.Assert(h.GetTimeStamp() == 2, "a refused value leaves the old one")
	}
	sym.Assert(!h.HasDelay() && h.GetDelay() == -1, "no delay at first")
	ok = sym.Or(d == -1, sym.And(d >= 0, d <= 3.4028234663852886e38))
	err = h.SetDelay(d)
	sym.Assert((err == nil) == ok, "a value is accepted iff it is in range")
	if err == nil {
		sym.Assert(h.GetDelay() == d && h.HasDelay() == (d != -1), "a value set is the value read")
	} else {
		sym.Assert(!h.HasDelay(), "a refused value leaves the old one")
	}
	h.RemoveDelay()
	sym.Assert(!h.HasDelay() && h.GetDelay() == -1, "a delay is removed")
}

// H_H01_q: q values outside 0..1 of any 32-bit floating point, and 0, 1 and 0.5.
func H_H01_q() {
	var h interface {
		SetQValue(float32) error
		GetQValue() float32
		HasQValue() bool
		RemoveQValue()
	}
	switch sym.Choice(4) {
	case 0:
		h = header.NewContact()
	case 1:
		h = header.NewAccept()
	case 2:
		h = header.NewAcceptEncoding()
	case 3:
		h = header.NewAcceptLanguage()
	}
	sym.Assert(!h.HasQValue() && h.GetQValue() == -1, "no q value at first")
	old := []float32{0, 1, 0.5, 0.25, 0.001}[sym.Choice(5)]
	sym.Assert(h.SetQValue(old) == nil, "a value in range is accepted")
	sym.Assert(h.HasQValue() && h.GetQValue() == old, "a value set is the value read")
	v := sym.F32()
	sym.Assume(!sym.And(v >= 0, v <= 1))
	sym.Assert(h.SetQValue(v) != nil, "a value out of range is refused")
	sym.Assert(h.HasQValue() && h.GetQValue() == old, "a refused value leaves the old one")
	h.RemoveQValue()
	sym.Assert(!h.HasQValue() && h.GetQValue() == -1, "a q value is removed")
}

// H_H01_pairs: two numbers of one header (MIME version, RAck, Subscription-State, Retry-After, Via), set in either
// order (durations and ttl of 7..9, the others any valid 64-bit value), then one of them set anew: the other is as it was.
func H_H01_pairs() {
	var a, b number
	switch sym.Choice(5) {
	case 0:
		h := header.NewMimeVersion()
		a, b = number{0, most, h.SetMajorVersion, h.GetMajorVersion}, number{0, most, h.SetMinorVersion, h.GetMinorVersion}
	case 1:
		h := header.NewRAck()
		a, b = number{1, most, h.SetRSeqNumber, h.GetRSeqNumber}, number{1, most, h.SetCSeqNumber, h.GetCSeqNumber}
	case 2:
		h := header.NewSubscriptionState()
		a, b = number{0, most, h.SetExpires, h.GetExpires}, number{0, most, h.SetRetryAfter, h.GetRetryAfter}
	case 3:
		h := header.NewRetryAfter()
		a, b = number{0, most, h.SetRetryAfter, h.GetRetryAfter}, number{7, 9, h.SetDuration, h.GetDuration}
	case 4:
		h := header.NewVia()
		a, b = number{1, 65535, func(p int) error { h.SetPort(p); return nil }, h.GetPort}, number{7, 9, h.SetTTL, h.GetTTL}
	}
	if sym.Bool() {
		a, b = b, a
	}
	value := func(n number) int {
		if n.most == 9 {
			return 7 + sym.Choice(3)
		}
		v := int(sym.I64())
		sym.Assume(sym.And(v >= n.least, v <= n.most))
		return v
	}
	x, y := value(a), value(b)
	sym.Assert(a.set(x) == nil && b.set(y) == nil, "a value in range is accepted")
	sym.Assert(a.get() == x && b.get() == y, "both values set are the values read")
	z := value(a)
	sym.Assert(a.set(z) == nil && a.get() == z && b.get() == y, "a value set leaves the other")
}
