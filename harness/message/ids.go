package message

import (
	"strconv"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

func hex(s string) string {
	const digits = "0123456789abcdef"
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, digits[s[i]>>4], digits[s[i]&15])
	}
	return string(b)
}

// messageOf is a request or response with the headers of a transaction.
func messageOf(hs ...header.Header) *message.SIPMessage {
	var m *message.SIPMessage
	if sym.Bool() {
		m = &message.NewSIPRequest().SIPMessage
	} else {
		m = &message.NewSIPResponse().SIPMessage
	}
	for _, h := range hs {
		m.AttachHeader(h)
	}
	return m
}

// place gives a header one of 4 SIP or tel URIs and returns its user, host and port as far as there are.
func place(h interface{ GetAddress() address.Address }, user string) string {
	a := h.GetAddress()
	u := a.GetURI().(*address.SipURIImpl)
	switch sym.Choice(4) {
	case 1:
		u.SetPort(5070)
		u.SetParameter("x", "1")
		a.SetDisplayName("N")
		return user + "@h:5070"
	case 2:
		n := address.NewSipURIImpl()
		n.SetHostString("h")
		a.SetURI(n)
		return "h"
	case 3:
		u.SetUserPassword("p")
		u.SetPort(5060)
		return user + "@h:5060"
	}
	return user + "@h"
}

// H_M05_branch: messages with a topmost Via whose branch is the magic cookie in any letter case and 0..3 (5) token
// characters, another Via, and any other headers or none.
func H_M05_branch() {
	b := []byte("z9hG4bK")
	for i := range b {
		if b[i] != '9' && b[i] != '4' && sym.Bool() {
			b[i] ^= 32
		}
	}
	rest := sym.StringIn(sym.Choice(sym.Bound(4, 6)), tokenChars)
	v, _ := via("a", string(b)+rest)
	v2, _ := via("b", one())
	hs := []header.Header{v, v2}
	if sym.Bool() {
		f, _ := from(one(), one())
		c, _ := header.NewCallID(one())
		hs = append(hs, f, c, header.NewCSeq(1, "INVITE"))
	}
	sym.Assert(messageOf(hs...).GetTransactionId() == "z9hg4bk"+lower(rest), "the transaction is the branch in small letters")
}

// H_M05_old: messages without the magic cookie, with users, tags, Call-IDs and branches of any character or none, SIP URIs
// of 4 shapes, ports or none, CSeq numbers 0, 9 or 2147483647 and methods of 2, 3 or 6 letters, and each of the headers present or not.
func H_M05_old() {
	id := ""
	var hs []header.Header
	if sym.Bool() {
		u, t := one(), sym.StringIn(sym.Choice(2), tokenChars)
		h, _ := from(u, t)
		id += place(h, u) + ":"
		if t != "" {
			id += t + ":"
		}
		hs = append(hs, h)
	}
	if sym.Bool() {
		u := one()
		h, _ := to(u, sym.StringIn(sym.Choice(2), tokenChars))
		id += place(h, u) + ":"
		hs = append(hs, h)
	}
	if sym.Bool() {
		s := one()
		if sym.Bool() {
			s += "@" + one()
		}
		h, _ := header.NewCallID(s)
		id += s
		hs = append(hs, h)
	}
	id += ":"
	if sym.Bool() {
		n := []int{0, 9, 2147483647}[sym.Choice(3)]
		m := sym.StringIn([]int{2, 3, 6}[sym.Choice(3)], upper)
		hs = append(hs, header.NewCSeq(n, m))
		id += strconv.Itoa(n) + ":" + m
	}
	if sym.Bool() {
		h, _ := via("a", sym.Pick("", "1", "z9hG4b"))
		id += ":a"
		switch sym.Choice(3) {
		case 0:
			h.SetPort(7)
			id += ":7"
		case 1:
			h.SetPort(5060)
			h.SetReceived("9.9.9.9")
			h.SetMAddr("m")
			id += ":5060"
		case 2:
			id += ":5060"
		}
		hs = append(hs, h)
		if sym.Bool() {
			h, _ = via("b", "z9hG4bK1")
			hs = append(hs, h)
		}
	}
	sym.Assert(messageOf(hs...).GetTransactionId() == hex(lower(id)), "the transaction is the hexadecimal form of its parts")
}

// H_M05_differ: two messages without the magic cookie, with users, tags, Call-IDs, methods and CSeq numbers of any one
// alphanumeric character.
func H_M05_differ() {
	type parts struct{ from, tag, to, call, seq, method string }
	build := func() (*message.SIPMessage, parts) {
		n := sym.Choice(3)
		p := parts{sym.StringIn(1, alnum), sym.StringIn(1, alnum), sym.StringIn(1, alnum), sym.StringIn(1, alnum), strconv.Itoa(n), sym.StringIn(1, "ABC")}
		m := message.NewSIPMessage()
		f, _ := from(p.from, p.tag)
		t, _ := to(p.to, sym.StringIn(1, alnum))
		c, _ := header.NewCallID(p.call)
		v, _ := via("a", "1")
		for _, h := range []header.Header{f, t, c, header.NewCSeq(n, p.method), v} {
			m.AttachHeader(h)
		}
		return m, p
	}
	m, p := build()
	n, q := build()
	eq := sym.And(sym.And(fold(p.from, q.from), fold(p.tag, q.tag)), sym.And(fold(p.to, q.to), fold(p.call, q.call)))
	eq = sym.And(eq, sym.And(p.seq == q.seq, p.method == q.method))
	sym.Assert((m.GetTransactionId() == n.GetTransactionId()) == eq, "messages are of one transaction iff their parts are the same")
}

// fold compares one character in any letter case.
func fold(a, b string) bool {
	c, d := a[0], b[0]
	same := c == d
	return sym.Or(same, sym.And(c^32 == d, sym.InSet(c, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")))
}

// H_M05_dialog: requests and responses with users, tags and Call-IDs of any character or none, asked as client and
// server, with the tag of the To header or another.
func H_M05_dialog() {
	var hs []header.Header
	f, t := "", ""
	call := ""
	if sym.Bool() {
		u, g := one(), sym.StringIn(sym.Choice(2), tokenChars)
		h, _ := from(u, g)
		f = ":" + place(h, u)
		if g != "" {
			f += ":" + g
		}
		hs = append(hs, h)
	} else {
		f = ":"
	}
	other := sym.StringIn(sym.Choice(2), tokenChars)
	t2 := ":"
	if sym.Bool() {
		u, g := one(), sym.StringIn(sym.Choice(2), tokenChars)
		h, _ := to(u, g)
		t = ":" + place(h, u)
		t2 = t
		if g != "" {
			t += ":" + g
		}
		hs = append(hs, h)
	} else {
		t = ":"
	}
	if other != "" {
		t2 += ":" + other
	}
	if sym.Bool() {
		call = one()
		if sym.Bool() {
			call += "@" + one()
		}
		h, _ := header.NewCallID(call)
		hs = append(hs, h)
	}
	var m interface {
		AttachHeader(header.Header) error
		GetDialogId(bool) string
		GetDialogId2(bool, string) string
	} = message.NewSIPRequest()
	if sym.Bool() {
		m = message.NewSIPResponse()
	}
	for _, h := range hs {
		m.AttachHeader(h)
	}
	sym.Assert(m.GetDialogId(false) == lower(call+f+t), "the dialog of a client is Call-ID, From and To")
	sym.Assert(m.GetDialogId(true) == lower(call+t+f), "the dialog of a server is Call-ID, To and From")
	sym.Assert(m.GetDialogId2(false, other) == lower(call+f+t2), "the dialog of a client is Call-ID, From and To with a tag")
	sym.Assert(m.GetDialogId2(true, other) == lower(call+t2+f), "the dialog of a server is Call-ID, To with a tag and From")
}

// H_M05_hex: any 0..5 (8) bytes.
func H_M05_hex() {
	s := sym.String(sym.Choice(sym.Bound(6, 9)))
	sym.Assert(message.ToHexString([]byte(s)) == hex(s), "bytes are two hexadecimal digits each")
}

// H_M05_reduce: any text of 0..5 (8) ASCII characters.
func H_M05_reduce() {
	s := sym.String(sym.Choice(sym.Bound(6, 9)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 128)
	}
	want := ""
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' {
			want += s[i : i+1]
		}
	}
	sym.Assert(message.ReduceString(s) == lower(want), "a reduced text is small letters without blanks")
	sym.Assert(message.GetQuotedString(s) == "\""+s+"\"", "a quoted text is between quotes")
}
