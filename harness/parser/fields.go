package parser

import (
	"strconv"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// token is 1..n token characters.
func token(n int) string { return sym.StringIn(1+sym.Choice(n), tokenChars) }

// blanks is linear white space.
func blanks() string { return sym.Pick("", " ", "\t") }

// quotable is 0..n bytes that may stand between double quotes as they are.
func quotable(n int) string {
	s := sym.String(sym.Choice(n + 1))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(sym.And(s[i] >= ' ', s[i] < 0x7f), sym.And(s[i] != '"', s[i] != '\\')))
	}
	return s
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

type param struct {
	name, value string
	quoted      bool
}

// parameters is 0..n parameters named x, y, z and one more token character (a digit), and their text.
func parameters(n int, flags bool) (string, []param) {
	text := ""
	var ps []param
	for i := sym.Choice(n + 1); i > 0; i-- {
		p := param{name: string("xyz"[i-1]) + sym.StringIn(1, digits)}
		text += blanks() + ";" + blanks() + p.name
		k := sym.Choice(3)
		if k == 0 && !flags {
			k = 1
		}
		switch k {
		case 1:
			p.value = token(1)
			text += "=" + p.value
		case 2:
			p.value = quotable(1)
			p.quoted = true
			text += "=\"" + p.value + "\""
		}
		ps = append(ps, p)
	}
	return text, ps
}

type parametersOf interface {
	GetParameter(name string) string
	HasParameter(name string) bool
	GetParameters() *core.NameValueList
}

// has: the header has exactly these parameters, in order. A quoted value is kept with its quotes in the value, or with
// a mark.
func has(h parametersOf, ps []param) {
	e := h.GetParameters().Front()
	for _, p := range ps {
		v := h.GetParameter(p.name)
		if p.quoted {
			nv := e.Value.(*core.NameValue)
			if nv.IsValueQuoted() {
				sym.Assert(v == p.value, "a quoted parameter has its value")
			} else {
				sym.Assert(v == "\""+p.value+"\"", "a quoted parameter has its value and quotes")
			}
		} else {
			sym.Assert(v == p.value, "a parameter has its value")
		}
		sym.Assert(h.HasParameter(p.name), "a parameter is there")
		sym.Assert(e.Value.(*core.NameValue).GetName() == p.name, "parameters are in order")
		e = e.Next()
	}
	sym.Assert(e == nil, "there are no other parameters")
	sym.Assert(!h.HasParameter("none") && h.GetParameter("none") == "", "a parameter that is not there is absent")
}

// hosts and what they are given as.
func host() string {
	return sym.Pick("h", "a.b-c.d1", "10.0.0.255", "[2001:db8::1]")
}

// port is nothing or a colon and 1..n digits.
func port(n int) (string, int) {
	if sym.Bool() {
		return "", -1
	}
	s := sym.StringIn(1+sym.Choice(n), digits)
	v := 0
	for i := 0; i < len(s); i++ {
		v = v*10 + int(s[i]-'0')
	}
	return ":" + s, v
}

// comment is the text of a comment: any character, a comment in a comment, or an escaped parenthesis.
func comment() string {
	if sym.Bool() {
		c := quotable(1)
		sym.Assume(c != "" && c != "(" && c != ")")
		return c
	}
	return sym.Pick("a (b) c", "(())", " \\) ", "(\\()", "\\\\")
}

type via struct {
	transport, host, comment string
	port                     int
	ps                       []param
}

func viaText(n int) (string, via) {
	v := via{transport: sym.Pick("UDP", "tcp", "TLS-SCTP", token(1)), host: host()}
	text := "SIP" + blanks() + "/" + blanks() + "2.0/" + v.transport + " " + v.host
	var p, s string
	p, v.port = port(sym.Bound(2, 4))
	text += p
	s, v.ps = parameters(n, true)
	switch sym.Choice(3) {
	case 0:
		text += s
	case 1:
		v.comment = token(1)
		text += " (" + v.comment + ")" + s
	case 2:
		v.comment = token(1)
		text += s + " (" + v.comment + ")"
	}
	return text, v
}

func isVia(h *header.Via, v via) {
	sym.Assert(h.GetProtocol() == "SIP" && h.GetProtocolVersion() == "2.0", "a Via has its protocol")
	sym.Assert(h.GetTransport() == v.transport, "a Via has its transport")
	sym.Assert(h.GetHost() == v.host, "a Via has its host")
	sym.Assert(h.GetPort() == v.port && h.HasPort() == (v.port != -1), "a Via has its port")
	sym.Assert(h.GetComment() == v.comment && h.HasComment() == (v.comment != ""), "a Via has its comment")
	has(h, v.ps)
}

// H_P03_via: a Via of any 4 transports or transport character, 4 hosts, ports of up to 2 (4) digits, a comment before,
// after or no comment, 0..1 (2) parameters of 3 kinds.
func H_P03_via() {
	text, v := viaText(sym.Bound(1, 2))
	h, err := parse("Via: " + text + blanks())
	sym.Assert(err == nil, "a Via is accepted")
	l := h.(*header.ViaList)
	sym.Assert(l.Len() == 1, "a list has the elements of its text")
	isVia(l.Front().Value.(*header.Via), v)
}

// H_P03_comments: one or two Via elements, each with a comment of any character, nested or escaped, before or after
// parameters.
func H_P03_comments() {
	text := "Via:"
	var want []string
	n := 1 + sym.Choice(2)
	for i := 0; i < n; i++ {
		c := comment()
		want = append(want, c)
		c = blanks() + "(" + c + ")"
		if i > 0 {
			text += ","
		}
		text += "SIP/2.0/UDP h" + sym.Pick(c+";ttl=5", ":7"+c, ":7 ;ttl=5"+c, ";branch=z;ttl=5"+c+";rport")
	}
	h, err := parse(text + blanks())
	sym.Assert(err == nil, "a Via is accepted")
	l := h.(*header.ViaList)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		v := e.Value.(*header.Via)
		sym.Assert(v.HasComment() && v.GetComment() == want[i], "a Via has its comment")
		sym.Assert(v.GetHost() == "h" && (v.GetPort() == 7 || v.GetTTL() == 5), "a Via has its parameters")
	}
}

// H_P03_transport: a Via with a transport of 1..3 (4) token characters or a usual one and 0..1 (2) more.
func H_P03_transport() {
	t := ""
	if sym.Bool() {
		t = token(sym.Bound(3, 4))
	} else {
		t = sym.Pick("UDP", "TCP", "TLS", "SCTP", "TLS-SCTP", "ws", "tls") + sym.StringIn(sym.Choice(sym.Bound(2, 3)), tokenChars)
	}
	h, err := parse("v:" + blanks() + "SIP/2.0/" + t + sym.Pick(" ", "\t", "  ") + "h:5060;branch=z9hG4bK1")
	sym.Assert(err == nil, "a Via is accepted")
	isVia(h.(*header.ViaList).Front().Value.(*header.Via), via{transport: t, host: "h", port: 5060, ps: []param{{name: "branch", value: "z9hG4bK1"}}})
}

// H_P03_after: 0..3 elements of Contact, Route, Record-Route and Via and then 1..2 characters that continue no element
// are refused; so is a wildcard with parameters after 0..3 elements.
func H_P03_after() {
	n := sym.Choice(4)
	k := sym.Choice(4)
	text := []string{"Contact: ", "Route: ", "Record-Route: ", "Via: "}[k]
	el := []string{"<sip:a@b>;x=y", "<sip:a@b;lr>", "<sip:a@b;lr>", "SIP/2.0/UDP h;branch=z"}[k]
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ","
		}
		text += el
	}
	switch {
	case k == 0 && sym.Bool():
		if n > 0 {
			text += ","
		}
		text += blanks() + "*" + blanks() + sym.StringIn(1, ";?<:a") + sym.StringIn(sym.Choice(2), alnum)
	case n == 0:
		text += sym.Pick("", ",", ";x=y", "<", "x")
	default:
		text += blanks() + sym.StringIn(1, "<>\"@[]{}?\\:/") + sym.StringIn(sym.Choice(2), alnum)
		if k == 3 {
			text = text[:len(text)-1] + sym.Pick("<", ">", "\"", "@", "]")
		}
	}
	h, err := parse(text)
	sym.Assert(err != nil && h == nil, "text that belongs to no element is refused")
}

// H_P03_vias: 2..3 Via elements with any transport character, host character and port digit stay in order.
func H_P03_vias() {
	n := 2 + sym.Choice(2)
	text := ""
	var vs []via
	for i := 0; i < n; i++ {
		v := via{transport: sym.StringIn(1, tokenChars), host: sym.StringIn(1, alnum)}
		d := sym.StringIn(1, digits)
		v.port = int(d[0] - '0')
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		text += "SIP/2.0/" + v.transport + " " + v.host + ":" + d
		if sym.Bool() {
			p := param{name: "branch", value: sym.StringIn(1, tokenChars)}
			v.ps = append(v.ps, p)
			text += ";branch=" + p.value
		}
		vs = append(vs, v)
	}
	h, err := parse("v:" + text)
	sym.Assert(err == nil, "a list of Via elements is accepted")
	l := h.(*header.ViaList)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	e := l.Front()
	for _, v := range vs {
		isVia(e.Value.(*header.Via), v)
		e = e.Next()
	}
}

// H_P03_viaparams: the known parameters of a Via in any case of their names, ttl of 1..3 digits, a received address of
// three kinds; a comment directly before, after or between them, or none.
func H_P03_viaparams() {
	text := "Via: SIP/2.0/UDP h"
	ttl, branch, maddr, received := -1, "", "", ""
	k, comment := sym.Choice(6), ""
	remark := func(i int) {
		if i == k {
			text += "(c)"
			comment = "c"
		}
	}
	remark(0)
	if sym.Bool() {
		branch = token(2)
		text += ";" + anyCase("branch") + blanks() + "=" + blanks() + branch
	}
	if sym.Bool() {
		s := sym.StringIn(1+sym.Choice(3), digits)
		ttl = 0
		for i := 0; i < len(s); i++ {
			ttl = ttl*10 + int(s[i]-'0')
		}
		text += ";" + anyCase("ttl") + "=" + s
	}
	remark(1)
	if sym.Bool() {
		maddr = sym.Pick("224.2.0.1", "m.org")
		text += ";" + anyCase("maddr") + "=" + maddr
	}
	remark(2)
	if sym.Bool() {
		received = sym.Pick("1.2.3.4", "2001:db8::1", "[::1]")
		text += ";" + anyCase("received") + "=" + received
	}
	remark(3)
	if sym.Bool() {
		text += ";alias"
	}
	remark(4)
	h, err := parse(text)
	sym.Assert(err == nil, "a Via is accepted")
	v := h.(*header.ViaList).Front().Value.(*header.Via)
	sym.Assert(v.GetBranch() == branch && v.GetTTL() == ttl, "a Via has its branch and ttl")
	sym.Assert(v.GetMAddr() == maddr && v.GetReceived() == received, "a Via has its maddr and received address")
	sym.Assert(v.GetComment() == comment, "a Via has its comment")
	m := v.GetMaddr()
	sym.Assert((m == nil) == (maddr == "") && (m == nil || m.GetHostName() == maddr), "a Via has its maddr")
}

// an address: a name in quotes or none, and a SIP URI in brackets.
func nameAddr() (text, name, user string) {
	user = sym.StringIn(1, alnum)
	if sym.Bool() {
		name = quotable(1)
		text = "\"" + name + "\"" + blanks()
	}
	return text + "<sip:" + user + "@h;lr>", name, user
}

func isAddr(a address.Address, name, user string) {
	sym.Assert(a != nil, "a header has its address")
	u, ok := a.GetURI().(*address.SipURIImpl)
	sym.Assert(ok, "an address has its URI")
	sym.Assert(u.GetUser() == user && u.GetHost() == "h" && u.HasParameter("lr"), "an address has its user and host")
	sym.Assert(a.GetDisplayName() == name, "an address has its display name")
}

// H_P03_addr: From, To, Reply-To and Refer-To with a quoted name of 0..1 characters or none, any user character and
// 0..2 parameters of 2 kinds.
func H_P03_addr() {
	text, name, user := nameAddr()
	s, ps := parameters(sym.Bound(1, 2), false)
	k := sym.Choice(4)
	h, err := parse([]string{"From", "To", "Reply-To", "Refer-To"}[k] + ":" + blanks() + text + s + blanks())
	sym.Assert(err == nil, "an address header is accepted")
	switch k {
	case 0:
		f := h.(*header.From)
		isAddr(f.GetAddress(), name, user)
		has(f, ps)
		sym.Assert(f.GetTag() == "" && !f.HasTag(), "a From without tag has none")
	case 1:
		f := h.(*header.To)
		isAddr(f.GetAddress(), name, user)
		has(f, ps)
		sym.Assert(f.GetTag() == "" && !f.HasTag(), "a To without tag has none")
	case 2:
		f := h.(*header.ReplyTo)
		isAddr(f.GetAddress(), name, user)
		has(f, ps)
	case 3:
		f := h.(*header.ReferTo)
		isAddr(f.GetAddress(), name, user)
		has(f, ps)
	}
}

// H_P03_tag: the tag of From and To, 1..2 (3) characters, after an address with or without brackets, with another
// parameter before or after.
func H_P03_tag() {
	tag := sym.StringIn(1+sym.Choice(sym.Bound(2, 3)), alnum+"-.!*_+~'") // without brackets it is read as part of the URI first
	to := sym.Bool()
	name := "From"
	if to {
		name = "t"
	}
	text := name + ": " + sym.Pick("<sip:a@b>", "sip:a@b", "\"x;tag=n\" <sip:a;tag=m@b;tag=o>") + sym.Pick("", ";x=y") + ";tag=" + tag + sym.Pick("", ";x=y")
	h, err := parse(text)
	sym.Assert(err == nil, "a tag is accepted")
	if to {
		f := h.(*header.To)
		sym.Assert(f.HasTag() && f.GetTag() == tag, "a To has its tag")
	} else {
		f := h.(*header.From)
		sym.Assert(f.HasTag() && f.GetTag() == tag, "a From has its tag")
	}
}

// H_P03_routes: 1..2 (3) elements of Route, Record-Route and Contact, each with a name or none, any user character and
// 0..1 parameters.
func H_P03_routes() {
	n := 1 + sym.Choice(sym.Bound(2, 3))
	k := sym.Choice(3)
	text := []string{"Route:", "Record-Route:", "Contact:"}[k]
	var names, users []string
	var pss [][]param
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		t, name, user := "", "", sym.StringIn(1, alnum)
		if sym.Bool() {
			name = sym.StringIn(1, alnum)
			t = "\"" + name + "\" "
		}
		text += t + "<sip:" + user + "@h;lr>"
		var ps []param
		if sym.Bool() {
			ps = append(ps, param{name: "x", value: sym.StringIn(1, tokenChars)})
			text += ";x=" + ps[0].value
		}
		names, users, pss = append(names, name), append(users, user), append(pss, ps)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a list of addresses is accepted")
	i := 0
	switch k {
	case 0:
		l := h.(*header.RouteList)
		sym.Assert(l.Len() == n, "a list has the elements of its text")
		for e := l.Front(); e != nil; e = e.Next() {
			r := e.Value.(*header.Route)
			isAddr(r.GetAddress(), names[i], users[i])
			has(r, pss[i])
			i++
		}
	case 1:
		l := h.(*header.RecordRouteList)
		sym.Assert(l.Len() == n, "a list has the elements of its text")
		for e := l.Front(); e != nil; e = e.Next() {
			r := e.Value.(*header.RecordRoute)
			isAddr(r.GetAddress(), names[i], users[i])
			has(r, pss[i])
			i++
		}
	case 2:
		l := h.(*header.ContactList)
		sym.Assert(l.Len() == n, "a list has the elements of its text")
		for e := l.Front(); e != nil; e = e.Next() {
			r := e.Value.(*header.Contact)
			isAddr(r.GetAddress(), names[i], users[i])
			has(r, pss[i])
			i++
		}
	}
}

// H_P03_contact: the expires and q parameters of a Contact, expires of 1..3 (5) digits, q of the form 0.d or 1.0.
func H_P03_contact() {
	text := "m:<sip:a@b>"
	exp, q := 0, ""
	if sym.Bool() {
		s := sym.StringIn(1+sym.Choice(sym.Bound(3, 5)), digits)
		for i := 0; i < len(s); i++ {
			exp = exp*10 + int(s[i]-'0')
		}
		text += ";expires=" + s
	}
	if sym.Bool() {
		q = "1.0"
		if sym.Bool() {
			q = "0." + strconv.Itoa(sym.Choice(10))
		}
		text += ";q=" + q
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a Contact is accepted")
	c := h.(*header.ContactList).Front().Value.(*header.Contact)
	sym.Assert(c.GetExpires() == exp && c.HasParameter("expires") == (len(text) > 11 && text[12:15] == "exp"), "a Contact has its expiry")
	sym.Assert(c.HasQValue() == (q != ""), "a Contact has its q value")
	if q == "" {
		sym.Assert(c.GetQValue() == -1, "a Contact without q value has -1")
	} else {
		f, _ := strconv.ParseFloat(q, 32)
		sym.Assert(c.GetQValue() == float32(f), "a Contact has its q value")
	}
}
