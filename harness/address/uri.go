package address

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const unreserved = alnum + "-_.!~*'()"
const userChars = unreserved + "&=+$,;?/"
const passChars = unreserved + "&=+$,"
const paramChars = unreserved + "[]/:&+$"
const headerChars = unreserved + "[]/?:+$"
const hexDigits = "0123456789abcdefABCDEF"

// word is n characters of a set, the last one perhaps escaped.
func word(n int, set string) string {
	if n > 0 && sym.Bool() {
		return sym.StringIn(n-1, set) + "%" + sym.StringIn(2, hexDigits)
	}
	return sym.StringIn(n, set)
}

func host() string {
	switch sym.Choice(4) {
	case 0:
		return sym.StringIn(1, alnum)
	case 1:
		return sym.StringIn(1, alnum) + "." + sym.StringIn(2, alnum+"-")
	case 2:
		return sym.StringIn(1, "0123456789") + ".0.0.1"
	}
	return "[" + sym.StringIn(2, "0123456789abcdefABCDEF:") + "]"
}

func sipURI(text string) *address.SipURIImpl {
	u, err := parser.NewURLParser(text).Parse()
	sym.Assert(err == nil, "a SIP URI is accepted")
	sym.Assert(u.IsSipURI(), "and is a SIP URI")
	return u.(*address.SipURIImpl)
}

func checkUser(u *address.SipURIImpl, scheme, user, pass, h string, port int) {
	sym.Assert(u.GetScheme() == scheme && u.IsSecure() == (scheme == "sips"), "scheme")
	sym.Assert(u.GetUser() == user, "user")
	sym.Assert(u.GetUserPassword() == pass, "password")
	sym.Assert(u.GetHost() == h, "host")
	sym.Assert(u.GetPort() == port, "port")
	at := h
	if user != "" {
		at = user + "@" + h
	}
	sym.Assert(u.GetUserAtHost() == at, "user@host")
	if port != -1 {
		at += ":" + strconv.Itoa(port)
	}
	sym.Assert(u.GetUserAtHostPort() == at, "user@host:port")
}

// H_A01_authority: sip: or sips:[user[:password]@]host[:port] with a user of 0..2 (3) and a password of 0..1 (2) characters of
// their sets or escapes, host names, IPv4 and IPv6 hosts, ports of 1..3 (5) digits; followed by '>' or the end.
func H_A01_authority() {
	scheme := sym.Pick("sip", "sips")
	text := scheme + ":"
	user := word(sym.Choice(sym.Bound(3, 4)), userChars)
	pass := ""
	if user != "" {
		text += user
		pass = word(sym.Choice(sym.Bound(2, 3)), passChars)
		if pass != "" {
			text += ":" + pass
		}
		text += "@"
	}
	h := host()
	text += h
	port := -1
	if d := sym.Choice(sym.Bound(3, 5)); d > 0 {
		if d > 1 {
			d++
		}
		s := sym.StringIn(d, "0123456789")
		sym.Assume(d == 1 || s[0] != '0')
		port, _ = strconv.Atoi(s)
		text += ":" + s
	}
	p := parser.NewURLParser(text + sym.Pick("", ">x@y:z"))
	v, err := p.Parse()
	sym.Assert(err == nil, "a SIP URI is accepted")
	u, ok := v.(*address.SipURIImpl)
	sym.Assert(ok && v.IsSipURI(), "and is a SIP URI")
	checkUser(u, scheme, user, pass, h, port)
	sym.Assert(u.String() == text, "the encoding is the text")
	sym.Assert(p.GetLexer().MarkInputPosition() == len(text), "the URI ends where the text does")
	sym.Assert(u.GetUriParms().Len() == 0 && u.GetQheaders().Len() == 0, "no parameters, no headers")
}

// H_A01_params: SIP URIs with 0..2 (3) parameters, each a name of 1 character and no value, or a value of 0..2 (3)
// characters or escapes.
func H_A01_params() {
	text := sym.Pick("sip:", "sips:")
	if sym.Bool() {
		text += "u@"
	}
	text += "h"
	n := sym.Choice(sym.Bound(3, 4))
	type prm struct {
		n, v string
		has  bool
	}
	var ps []prm
	for i := 0; i < n; i++ {
		var p prm
		if i == 0 {
			p.n = word(1, paramChars)
		} else {
			p.n = sym.StringIn(1, paramChars)
		}
		if p.has = sym.Bool(); p.has {
			p.v = word(sym.Choice(sym.Bound(3, 4)), paramChars)
		}
		text += ";" + p.n
		if p.has {
			text += "=" + p.v
		}
		ps = append(ps, p)
	}
	u := sipURI(text)
	sym.Assert(u.String() == text, "the encoding is the text")
	names := u.GetParameterNames()
	sym.Assert(names.Len() == n, "number of parameters")
	i := 0
	for e := names.Front(); e != nil; e = e.Next() {
		sym.Assert(e.Value == ps[i].n, "parameter names in order")
		i++
	}
	q := word(1, paramChars)
	for i := range ps {
		if strings.EqualFold(ps[i].n, q) {
			sym.Assert(u.HasParameter(q), "parameter present")
			sym.Assert(u.GetParameter(q) == ps[i].v, "parameter value")
			return
		}
	}
	sym.Assert(!u.HasParameter(q) && u.GetParameter(q) == "", "parameter absent")
}

// H_A01_headers: SIP URIs with 1..2 (3) headers after 0..1 parameters, names of 1 and values of 0..2 (3) characters
// or escapes.
func H_A01_headers() {
	text := sym.Pick("sip:h", "sip:h;p=1", "sips:h")
	n := 1 + sym.Choice(sym.Bound(2, 3))
	var ns, vs []string
	for i := 0; i < n; i++ {
		a, b := word(1, headerChars), word(sym.Choice(sym.Bound(3, 4)), headerChars)
		if i == 0 {
			text += "?"
		} else {
			text += "&"
		}
		text += a + "=" + b
		ns, vs = append(ns, a), append(vs, b)
	}
	u := sipURI(text)
	sym.Assert(u.String() == text, "the encoding is the text")
	sym.Assert(u.GetHeaderNames().Len() == n, "number of headers")
	q := sym.StringIn(1, headerChars)
	for i := range ns {
		if strings.EqualFold(ns[i], q) {
			sym.Assert(u.GetHeader(q) == vs[i], "header value")
			return
		}
	}
	sym.Assert(u.GetHeader(q) == "", "header absent")
}

// H_A01_full: SIP URIs with user and password or neither, a port or none, 1..3 parameters and 0..3 headers, of 1..2
// characters of their sets.
func H_A01_full() {
	scheme := sym.Pick("sip", "sips")
	text := scheme + ":"
	user, pass, port := "", "", -1
	if sym.Bool() {
		user, pass = sym.StringIn(1+sym.Choice(2), userChars), sym.StringIn(1+sym.Choice(2), passChars)
		text += user + ":" + pass + "@"
	}
	text += "h.x"
	if sym.Bool() {
		port = 5060
		text += ":5060"
	}
	var ps, hs [][2]string
	for i := 1 + sym.Choice(3); i > 0; i-- {
		p := [2]string{sym.StringIn(1, alnum) + string(rune('a'+i)), sym.StringIn(1+sym.Choice(2), paramChars)}
		ps = append(ps, p)
		text += ";" + p[0] + "=" + p[1]
	}
	for i := sym.Choice(4); i > 0; i-- {
		p := [2]string{sym.StringIn(1, alnum) + string(rune('a'+i)), sym.StringIn(1+sym.Choice(2), headerChars)}
		if hs == nil {
			text += "?"
		} else {
			text += "&"
		}
		hs = append(hs, p)
		text += p[0] + "=" + p[1]
	}
	u := sipURI(text)
	checkUser(u, scheme, user, pass, "h.x", port)
	sym.Assert(u.String() == text, "the encoding is the text")
	sym.Assert(u.GetUriParms().Len() == len(ps) && u.GetQheaders().Len() == len(hs), "number of parameters and headers")
	for _, p := range ps {
		sym.Assert(u.GetParameter(p[0]) == p[1], "parameter value")
	}
	for _, p := range hs {
		sym.Assert(u.GetHeader(p[0]) == p[1], "header value")
	}
}

func fixpoint(text string) {
	p := parser.NewURLParser(text)
	u, err := p.Parse()
	if err != nil {
		sym.Assert(u == nil, "no URI with an error")
		return
	}
	enc := u.String()
	n := p.GetLexer().MarkInputPosition()
	sym.Assert(n <= len(text), "position within the text")
	w, err := parser.NewURLParser(enc).Parse()
	sym.Assert(err == nil, "the encoding of an accepted URI is accepted")
	sym.Assert(w.String() == enc, "and has the same encoding")
	sym.Assert(w.IsSipURI() == u.IsSipURI() && w.GetScheme() == u.GetScheme(), "and is of the same kind")
	if s, ok := u.(*address.SipURIImpl); ok {
		checkUser(w.(*address.SipURIImpl), s.GetScheme(), s.GetUser(), s.GetUserPassword(), s.GetHost(), s.GetPort())
	}
	c := u.Clone().(address.URI)
	sym.Assert(c.String() == enc && c.GetScheme() == u.GetScheme(), "a clone is equal")
}

// H_A02_sip: "sip:", or "sips:" in small or mixed letters, followed by any 0..6 (8) bytes.
func H_A02_sip() {
	fixpoint(sym.Pick("sip:", "sips:", "SiPs:") + sym.String(sym.Choice(sym.Bound(7, 9))))
}

// H_A02_sipuser: "sip:u@h" followed by any 0..6 (8) bytes.
func H_A02_sipuser() {
	fixpoint("sip:u@h" + sym.String(sym.Choice(sym.Bound(7, 9))))
}

// H_A02_tel: "tel:" followed by any 0..5 (7) bytes, and "tel:+1;" and "tel:1;" followed by any 0..4 (6) bytes.
func H_A02_tel() {
	if sym.Bool() {
		fixpoint("tel:" + sym.String(sym.Choice(sym.Bound(6, 8))))
	} else {
		fixpoint(sym.Pick("tel:+1;", "tel:1;") + sym.String(sym.Choice(sym.Bound(5, 7))))
	}
}

// H_A02_any: any text of 0..7 (9) bytes.
func H_A02_any() {
	fixpoint(sym.String(sym.Choice(sym.Bound(8, 10))))
}

// H_A02_entry: the other entry points on any text of 0..5 (7) bytes, also after "sip:", "sips:" and "tel:".
func H_A02_entry() {
	text := sym.Pick("", "sip:", "sips:", "tel:") + sym.String(sym.Choice(sym.Bound(6, 8)))
	m := parser.NewStringMsgParser()
	u, e1 := m.ParseSIPUrl(text)
	sym.Assert((u == nil) == (e1 != nil), "a SIP URI or an error")
	g, e2 := m.ParseUrl(text)
	sym.Assert((g == nil) == (e2 != nil), "a URI or an error")
	sym.Assert(e2 == nil || e1 != nil, "every SIP URI is a URI")
	if e1 == nil {
		sym.Assert(g.String() == u.String(), "both read the same")
	}
	t, e3 := m.ParSetelephoneNumber(text)
	sym.Assert((t == nil) == (e3 != nil), "a telephone number or an error")
	if e3 == nil {
		_ = t.String()
	}
}

// H_A02_generic: URIs of other schemes with 1..3 (4) characters, the last one perhaps escaped, at the end or before '>'.
func H_A02_generic() {
	text := sym.Pick("http:", "a+b-c.1:", "urn:", "SIPX:") + word(1+sym.Choice(sym.Bound(3, 4)), unreserved+";/?:@&=+$,")
	p := parser.NewURLParser(text + sym.Pick("", ">"))
	u, err := p.Parse()
	sym.Assert(err == nil && !u.IsSipURI(), "a URI is accepted")
	sym.Assert(u.String() == text, "the encoding is the text")
	sym.Assert(u.GetScheme() == text[:strings.IndexByte(text, ':')], "scheme")
	sym.Assert(p.GetLexer().MarkInputPosition() == len(text), "the URI ends where the text does")
	c := u.Clone().(address.URI)
	sym.Assert(c.String() == text && c.GetScheme() == u.GetScheme(), "a clone is equal")
}

// H_A05_tel: tel:[+]number*(;name=value) with a number of 1..2 (3) characters of its set and 0..2 (3) parameters with
// names and values of one or two token characters.
func H_A05_tel() {
	text := "tel:"
	global := sym.Bool()
	var num string
	if global {
		text += "+"
		num = sym.StringIn(1+sym.Choice(sym.Bound(2, 3)), "0123456789-.()")
	} else {
		num = sym.StringIn(1+sym.Choice(sym.Bound(2, 3)), "0123456789-.()*#")
	}
	text += num
	n := sym.Choice(sym.Bound(3, 4))
	var ns, vs []string
	for i := 0; i < n; i++ {
		a, b := sym.StringIn(1+sym.Choice(2), alnum+"-.!%*_+`'~"), sym.StringIn(1, alnum+"-.!%*_+`'~")
		text += ";" + a + "=" + b
		ns, vs = append(ns, a), append(vs, b)
	}
	v, err := parser.NewURLParser(text).Parse()
	sym.Assert(err == nil, "a telephone URL is accepted")
	u, ok := v.(*address.TelURLImpl)
	sym.Assert(ok && !v.IsSipURI() && v.GetScheme() == "tel", "and is one")
	sym.Assert(u.IsGlobal() == global && u.GetPhoneNumber() == num, "number")
	sym.Assert(u.String() == text, "the encoding is the text")
	sym.Assert(u.GetParameterNames().Len() == n, "number of parameters")
	for i := range ns {
		first := true
		for j := 0; j < i; j++ {
			if strings.EqualFold(ns[j], ns[i]) {
				first = false
			}
		}
		if first {
			sym.Assert(u.GetParameter(ns[i]) == vs[i], "parameter value")
		}
	}
}

// H_A05_set: 3 (thorough 4) operations on a new or parsed telephone URL, also one with a name in two letter cases, against a reference: number, global flag,
// sub-address, post-dial and parameters, set, removed and cloned.
func H_A05_set() {
	u := address.NewTelURLImpl()
	num, global := "", false
	type prm struct{ n, v string }
	var ps []prm
	switch sym.Choice(3) {
	case 1:
		v, err := parser.NewURLParser("tel:+1;isub=2;a=b").Parse()
		sym.Assert(err == nil, "accepted")
		u = v.(*address.TelURLImpl)
		num, global = "1", true
		ps = []prm{{"isub", "2"}, {"a", "b"}}
	case 2:
		v, err := parser.NewURLParser("tel:12-3;a=b;phone-context=+1;A=c").Parse()
		sym.Assert(err == nil, "accepted")
		u = v.(*address.TelURLImpl)
		num = "12-3"
		ps = []prm{{"a", "b"}, {"phone-context", "+1"}, {"A", "c"}}
	}
	del := func(n string) {
		for i := range ps {
			if strings.EqualFold(ps[i].n, n) {
				ps = append(append([]prm(nil), ps[:i]...), ps[i+1:]...)
				return
			}
		}
	}
	set := func(n, v string) {
		for i := len(ps); i > 0; i-- {
			del(n)
		}
		ps = append(ps, prm{n, v})
	}
	get := func(n string) string {
		for i := range ps {
			if strings.EqualFold(ps[i].n, n) {
				return ps[i].v
			}
		}
		return ""
	}
	text := func() string {
		s := "tel:"
		if global {
			s += "+"
		}
		s += num
		for _, p := range ps {
			s += ";" + p.n + "=" + p.v
		}
		return s
	}
	k := sym.Bound(3, 4)
	for i := 0; i < k; i++ {
		switch sym.Choice(7) {
		case 0:
			num = sym.StringIn(2, "0123456789")
			u.SetPhoneNumber(num)
		case 1:
			global = sym.Bool()
			u.SetGlobal(global)
		case 2:
			v := sym.StringIn(1, alnum)
			u.SetIsdnSubAddress(v)
			set("isub", v)
		case 3:
			v := sym.StringIn(1, alnum)
			u.SetPostDial(v)
			set(core.SIPTransportNames_POSTDIAL, v)
		case 4:
			n, v := sym.StringIn(1, alnum), sym.StringIn(1, alnum)
			u.SetParameter(n, v)
			set(n, v)
		case 5:
			n := sym.Pick("isub", "a", sym.StringIn(1, alnum))
			u.RemoveParameter(n)
			del(n)
		case 6:
			c := u.Clone().(*address.TelURLImpl)
			was := text()
			sym.Assert(c.String() == was, "a clone is equal")
			u.SetPhoneNumber("99")
			u.SetParameter("zz", "yy")
			sym.Assert(c.String() == was, "a clone is independent")
			u = c
		}
	}
	sym.Assert(u.GetPhoneNumber() == num && u.IsGlobal() == global, "number")
	sym.Assert(u.GetIsdnSubAddress() == get("isub"), "sub-address")
	sym.Assert(u.GetPostDial() == get(core.SIPTransportNames_POSTDIAL), "post-dial")
	q := sym.StringIn(1, alnum)
	sym.Assert(u.GetParameter(q) == get(q), "parameter")
	sym.Assert(u.GetParameterNames().Len() == len(ps), "number of parameters")
	sym.Assert(u.String() == text(), "encoding")
}
