package address

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

const tokenChars = alnum + "-.!%*_+`'~"

// H_A03_name: [display name] <uri> with a quoted name of 0..2 (4) bytes or escapes, an unquoted name of 1..2 (3)
// token characters and blanks, or none; white space around the parts; SIP, telephone and other URIs.
func H_A03_name() {
	uri := sym.Pick("sip:"+sym.StringIn(1, userChars)+"@h:5060;lr;a=b", "tel:+1;a=b", "http://x/"+sym.StringIn(1, unreserved))
	lws := sym.Pick("", " ", "\t ")
	name, text := "", ""
	switch sym.Choice(3) {
	case 0:
		n := sym.Choice(sym.Bound(3, 5))
		for i := 0; i < n; i++ {
			c := sym.Byte()
			if sym.Bool() {
				name += "\\" + string([]byte{c})
			} else {
				sym.Assume(c != '"' && c != '\\')
				name += string([]byte{c})
			}
		}
		text = "\"" + name + "\"" + lws
	case 1:
		name = sym.StringIn(1, tokenChars)
		if n := sym.Choice(sym.Bound(2, 3)); n > 0 {
			name += sym.StringIn(n, tokenChars+" ")
		}
		text = name + lws
		for name[len(name)-1] == ' ' {
			name = name[:len(name)-1]
		}
	}
	p := parser.NewAddressParser(text + "<" + lws + uri + lws + ">;x=y")
	a, err := p.Address()
	sym.Assert(err == nil, "a name-addr is accepted")
	sym.Assert(a.GetDisplayName() == name && a.HasDisplayName() == (name != ""), "display name")
	sym.Assert(a.GetURI().String() == uri, "URI")
	sym.Assert(a.GetAddressType() == address.NAME_ADDR && !a.IsWildcard(), "kind")
	sym.Assert(a.IsSIPAddress() == strings.HasPrefix(uri, "sip:"), "SIP address")
	sym.Assert(p.GetLexer().GetRest() == ";x=y", "the address ends after the bracket")
	if name != "" {
		name = "\"" + name + "\" "
	}
	sym.Assert(a.String() == name+"<"+uri+">", "encoding")
}

// H_A03_spec: a plain URI as an address.
func H_A03_spec() {
	uri := sym.Pick("sip:"+sym.StringIn(1, userChars)+"@h:5060;a=b", "sip:"+sym.StringIn(2, alnum), "tel:+1;a=b", "http://x/"+sym.StringIn(1, unreserved))
	a, err := parser.NewAddressParser(uri).Address()
	sym.Assert(err == nil, "an addr-spec is accepted")
	sym.Assert(a.GetURI().String() == uri && a.String() == uri, "URI")
	sym.Assert(a.GetDisplayName() == "" && !a.HasDisplayName(), "no display name")
	sym.Assert(a.GetAddressType() == address.ADDRESS_SPEC, "kind")
}

func addrFixpoint(text string) {
	p := parser.NewAddressParser(text)
	a, err := p.Address()
	if err != nil {
		sym.Assert(a == nil, "no address with an error")
		return
	}
	sym.Assert(p.GetLexer().MarkInputPosition() <= len(text), "position within the text")
	enc := a.String()
	b, err := parser.NewAddressParser(enc).Address()
	sym.Assert(err == nil, "the encoding of an accepted address is accepted")
	sym.Assert(b.String() == enc, "and has the same encoding")
	sym.Assert(b.GetDisplayName() == a.GetDisplayName(), "and display name")
	sym.Assert(b.GetURI().String() == a.GetURI().String(), "and URI")
}

// H_A03_any: any text of 0..5 (7) bytes.
func H_A03_any() { addrFixpoint(sym.String(sym.Choice(sym.Bound(6, 8)))) }

// H_A03_anyname: any 0..4 (6) bytes before "<sip:h>", or within its brackets or quotes.
func H_A03_anyname() {
	n := sym.Choice(sym.Bound(5, 7))
	switch sym.Choice(4) {
	case 0:
		addrFixpoint(sym.String(n) + "<sip:h>")
	case 1:
		addrFixpoint("\"" + sym.String(n) + "<sip:h>")
	case 2:
		addrFixpoint("<sip:h" + sym.String(n))
	case 3:
		addrFixpoint("a <" + sym.String(n))
	}
}

// H_A03_object: address objects without URI, with SIP and other URIs; display names set and removed, parameters
// removed, the wildcard.
func H_A03_object() {
	a := address.NewAddressImpl()
	kind := sym.Choice(3)
	uri := ""
	switch kind {
	case 1:
		u, err := parser.NewURLParser("sip:u@h:50;x=1").Parse()
		sym.Assert(err == nil, "accepted")
		a.SetURI(u)
		uri = "sip:u@h:50;x=1"
	case 2:
		u, err := parser.NewURLParser("tel:12").Parse()
		sym.Assert(err == nil, "accepted")
		a.SetAddess(u)
		uri = "tel:12"
	}
	name := ""
	n := sym.Bound(2, 3)
	bare := kind != 0 && sym.Bool()
	if bare {
		a.SetAddressType(address.ADDRESS_SPEC)
	}
	for i := 0; i < n; i++ {
		switch sym.Choice(6) {
		case 4:
			bare = sym.Bool()
			if bare {
				a.SetAddressType(address.ADDRESS_SPEC)
			} else {
				a.SetAddressType(address.NAME_ADDR)
			}
		case 5:
			c := a.Clone().(*address.AddressImpl)
			sym.Assert(c.String() == a.String() && c.GetDisplayName() == name, "a clone is equal")
			was := a.String()
			if sym.Bool() {
				a, c = c, a
			}
			c.SetDisplayName("zz")
			c.SetUser("zz")
			sym.Assert(a.String() == was, "a clone is independent")
		case 0:
			name = sym.StringIn(sym.Choice(3), alnum+" ")
			a.SetDisplayName(name)
			bare = false
		case 1:
			a.RemoveDisplayName()
			name = ""
		case 2:
			err := a.RemoveParameter("x")
			sym.Assert((err == nil) == (kind == 1), "only SIP URIs have parameters")
			if kind == 1 {
				uri = strings.Replace(uri, ";x=1", "", 1)
			}
		case 3:
			v := sym.StringIn(1, alnum)
			a.SetUser(v)
			if kind == 1 {
				uri = "sip:" + v + uri[5:]
			}
		}
	}
	want := ""
	if name != "" {
		want = "\"" + name + "\" "
	}
	if kind != 0 {
		if bare && name == "" {
			want += uri
		} else {
			want += "<" + uri + ">"
		}
	}
	sym.Assert(a.String() == want, "encoding")
	sym.Assert(a.HasDisplayName() == (name != "") && a.GetDisplayName() == name, "display name")
	sym.Assert(a.IsSIPAddress() == (kind == 1), "SIP address")
	port, e1 := a.GetPort()
	h, e2 := a.GetHost()
	hp, e3 := a.GetHostPort()
	sym.Assert((e1 == nil) == (kind == 1) && (e2 == nil) == (kind == 1) && (e3 == nil) == (kind == 1), "host and port of SIP URIs only")
	if kind == 1 {
		sym.Assert(port == 50 && h == "h" && hp.String() == "h:50", "host and port")
		sym.Assert(a.GetUserAtHostPort() == uri[4:10], "user@host:port")
	} else {
		sym.Assert(a.GetUserAtHostPort() == uri, "text of other URIs")
	}
	a.SetWildCardFlag()
	sym.Assert(a.IsWildcard() && a.String() == "*", "wildcard")
}

// H_A04_history: 2 (thorough 3) changes of a SIP URI, new (its host set first or last) or read from one of 3 texts, against a reference: user, password,
// host, port, security, parameters with and without value, the typed parameters, headers, and clones.
func H_A04_history() {
	type prm struct {
		n, v string
		has  bool
	}
	u := address.NewSipURIImpl()
	scheme, user, pass, h, port := "sip", "", "", "h", -1
	var ps, hs []prm
	switch sym.Choice(5) {
	case 0:
		u = sipURI("sip:u:p@h:5;lr;transport=udp;a=b?s=t")
		user, pass, port = "u", "p", 5
		ps = []prm{{"lr", "", false}, {"transport", "udp", true}, {"a", "b", true}}
		hs = []prm{{"s", "t", true}}
	case 1:
		u.SetHostString("h")
	case 2:
		u = sipURI("sip:u@h;ttl=3?s=t&x=&y=%20")
		user = "u"
		ps = []prm{{"ttl", "3", true}}
		hs = []prm{{"s", "t", true}, {"x", "", true}, {"y", "%20", true}}
	case 3: // the host is set last
		h = ""
		if sym.Bool() {
			user = "u"
			u.SetUser(user)
		}
	case 4:
		u = sipURI("sip:h;user=ip;method=M;maddr=m;transport=tcp;ttl=3;x?s=&t=u")
		ps = []prm{{"user", "ip", true}, {"method", "M", true}, {"maddr", "m", true}, {"transport", "tcp", true}, {"ttl", "3", true}, {"x", "", false}}
		hs = []prm{{"s", "", true}, {"t", "u", true}}
	}
	del := func(l []prm, n string) []prm {
		for i := range l {
			if strings.EqualFold(l[i].n, n) {
				return append(append([]prm(nil), l[:i]...), l[i+1:]...)
			}
		}
		return l
	}
	find := func(l []prm, n string) (string, bool) {
		for i := range l {
			if strings.EqualFold(l[i].n, n) {
				return l[i].v, true
			}
		}
		return "", false
	}
	set := func(n, v string) { ps = append(del(ps, n), prm{n, v, true}) }
	text := func() string {
		s := scheme + ":"
		if user != "" {
			s += user
			if pass != "" {
				s += ":" + pass
			}
			s += "@"
		}
		s += h
		if port != -1 {
			s += ":" + strconv.Itoa(port)
		}
		for _, p := range ps {
			s += ";" + p.n
			if p.has {
				s += "=" + p.v
			}
		}
		for i, p := range hs {
			if i == 0 {
				s += "?"
			} else {
				s += "&"
			}
			s += p.n + "=" + p.v
		}
		return s
	}
	k := sym.Bound(2, 3)
	for i := 0; i < k; i++ {
		switch sym.Choice(19) {
		case 0:
			user = sym.StringIn(1, alnum)
			u.SetUser(user)
		case 1:
			if user == "" {
				user = "x"
				u.SetUser(user)
			}
			pass = sym.StringIn(sym.Choice(2), alnum)
			u.SetUserPassword(pass)
		case 2:
			u.RemoveUser()
			user, pass = "", ""
		case 3:
			u.ClearPassword()
			pass = ""
		case 4:
			h = sym.StringIn(1, alnum) + sym.Pick("", ".x")
			u.SetHostString(h)
		case 5:
			port = sym.Choice(3) * 700
			u.SetPort(port)
		case 6:
			u.RemovePort()
			port = -1
		case 7:
			s := sym.Bool()
			u.SetSecure(s)
			scheme = "sip"
			if s {
				scheme = "sips"
			}
		case 8:
			s := sym.Pick("SIP", "sips", "tel", "")
			err := u.SetScheme(s)
			sym.Assert((err == nil) == (s == "SIP" || s == "sips"), "only sip and sips")
			if err == nil {
				scheme = strings.ToLower(s)
			}
		case 9:
			n, v := sym.Pick("ttl", "a", sym.StringIn(1, alnum)), sym.StringIn(sym.Choice(2), alnum)
			if n == "ttl" {
				v = "5"
			}
			if sym.Bool() {
				u.SetParameter(n, v)
			} else {
				u.SetUriParm(n, v)
			}
			set(n, v)
		case 10:
			n := sym.Pick("lr", "transport", "ttl", sym.StringIn(1, alnum))
			u.RemoveParameter(n)
			ps = del(ps, n)
		case 11:
			t := sym.Pick("UDP", "tcp", "Tcp", "sctp", "")
			err := u.SetTransportParam(t)
			sym.Assert((err == nil) == (t != "" && t != "sctp"), "transports")
			if err == nil {
				set("transport", strings.ToLower(t))
			}
		case 12:
			t := []int{-1, 0, 1, 255, 256, 70000}[sym.Choice(6)]
			err := u.SetTTLParam(t)
			sym.Assert((err == nil) == (t > 0), "time to live is positive")
			if err == nil {
				set("ttl", strconv.Itoa(t))
			}
		case 13:
			switch sym.Choice(4) {
			case 0:
				v := sym.StringIn(sym.Choice(2), alnum)
				err := u.SetMAddrParam(v)
				sym.Assert((err == nil) == (v != ""), "address not empty")
				if err == nil {
					set("maddr", v)
				}
			case 1:
				v := sym.StringIn(1, alnum)
				if sym.Bool() {
					u.SetMethodParam(v)
				} else {
					u.SetMethod(v)
				}
				set("method", v)
			case 2:
				v := sym.Pick("phone", "ip")
				u.SetUserParam(v)
				set("user", v)
			case 3:
				u.RemoveTransport()
				ps = del(ps, "transport")
			}
		case 14:
			u.SetLrParam()
			if _, ok := find(ps, "lr"); !ok {
				ps = append(ps, prm{"lr", "", false})
			}
		case 15:
			n, v := sym.StringIn(1, "stS"), sym.StringIn(sym.Choice(2), alnum)
			u.SetHeader(n, v)
			if _, ok := find(hs, n); ok {
				for j := range hs {
					if strings.EqualFold(hs[j].n, n) {
						hs[j].v = v
						break
					}
				}
			} else {
				hs = append(hs, prm{n, v, true})
			}
		case 16:
			if sym.Bool() {
				n := sym.StringIn(1, "stS")
				u.RemoveHeader(n)
				hs = del(hs, n)
			} else {
				if sym.Bool() {
					u.RemoveHeaders()
				} else {
					u.ClearQheaders()
				}
				hs = nil
			}
		case 17:
			if sym.Bool() {
				u.RemoveUriParms()
			} else {
				u.ClearUriParms()
			}
			ps = nil
		case 18:
			c := u.Clone().(*address.SipURIImpl)
			was := text()
			if h == "" {
				was = u.String()
			}
			sym.Assert(c.String() == was, "a clone is equal")
			spoil := func(x *address.SipURIImpl) {
				x.SetUser("zz")
				x.SetPort(1)
				x.SetHostString("zzz")
				x.SetHeader("s", "zz")
				x.SetHeader("zz", "zz")
				x.SetParameter("a", "zz")
				x.SetParameter("zz", "zz")
				x.GetUriParms().Front().Value.(*core.NameValue).SetValue("zz")
				x.GetQheaders().Front().Value.(*core.NameValue).SetValue("zz")
			}
			if sym.Bool() {
				spoil(u)
				sym.Assert(c.String() == was, "changing the original leaves its clone")
				u = c
			} else {
				spoil(c)
				sym.Assert(u.String() == was, "changing a clone leaves the original")
			}
		}
	}
	if h == "" {
		sym.Assert(u.GetHost() == "", "no host")
		h = "h"
		u.SetHostString(h)
	}
	sym.Assert(u.String() == text(), "encoding")
	sym.Assert(u.GetScheme() == scheme && u.IsSecure() == (scheme == "sips") && u.IsSipURI(), "scheme")
	sym.Assert(u.GetUser() == user && u.GetUserPassword() == pass && u.GetHost() == h && u.GetPort() == port, "user, host and port")
	val := func(n string) string { v, _ := find(ps, n); return v }
	sym.Assert(u.GetTransportParam() == val("transport") && u.GetMAddrParam() == val("maddr") && u.GetMethodParam() == val("method") &&
		u.GetMethod() == val("method") && u.GetUserParam() == val("user") && u.GetUserType() == val("user"), "typed parameters")
	_, lr := find(ps, "lr")
	sym.Assert(u.HasLrParam() == lr && (u.GetLrParam() == "true") == lr, "lr")
	_, tr := find(ps, "transport")
	sym.Assert(u.HasTransport() == tr, "transport present")
	ttl := -1
	if v, ok := find(ps, "ttl"); ok {
		ttl, _ = strconv.Atoi(v)
	}
	sym.Assert(u.GetTTLParam() == ttl, "time to live")
	sym.Assert(u.IsUserTelephoneSubscriber() == (val("user") == "phone"), "telephone subscriber")
	q := sym.StringIn(1, alnum)
	v, ok := find(ps, q)
	sym.Assert(u.HasParameter(q) == ok && u.GetParameter(q) == v, "parameter")
	hv, _ := find(hs, q)
	sym.Assert(u.GetHeader(q) == hv, "header")
	sym.Assert(u.GetParameterNames().Len() == len(ps), "number of parameters")
	// what was set reads back
	w, err := parser.NewURLParser(u.String()).Parse()
	sym.Assert(err == nil && w.String() == u.String() && w.IsSipURI() && w.GetScheme() == scheme, "the encoding reads back")
}

// H_A04_parts: a SIP URI given a host and port as one, a parameter and a header as pairs, in any order, a user before or
// after, then another host and port: it shows and is encoded with them, and a clone is its own.
func H_A04_parts() {
	u := address.NewSipURIImpl()
	c := sym.StringIn(1, alnum)
	v := sym.StringIn(1, alnum)
	flag := sym.Bool()
	hp := func(h string, p int) *core.HostPort {
		x := core.NewHostPort()
		x.SetHost(core.NewHost(h))
		if p > 0 {
			x.SetPort(p)
		}
		return x
	}
	port := sym.Pick("", "5", "5060")
	p, _ := strconv.Atoi(port)
	order := sym.Choice(6)
	for i := 0; i < 3; i++ {
		switch (order/2 + i*(1+order%2)) % 3 {
		case 0:
			u.SetHostPort(hp("h"+c, p))
		case 1:
			if flag {
				u.SetUriParameter(core.NewNameValue("x", nil))
			} else {
				u.SetUriParameter(core.NewNameValue("x", v))
			}
		case 2:
			u.SetQHeader(core.NewNameValue("s", v))
		}
	}
	user := ""
	if sym.Bool() {
		user = "u@"
		u.SetUser("u")
	}
	text := func(h string) string {
		s := "sip:" + user + h + ";x"
		if !flag {
			s += "=" + v
		}
		return s + "?s=" + v
	}
	h := "h" + c
	if port != "" {
		h += ":" + port
	}
	sym.Assert(u.String() == text(h), "encoding")
	sym.Assert(u.GetHost() == "h"+c && u.GetHostPort().String() == h, "host and port")
	sym.Assert((p == 0 && u.GetPort() == -1) || u.GetPort() == p && p > 0, "port")
	sym.Assert(u.HasParameter("X") && u.GetHeader("S") == v && (flag || u.GetParameter("x") == v), "parameter and header")
	w := u.Clone().(*address.SipURIImpl)
	g := "g" + c
	if sym.Bool() {
		u.SetHostPort(hp(g, 7))
		g += ":7"
		sym.Assert(u.GetPort() == 7, "the port set last")
	} else {
		u.SetHostPort(hp(g, 0))
		sym.Assert(u.GetPort() == -1, "no port when none was set last")
	}
	sym.Assert(u.String() == text(g), "the host and port set last")
	sym.Assert(w.String() == text(h), "a clone is its own")
}
