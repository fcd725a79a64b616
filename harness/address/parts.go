package address

import (
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"

	"verif/harness/sym"
)

const numeric = "0123456789"

type parm struct {
	n   string
	v   string
	has bool
}

type parms []parm

func (l parms) del(n string) parms {
	for i := range l {
		if strings.EqualFold(l[i].n, n) {
			return append(append(parms(nil), l[:i]...), l[i+1:]...)
		}
	}
	return l
}

func (l parms) has(n string) bool {
	for i := range l {
		if strings.EqualFold(l[i].n, n) {
			return true
		}
	}
	return false
}

func (l parms) get(n string) string {
	for i := range l {
		if strings.EqualFold(l[i].n, n) {
			return l[i].v
		}
	}
	return ""
}

// put sets the value where the name stands, or adds it at the end.
func (l parms) put(n, v string, has bool) parms {
	r := append(parms(nil), l...)
	for i := range r {
		if strings.EqualFold(r[i].n, n) {
			r[i] = parm{n, v, has}
			return r
		}
	}
	return append(r, parm{n, v, has})
}

func (l parms) text(first, sep string) string {
	s := ""
	for i, p := range l {
		if i == 0 {
			s += first
		} else {
			s += sep
		}
		s += p.n
		if p.has {
			s += "=" + p.v
		}
	}
	return s
}

// set drops the name and adds it at the end.
func (l parms) set(n, v string, has bool) parms {
	return append(l.del(n), parm{n, v, has})
}

// parmName is a name of 1 character (in either case) or a known one.
func parmName(known ...string) string {
	i := sym.Choice(len(known) + 1)
	if i == len(known) {
		return sym.StringIn(1, alnum)
	}
	return known[i]
}

// H_A06_uri: 2 (thorough 3) of the changes that A04 leaves out, on a URI without or with three parameters: the maddr set from an
// IPv4, IPv6 or named host, the typed parameters removed, a default parameter, whole lists set, the authority set or shared.
func H_A06_uri() {
	u := address.NewSipURIImpl()
	u.SetHostString("h")
	var ps, hs parms
	user, host := "", "h"
	if sym.Bool() {
		u = sipURI("sip:u@h;maddr=1.2.3.4;ttl=3;user=phone;method=A;x;y=z")
		ps = parms{{"maddr", "1.2.3.4", true}, {"ttl", "3", true}, {"user", "phone", true}, {"method", "A", true}, {"x", "", false}, {"y", "z", true}}
		user = "u"
	}
	for i := sym.Bound(2, 3); i > 0; i-- {
		switch sym.Choice(10) {
		case 0:
			c := sym.StringIn(1, alnum)
			in, out := c+".b", c+".b"
			switch sym.Choice(4) {
			case 1:
				in, out = "10.0.0."+c, "10.0.0."+c
			case 2:
				in, out = "::"+c, "[::"+c+"]"
			case 3:
				in, out = "[::"+c+"]", "[::"+c+"]"
			}
			u.SetMAddr(in)
			ps = ps.put("maddr", out, true)
		case 1:
			u.RemoveMAddr()
			ps = ps.del("maddr")
		case 2:
			u.RemoveTTL()
			ps = ps.del("ttl")
		case 3:
			u.RemoveUserType()
			ps = ps.del("user")
		case 4:
			u.RemoveMethod()
			ps = ps.del("method")
		case 5:
			n := parmName("X", "ttl", "lr")
			if sym.Bool() {
				u.SetDefaultParm(n, nil)
				if !ps.has(n) {
					ps = append(ps, parm{n, "", false})
				}
			} else {
				v := sym.StringIn(sym.Choice(2), alnum)
				u.SetDefaultParm(n, v)
				if !ps.has(n) {
					ps = append(ps, parm{n, v, true})
				}
			}
		case 6:
			l := core.NewNameValueList("p")
			v := sym.StringIn(1, alnum)
			l.AddNameAndValue("a", v)
			ps = parms{{"a", v, true}}
			if sym.Bool() {
				l.AddNameAndValue("ttl", "1")
				ps = append(ps, parm{"ttl", "1", true})
			}
			u.SetUriParms(l)
			sym.Assert(u.GetUriParms() == l, "the parameter list set")
		case 7:
			l := core.NewNameValueList("q")
			l.SetSeparator("&")
			v := sym.StringIn(1, alnum)
			l.AddNameAndValue("a", v)
			l.AddNameAndValue("b", "")
			hs = parms{{"a", v, true}, {"b", "", true}}
			u.SetQheaders(l)
			sym.Assert(u.GetQheaders() == l && u.GetHeaderNames() == l, "the header list set")
		case 8:
			a := address.NewAuthority()
			user, host = "", sym.StringIn(1, alnum)
			a.SetHost(core.NewHost(host))
			if sym.Bool() {
				user = sym.StringIn(1, alnum)
				a.SetUser(user)
			}
			u.SetAuthority(a)
			sym.Assert(u.GetAuthority() == a, "the authority set")
		case 9:
			t := address.NewTelephoneNumber()
			n, s := sym.StringIn(1, numeric), sym.StringIn(1, numeric)
			t.SetPhoneNumber(n)
			if sym.Bool() {
				u.SetTelephoneSubscriber(t)
				sym.Assert(u.GetTelephoneSubscriber() == t, "the telephone number set")
			} else {
				n = u.GetTelephoneSubscriber().GetPhoneNumber()
			}
			u.SetIsdnSubAddress(s)
			c := u.Clone().(*address.SipURIImpl)
			u.SetIsdnSubAddress("x")
			g := c.GetTelephoneSubscriber()
			sym.Assert(g.GetPhoneNumber() == n && g.GetIsdnSubaddress() == s, "the telephone number of a clone")
			sym.Assert(u.GetTelephoneSubscriber().GetIsdnSubaddress() == "x", "the sub-address set last")
		}
	}
	at := ""
	if user != "" {
		at = user + "@"
	}
	sym.Assert(u.String() == "sip:"+at+host+ps.text(";", ";")+hs.text("?", "&"), "encoding")
	sym.Assert(u.GetUserAtHost() == at+host && u.GetUserAtHostPort() == at+host, "user at host")
	sym.Assert(u.GetMAddrParam() == ps.get("maddr") && u.GetUserType() == ps.get("user") && u.GetMethodParam() == ps.get("method"), "typed parameters")
	sym.Assert(u.IsUserTelephoneSubscriber() == (ps.get("user") == "phone"), "telephone subscriber")
	ttl := -1
	if t := ps.get("ttl"); len(t) == 1 && t[0] >= '0' && t[0] <= '9' {
		ttl = int(t[0] - '0')
	}
	sym.Assert(u.GetTTLParam() == ttl, "time to live")
	n := parmName("maddr", "TTL", "x")
	sym.Assert(u.HasParameter(n) == ps.has(n) && u.GetParameter(n) == ps.get(n), "parameter")
	v := u.GetParm(n)
	t, isText := v.(string)
	sym.Assert(t == ps.get(n) && (isText || v == nil), "parameter object")
	c := u.Clone().(*address.SipURIImpl)
	sym.Assert(c.String() == u.String(), "a clone is equal")
}

// H_A06_authority: 3 (thorough 4) changes of an authority: user, password, host, port and user information, and clones.
func H_A06_authority() {
	a := address.NewAuthority()
	sym.Assert(a.String() == "" && a.GetHost() == nil && a.GetPort() == -1 && a.GetUser() == "" && a.GetPassword() == "", "an empty authority")
	info, user, pass, host, port := false, "", "", "h", -1
	a.SetHost(core.NewHost(host))
	text := func() string {
		s := host
		if port != -1 {
			s += ":" + itoa(port)
		}
		if !info {
			return s
		}
		if pass != "" {
			return user + ":" + pass + "@" + s
		}
		return user + "@" + s
	}
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(8) {
		case 0:
			info, user = true, sym.StringIn(1, alnum+"#;")
			a.SetUser(user)
		case 1:
			info, pass = true, sym.StringIn(sym.Choice(2), alnum)
			a.SetPassword(pass)
		case 2:
			host = sym.StringIn(1, alnum)
			a.SetHost(core.NewHost(host))
		case 3:
			port = sym.Choice(3) * 5060
			a.SetPort(port)
		case 4:
			a.RemovePort()
			port = -1
		case 5:
			a.RemoveUserInfo()
			info, user, pass = false, "", ""
		case 6:
			i := address.NewUserInfo()
			info, user, pass = true, sym.StringIn(1, alnum), ""
			i.SetUser(user)
			if sym.Bool() {
				pass = sym.StringIn(1, alnum)
				i.SetPassword(pass)
			}
			a.SetUserInfo(i)
			sym.Assert(a.GetUserInfo() == i, "user information set")
		case 7:
			c := a.Clone().(*address.Authority)
			was := text()
			x, y := a, c
			if sym.Bool() {
				x, y = c, a
			}
			y.SetUser("zz")
			y.SetPassword("zz")
			y.SetHost(core.NewHost("zz"))
			y.SetPort(9)
			sym.Assert(x.String() == was, "a clone is equal and independent")
			a = x
		}
	}
	sym.Assert(a.String() == text(), "encoding")
	sym.Assert(a.GetUser() == user && a.GetPassword() == pass && a.GetPort() == port && (a.GetUserInfo() != nil) == info, "getters")
	sym.Assert(a.GetHost().GetHostName() == host, "host")
}

func itoa(n int) string {
	s := ""
	for ; n > 9; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return string(rune('0'+n)) + s
}

// H_A06_user: user information: a user of 1..2 (3) visible characters, a password, its type, and a clone.
func H_A06_user() {
	n := 1 + sym.Choice(sym.Bound(2, 3))
	s := sym.String(n)
	tel := false
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] > ' ', s[i] < 127))
		tel = sym.Or(tel, sym.Or(s[i] == '#', s[i] == ';'))
	}
	u := address.NewUserInfo()
	p := sym.StringIn(sym.Choice(2), alnum)
	u.SetPassword(p)
	u.SetUser(s)
	sym.Assert(u.GetUser() == s && u.GetPassword() == p, "user and password")
	sym.Assert((u.GetUserType() == address.TELEPHONE_SUBSCRIBER) == tel, "a user with # or ; is a telephone subscriber")
	want := s
	if p != "" {
		want += ":" + p
	}
	sym.Assert(u.String() == want, "encoding")
	c := u.Clone().(*address.UserInfo)
	u.SetUser("x")
	u.ClearPassword()
	sym.Assert(u.String() == "x" && u.GetPassword() == "", "password cleared")
	sym.Assert(u.GetUserType() == address.USER, "a user without # and ; is none")
	u.SetUser(s)
	u.SetUser("")
	sym.Assert(u.GetUser() == "" && u.GetUserType() == address.USER, "an empty user is no telephone subscriber")
	sym.Assert(c.String() == want && (c.GetUserType() == address.TELEPHONE_SUBSCRIBER) == tel, "a clone is equal and independent")
	t := int(sym.I32())
	was := u.GetUserType()
	u.SetUserType(t)
	if t == address.USER || t == address.TELEPHONE_SUBSCRIBER {
		was = t
	}
	sym.Assert(u.GetUserType() == was, "only the two user types are set")
	sym.Assert(u.Clone().(*address.UserInfo).GetUserType() == was, "a clone keeps the user type set")
}

// H_A06_number: 3 (thorough 4) changes of a telephone number: number, global flag, sub-address, post-dial, parameters
// with and without value, removal, whole lists, and clones.
func H_A06_number() {
	t := address.NewTelephoneNumber()
	sym.Assert(t.String() == "" && !t.IsGlobal() && !t.HasPostDial() && !t.HasIsdnSubaddress(), "an empty number")
	num, global := "", false
	var ps parms
	text := func() string {
		s := num + ps.text(";", ";")
		if global {
			s = "+" + s
		}
		return s
	}
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(10) {
		case 0:
			num = sym.StringIn(1+sym.Choice(2), numeric+"*#-()")
			t.SetPhoneNumber(num)
		case 1:
			global = sym.Bool()
			t.SetGlobal(global)
		case 2:
			v := sym.StringIn(sym.Choice(2), numeric+"pw")
			t.SetPostDial(v)
			ps = ps.set("postdial", v, true)
		case 3:
			v := sym.StringIn(sym.Choice(2), numeric)
			t.SetIsdnSubaddress(v)
			ps = ps.set("isub", v, true)
		case 4:
			t.RemovePostDial()
			ps = ps.del("postdial")
		case 5:
			t.RemoveIsdnSubaddress()
			ps = ps.del("isub")
		case 6:
			n := parmName("isub")
			if sym.Bool() {
				t.SetParm(n, nil)
				ps = ps.set(n, "", false)
			} else {
				v := sym.StringIn(sym.Choice(2), alnum)
				t.SetParm(n, v)
				ps = ps.set(n, v, true)
			}
		case 7:
			n := parmName("ISUB", "postdial")
			if sym.Bool() {
				t.DeleteParm(n)
			} else {
				t.RemoveParameter(n)
			}
			ps = ps.del(n)
		case 8:
			l := core.NewNameValueList("p")
			v := sym.StringIn(1, alnum)
			l.AddNameAndValue("a", v)
			l.AddNameAndValue("isub", "1")
			t.SetParameters(l)
			ps = parms{{"a", v, true}, {"isub", "1", true}}
		case 9:
			c := t.Clone().(*address.TelephoneNumber)
			was := text()
			x, y := t, c
			if sym.Bool() {
				x, y = c, t
			}
			y.SetPhoneNumber("99")
			y.SetGlobal(!y.IsGlobal())
			y.SetIsdnSubaddress("99")
			y.SetParm("new", "99")
			y.SetParm("a", "99")
			sym.Assert(x.String() == was, "a clone is equal and independent")
			t = x
		}
	}
	sym.Assert(t.String() == text(), "encoding")
	sym.Assert(t.GetPhoneNumber() == num && t.IsGlobal() == global, "number and global flag")
	sym.Assert(t.HasIsdnSubaddress() == ps.has("isub") && t.GetIsdnSubaddress() == ps.get("isub"), "sub-address")
	sym.Assert(t.HasPostDial() == ps.has("postdial") && t.GetPostDial() == ps.get("postdial"), "post-dial")
	n := parmName("a")
	sym.Assert(t.HasParm(n) == ps.has(n) && t.GetParameter(n) == ps.get(n), "parameter")
	sym.Assert(t.GetParameterNames().Len() == len(ps), "number of parameters")
}
