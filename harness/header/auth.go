package header

import (
	"strings"

	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

const quotable = alnum + " -.!%*_+`'~,;:=<>@/()[]?&$#^{}|"

// H_H06_history: 2 operations out of 16 (after one out of 5) on each of the 4 authentication headers: parameters set, set again, removed,
// refused, scheme and clones, on an empty header or after removing all, values of 1..2 characters without quotes.
func H_H06_history() {
	var h interface {
		header.AuthorizationHeader
		header.WWWAuthenticateHeader
	}
	name := ""
	switch sym.Choice(4) {
	case 0:
		h, name = header.NewAuthorization(), "Authorization"
	case 1:
		h, name = header.NewProxyAuthorization(), "Proxy-Authorization"
	case 2:
		h, name = header.NewWWWAuthenticate(), "WWW-Authenticate"
	case 3:
		h, name = header.NewProxyAuthenticate(), "Proxy-Authenticate"
	}
	scheme := "Digest"
	var ps []nv
	set := func(n, v string, q bool) {
		for i := range ps {
			if ps[i].name == n {
				ps[i].value = v
				return
			}
		}
		ps = append(ps, nv{n, v, q})
	}
	quoted := []struct {
		name string
		set  func(string) error
		get  func() string
	}{
		{"realm", h.SetRealm, h.GetRealm},
		{"nonce", h.SetNonce, h.GetNonce},
		{"opaque", h.SetOpaque, h.GetOpaque},
		{"domain", h.SetDomain, h.GetDomain},
		{"algorithm", h.SetAlgorithm, h.GetAlgorithm},
		{"qop", h.SetQop, h.GetQop},
		{"username", h.SetUsername, h.GetUsername},
		{"cnonce", h.SetCNonce, h.GetCNonce},
		{"response", h.SetResponse, h.GetResponse},
	}
	if sym.Bool() {
		h.SetRealm("r")
		h.SetQop("q")
		h.RemoveParameters()
	}
	for n := sym.Bound(2, 3); n > 0; n-- {
		c := 0
		if n == 3 {
			c = []int{0, 9, 10, 13, 15}[sym.Choice(5)]
		} else {
			c = sym.Choice(16)
		}
		switch c {
		case 9:
			v := sym.StringIn(1, alnum)
			u := sipURI()
			u.SetUser(v)
			h.SetURI(u)
			var r []nv
			for _, p := range ps {
				if p.name != "uri" {
					r = append(r, p)
				}
			}
			ps = append(r, nv{"uri", "sip:" + v + "@b", true})
		case 10:
			v := sym.Range(0, 15)
			sym.Assert(h.SetNonceCount(v) == nil, "a nonce count is set")
			set("nc", "0000000"+string([]byte{"0123456789abcdef"[v]}), false)
		case 11:
			s := sym.Bool()
			h.SetStale(s)
			v := "false"
			if s {
				v = "true"
			}
			set("stale", v, false)
		case 12:
			scheme = token(1)
			h.SetScheme(scheme)
		case 13:
			if len(ps) > 0 {
				i := sym.Choice(len(ps))
				h.RemoveParameter(ps[i].name)
				ps = append(ps[:i:i], ps[i+1:]...)
			}
		case 15:
			h.RemoveParameters()
			ps = nil
		case 14:
			q := quoted[sym.Choice(len(quoted))]
			old := q.get()
			sym.Assert(q.set("\"x") != nil, "a value that begins with a quote is refused")
			sym.Assert(q.get() == old, "a refused value leaves the old one")
		default:
			v := sym.StringIn(1+sym.Choice(2), quotable)
			sym.Assert(quoted[c].set(v) == nil, "a parameter is set")
			set(quoted[c].name, v, true)
		}
	}
	if sym.Bool() {
		c := h.Clone()
		h.SetRealm("zzz")
		h.SetNonce("zzz")
		h = c.(interface {
			header.AuthorizationHeader
			header.WWWAuthenticateHeader
		})
		quoted[0].get, quoted[1].get = h.GetRealm, h.GetNonce
		quoted[2].get, quoted[3].get, quoted[4].get, quoted[5].get = h.GetOpaque, h.GetDomain, h.GetAlgorithm, h.GetQop
		quoted[6].get, quoted[7].get, quoted[8].get = h.GetUsername, h.GetCNonce, h.GetResponse
	}
	find := func(n string) string {
		for _, p := range ps {
			if p.name == n {
				return p.value
			}
		}
		return ""
	}
	for _, q := range quoted {
		sym.Assert(q.get() == find(q.name), "a parameter is what was set last")
	}
	sym.Assert(h.GetScheme() == scheme && h.IsStale() == (find("stale") == "true"), "scheme and stale are what was set last")
	if u := find("uri"); u != "" {
		sym.Assert(h.GetURI().String() == u, "a URI is what was set last")
	}
	nc := 0
	if s := find("nc"); s != "" {
		nc = strings.IndexByte("0123456789abcdef", s[7])
	}
	sym.Assert(h.GetNonceCount() == nc, "a nonce count is what was set last")
	text := name + ": " + scheme + " "
	for i, p := range ps {
		if i > 0 {
			text += ","
		}
		if p.quoted {
			text += p.name + "=\"" + p.value + "\""
		} else {
			text += p.name + "=" + p.value
		}
	}
	sym.Assert(h.String() == text+"\r\n", "parameters are encoded in order, with the quotes they need")
	if len(ps) > 0 {
		p, err := parse(text)
		sym.Assert(err == nil && p.String() == text+"\r\n", "what was set reads back")
	}
}

// H_H06_info: Authentication-Info with 2 (3) operations on its parameters.
func H_H06_info() {
	h := header.NewAuthenticationInfo()
	var ps []nv
	set := func(n, v string, q bool) {
		for i := range ps {
			if ps[i].name == n {
				ps[i].value = v
				return
			}
		}
		ps = append(ps, nv{n, v, q})
	}
	for n := sym.Bound(3, 4); n > 0; n-- {
		v := token(2)
		switch sym.Choice(9) {
		case 0:
			sym.Assert(h.SetNextNonce(v) == nil, "a parameter is set")
			set("nextnonce", v, true)
		case 1:
			sym.Assert(h.SetQop(v) == nil, "a parameter is set")
			set("qop", v, true)
		case 2:
			sym.Assert(h.SetCNonce(v) == nil, "a parameter is set")
			set("cnonce", v, true)
		case 3:
			sym.Assert(h.SetResponse(v) == nil, "a parameter is set")
			set("rspauth", v, true)
		case 4:
			sym.Assert(h.SetNonceCount(26) == nil, "a parameter is set")
			set("nc", "0000001a", false)
		case 5:
			sym.Assert(h.SetNonceCount(-1) != nil && h.SetNextNonce("\"") != nil, "a bad value is refused")
		case 6:
			h = h.Clone().(*header.AuthenticationInfo)
		case 7:
			h.RemoveParameters()
			ps = nil
		case 8:
			if len(ps) > 0 {
				h.RemoveParameter(ps[0].name)
				ps = ps[1:]
			}
		}
	}
	find := func(n string) string {
		for _, p := range ps {
			if p.name == n {
				return p.value
			}
		}
		return ""
	}
	sym.Assert(h.GetNextNonce() == find("nextnonce") && h.GetQop() == find("qop") && h.GetCNonce() == find("cnonce") && h.GetResponse() == find("rspauth"), "a parameter is what was set last")
	sym.Assert((h.GetNonceCount() == 26) == (find("nc") != ""), "a nonce count is what was set last")
	text := "Authentication-Info: "
	for i, p := range ps {
		if i > 0 {
			text += ","
		}
		if p.quoted {
			text += p.name + "=\"" + p.value + "\""
		} else {
			text += p.name + "=" + p.value
		}
	}
	sym.Assert(h.String() == text+"\r\n", "parameters are encoded in order, with the quotes they need")
}
