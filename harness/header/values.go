package header

import (
	"container/list"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// again: the line of a header, without its line end, is read as a header that is encoded the same.
func again(h header.Header, want string) {
	sym.Assert(h.String() == want+"\r\n", "encoding")
	i := strings.Index(want, ": ")
	sym.Assert(h.GetHeaderName() == want[:i], "name")
	g, err := parse(h.String())
	sym.Assert(err == nil && g.String() == h.String(), "the encoding reads back")
}

// H_H12_tokens: headers of 9 kinds made from a token of 1..3 (4) characters, then changed once or not.
func H_H12_tokens() {
	t := token(sym.Bound(3, 4))
	u := token(2)
	twice := sym.Bool()
	w := t
	if twice {
		w = u
	}
	switch sym.Choice(9) {
	case 0:
		t, u = upper(t), upper(u)
		w = upper(w)
		h := header.NewAllowFromString(t)
		sym.Assert(h.GetMethod() == t, "method")
		if twice {
			sym.Assert(h.SetMethod(u) == nil, "a method is set")
		}
		sym.Assert(h.GetMethod() == w && h.GetValue() == w, "method")
		again(h, "Allow: "+w)
	case 1:
		h := header.NewAllowEventsFromString(t)
		sym.Assert(h.GetEventType() == t, "event type")
		if twice {
			sym.Assert(h.SetEventType(u) == nil, "an event type is set")
		}
		sym.Assert(h.GetEventType() == w && h.GetValue() == w, "event type")
		again(h, "Allow-Events: "+w)
	case 2:
		h := header.NewSupportedFromString(t)
		if twice {
			sym.Assert(h.SetOptionTag(u) == nil, "an option tag is set")
		}
		sym.Assert(h.GetOptionTag() == w && h.GetValue() == w, "option tag")
		again(h, "Supported: "+w)
	case 3:
		h := header.NewUnsupportedFromString(t)
		if twice {
			sym.Assert(h.SetOptionTag(u) == nil, "an option tag is set")
		}
		sym.Assert(h.GetOptionTag() == w && h.GetValue() == w, "option tag")
		again(h, "Unsupported: "+w)
	case 4:
		h := header.NewRequireFromString(t)
		if twice {
			sym.Assert(h.SetOptionTag(u) == nil, "an option tag is set")
		}
		sym.Assert(h.GetOptionTag() == w && h.GetValue() == w, "option tag")
		again(h, "Require: "+w)
	case 5:
		h := header.NewProxyRequireFromString(t)
		if twice {
			sym.Assert(h.SetOptionTag(u) == nil, "an option tag is set")
		}
		sym.Assert(h.GetOptionTag() == w && h.GetValue() == w, "option tag")
		again(h, "Proxy-Require: "+w)
	case 6:
		h := header.NewContentEncodingFromString(t)
		if twice {
			sym.Assert(h.SetEncoding(u) == nil, "an encoding is set")
		}
		sym.Assert(h.GetEncoding() == w && h.GetValue() == w, "encoding")
		again(h, "Content-Encoding: "+w)
	case 7:
		w = sym.StringIn(1+sym.Choice(2), alpha)
		h := header.NewContentLanguageFromString("x")
		switch sym.Choice(3) {
		case 0:
			h = header.NewContentLanguageFromString(w)
		case 1:
			h.SetLanguageTag(w)
		case 2:
			h.SetContentLanguage(w)
		}
		sym.Assert(h.GetLanguageTag() == w && h.GetContentLanguage() == w && h.GetValue() == w, "language")
		again(h, "Content-Language: "+w)
	case 8:
		i, err := header.NewCallIdentifier(t + "@" + u)
		sym.Assert(err == nil, "a call identifier")
		h := header.NewInReplyToFromCallIdentifier(i)
		sym.Assert(h.GetCallId() == t+"@"+u, "call identifier")
		again(h, "In-Reply-To: "+t+"@"+u)
	}
}

// H_H12_addresses: Route, Record-Route and Reply-To made from an address, Error-Info made from a URI, and the display
// name, host and port that From, To and Reply-To show of their address.
func H_H12_addresses() {
	a, b := named()
	port := -1
	if sym.Bool() {
		port = []int{0, 5060, 65535}[sym.Choice(3)]
		a.GetURI().(*address.SipURIImpl).SetPort(port)
		b = strings.Replace(b, "@h>", "@h:"+strconv.Itoa(port)+">", 1)
	}
	isHost := func(hp *core.HostPort) {
		sym.Assert(hp != nil && hp.GetHost().GetHostName() == "h" && hp.GetPort() == port, "host and port")
	}
	switch sym.Choice(6) {
	case 0:
		if a.GetAddressType() != address.NAME_ADDR {
			return
		}
		h := header.NewRouteFromAddress(a)
		sym.Assert(h.GetAddress() == address.Address(a), "address")
		again(h, "Route: "+b)
	case 1:
		h := header.NewRecordRouteFromAddress(a)
		sym.Assert(h.GetAddress() == address.Address(a), "address")
		again(h, "Record-Route: "+b)
	case 2:
		h := header.NewReplyToFromAddress(a)
		sym.Assert(h.GetAddress() == address.Address(a) && h.GetDisplayName() == a.GetDisplayName(), "address")
		isHost(h.GetHostPort())
		again(h, "Reply-To: "+b)
		sym.Assert(header.NewReplyTo().GetHostPort() == nil && header.NewReplyTo().GetDisplayName() == "", "no address")
	case 3:
		h := header.NewErrorInfo()
		u := a.GetURI()
		if sym.Bool() {
			h = header.NewErrorInfoFromURI(u)
		} else {
			h.SetErrorInfo(u)
		}
		sym.Assert(h.GetErrorInfo() == u && h.GetErrorMessage() == "", "URI")
		want := "Error-Info: <" + u.String() + ">"
		sym.Assert(h.SetErrorMessage("") != nil, "an empty message is refused")
		if sym.Bool() {
			m := token(2)
			sym.Assert(h.SetErrorMessage(m) == nil && h.GetErrorMessage() == m, "message")
			want += ";message=" + m
		}
		again(h, want)
	case 4:
		h := header.NewFrom()
		_, err := h.GetHostPort()
		sym.Assert(err != nil && h.GetDisplayName() == "" && h.GetUserAtHostPort() == "", "no address")
		h.SetAddress(a)
		hp, err := h.GetHostPort()
		sym.Assert(err == nil, "host and port")
		isHost(hp)
		sym.Assert(h.GetDisplayName() == a.GetDisplayName() && h.GetUserAtHostPort() == a.GetUserAtHostPort(), "display name and user")
	case 5:
		h := header.NewTo()
		_, err := h.GetHostPort()
		sym.Assert(err != nil && h.GetDisplayName() == "" && h.GetUserAtHostPort() == "", "no address")
		h.SetAddress(a)
		hp, err := h.GetHostPort()
		sym.Assert(err == nil, "host and port")
		isHost(hp)
		sym.Assert(h.GetDisplayName() == a.GetDisplayName() && h.GetUserAtHostPort() == a.GetUserAtHostPort(), "display name and user")
	}
}

// H_H12_first: CSeq, request lines, Content-Type and Content-Length made from values.
func H_H12_first() {
	m := upper(token(2))
	n := int(sym.I32())
	sym.Assume(n >= 0)
	switch sym.Choice(4) {
	case 0:
		n = []int{0, 1, 10, 2147483646}[sym.Choice(4)]
		h := header.NewCSeq(n, m)
		sym.Assert(h.GetSequenceNumber() == n && h.GetMethod() == m, "number and method")
		again(h, "CSeq: "+strconv.Itoa(n)+" "+m)
	case 1:
		u := sipURI()
		r := header.NewRequestLineFromString(u, m)
		sym.Assert(r.GetMethod() == m && r.GetUri() == address.URI(u) && r.GetSipVersion() == "SIP/2.0", "method, URI and version")
		sym.Assert(r.String() == m+" sip:a@b SIP/2.0\r\n", "encoding")
	case 2:
		s := token(2)
		h := header.NewContentTypeFromString(m, s)
		sym.Assert(h.GetContentType() == m && h.GetContentSubType() == s && h.GetMediaType() == m && h.GetMediaSubType() == s, "type")
		again(h, "Content-Type: "+m+"/"+s)
	case 3:
		h := header.NewContentLengthFromInt(n)
		sym.Assert(h.GetContentLength() == n, "length")
		g := header.NewContentLength()
		g.SetContentLength(n)
		sym.Assert(h.String() == g.String() && h.Match(g) && !h.Match(header.NewExpires()), "encoding")
	}
}

// H_H13_protocol: 3 (thorough 4) changes of a Via's protocol name, version and transport, of its host, port and both at once,
// also through its protocol object, and clones.
func H_H13_protocol() {
	v := header.NewVia()
	v.SetHostFromString("h")
	name, version, transport, host, port := "SIP", "2.0", "UDP", "h", -1
	text := func() string {
		s := "Via: " + upper(name) + "/" + version + "/" + upper(transport) + " " + host
		if port != -1 {
			s += ":" + strconv.Itoa(port)
		}
		return s + "\r\n"
	}
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(9) {
		case 0:
			name = sym.StringIn(1+sym.Choice(2), alnum)
			sym.Assert(v.SetProtocol(name) == nil, "a protocol is set")
		case 1:
			version = sym.StringIn(1, "0123456789") + sym.Pick("", ".0")
			v.SetProtocolVersion(version)
		case 2:
			transport = sym.StringIn(1+sym.Choice(2), alnum)
			sym.Assert(v.SetTransport(transport) == nil, "a transport is set")
		case 3:
			host = sym.StringIn(1, alnum)
			v.SetHost(core.NewHost(host))
		case 4:
			hp := core.NewHostPort()
			host, port = sym.StringIn(1, alnum), -1
			hp.SetHost(core.NewHost(host))
			if sym.Bool() {
				port = 5060
				hp.SetPort(port)
			}
			v.SetSentBy(hp)
			sym.Assert(v.GetSentBy() == hp, "sent by")
		case 5:
			p := header.NewProtocol()
			name, version, transport = "SIP", "2.0", "UDP"
			if sym.Bool() {
				transport = sym.StringIn(1, alnum)
				p.SetTransport(transport)
			}
			v.SetSentProtocol(p)
			sym.Assert(v.GetSentProtocol() == p, "protocol object")
		case 6:
			p := v.GetSentProtocol()
			name, version = sym.StringIn(1, alnum), "3"
			p.SetProtocolName(name)
			p.SetProtocolVersion(version)
			sym.Assert(p.String() == upper(name)+"/"+version+"/"+upper(transport), "text of a protocol")
		case 7:
			sym.Assert(v.SetProtocol("") != nil && v.SetTransport("") != nil, "empty protocols are refused")
			if sym.Bool() {
				port = 1
				v.SetPort(port)
			}
		case 8:
			c := v.Clone().(*header.Via)
			was := text()
			x, y := v, c
			if sym.Bool() {
				x, y = c, v
			}
			y.SetProtocol("zz")
			y.SetProtocolVersion("9")
			y.SetTransport("zz")
			y.SetHost(core.NewHost("zz"))
			y.SetPort(9)
			sym.Assert(x.String() == was, "a clone is equal and independent")
			v = x
		}
	}
	sym.Assert(v.String() == text(), "encoding")
	sym.Assert(v.GetProtocol() == name && v.GetProtocolVersion() == version && v.GetTransport() == transport, "protocol")
	p := v.GetSentProtocol()
	sym.Assert(p.GetProtocolName() == name && p.GetProtocolVersion() == version && p.GetTransport() == transport, "protocol object")
	sym.Assert(v.GetHost() == host && v.GetPort() == port && v.HasPort() == (port != -1), "host and port")
	sym.Assert(v.GetSentBy().GetHost().GetHostName() == host && v.GetSentBy().GetPort() == port, "sent by")
}

// H_H12_media: media ranges of Accept and Content-Type, set whole or by part, and changed through the range object or set anew, whole or by part in either order.
func H_H12_media() {
	t, s := sym.StringIn(1, alnum+"*"), sym.StringIn(1, alnum+"*")
	m := header.NewMediaRange()
	m.SetType(t)
	m.SetSubtype(s)
	sym.Assert(m.GetType() == t && m.GetSubtype() == s && m.String() == t+"/"+s, "media range")
	a, c := header.NewAccept(), header.NewContentType()
	sym.Assert(a.GetMediaRange() == nil && c.GetMediaRange() == nil && a.GetContentType() == "" && a.GetContentSubType() == "", "no media range")
	if sym.Bool() {
		a.SetMediaRange(m)
		c.SetMediaRange(m)
		sym.Assert(a.GetMediaRange() == m && c.GetMediaRange() == m, "media range")
	} else {
		a.SetContentType(t)
		a.SetContentSubType(s)
		c.SetContentTypeSubType(t, s)
	}
	switch sym.Choice(4) {
	case 0:
		s = sym.StringIn(1, alnum)
		a.GetMediaRange().SetSubtype(s)
		c.GetMediaRange().SetSubtype(s)
	case 1:
		t, s = sym.StringIn(1, alnum), sym.StringIn(1, alnum)
		a.SetContentType(t)
		a.SetContentSubType(s)
		c.SetContentTypeSubType(t, s)
	case 2:
		t, s = sym.StringIn(1, alnum), sym.StringIn(1, alnum)
		a.SetContentSubType(s)
		a.SetContentType(t)
		c.SetContentSubType(s)
		c.SetContentType(t)
	}
	sym.Assert(a.GetContentType() == t && a.GetContentSubType() == s && c.GetContentType() == t && c.GetContentSubType() == s, "type")
	sym.Assert(a.AllowsAllContentTypes() == (t == "*") && a.AllowsAllContentSubTypes() == (s == "*"), "wild cards")
	set := token(1)
	c.SetParameter("charset", set)
	sym.Assert(c.GetCharSet() == set, "character set")
	again(a, "Accept: "+t+"/"+s)
	again(c, "Content-Type: "+t+"/"+s+";charset="+set)
}

// H_H13_challenge: 3 (thorough 4) changes of a challenge: scheme, parameters set, removed, replaced as a whole.
func H_H13_challenge() {
	c := header.NewChallenge()
	sym.Assert(!c.HasParameters() && c.GetScheme() == "", "an empty challenge")
	names := []string{"realm", "domain", "uri", "opaque", "qop", "algorithm", "stale", "signature", "signed-by", "response"}
	get := []func() string{c.GetRealm, c.GetDomain, c.GetURI, c.GetOpaque, c.GetQOP, c.GetAlgorithm, c.GetStale, c.GetSignature, c.GetSignedBy, c.GetResponse}
	scheme := "Digest"
	c.SetScheme(scheme)
	var ps []nv
	del := func(n string) bool {
		for i := range ps {
			if upper(ps[i].name) == upper(n) {
				ps = append(append([]nv(nil), ps[:i]...), ps[i+1:]...)
				return true
			}
		}
		return false
	}
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(6) {
		case 0:
			scheme = token(1)
			c.SetScheme(scheme)
		case 1:
			x := nv{names[sym.Choice(10)], token(1), sym.Bool()}
			p := core.NewNameValue(x.name, x.value)
			if x.quoted {
				p.SetQuotedValue()
			}
			c.SetParameter(p)
			del(x.name)
			ps = append(ps, x)
		case 2:
			n := sym.Pick("realm", "REALM", "opaque", "x")
			sym.Assert(c.RemoveParameter(n) == del(n), "only a parameter that is there is removed")
		case 3:
			c.RemoveParameters()
			ps = nil
		case 4:
			l := core.NewNameValueList("a")
			l.SetSeparator(",")
			v := token(1)
			l.AddNameAndValue("realm", v)
			l.AddNameAndValue("x", "y")
			c.SetAuthParams(l)
			sym.Assert(c.GetAuthParams() == l, "parameters")
			ps = []nv{{"realm", v, false}, {"x", "y", false}}
		case 5:
			x := nv{sym.Pick("Realm", "QOP", "x"), token(1), false}
			c.SetParameter(core.NewNameValue(x.name, x.value))
			del(x.name)
			ps = append(ps, x)
		}
	}
	want := scheme + " "
	for i, x := range ps {
		if i > 0 {
			want += ","
		}
		if x.quoted {
			want += x.name + "=\"" + x.value + "\""
		} else {
			want += x.name + "=" + x.value
		}
	}
	sym.Assert(c.String() == want && c.GetScheme() == scheme, "encoding")
	value := func(n string) string {
		for _, x := range ps {
			if upper(x.name) == upper(n) {
				return x.value
			}
		}
		return ""
	}
	for i, n := range names {
		sym.Assert(get[i]() == value(n), "getters")
	}
	sym.Assert(c.GetParameter("x") == value("x") && c.HasParameter("X") == (value("x") != "") && c.HasParameters() == (len(ps) > 0), "parameters")
}

// H_H13_info: an Authentication-Info with 1..3 parameters added or set, one of them set once more, found by name in
// either case.
func H_H13_info() {
	h := header.NewAuthenticationInfo()
	names := []string{"nextnonce", "qop", "rspauth", "cnonce", "x"}
	var parts []string
	first, again := sym.Choice(5), sym.Choice(3)
	for i := 0; i < 3; i++ {
		n := names[(first+i)%5]
		v := token(1)
		want, quotes := n+"=", false
		if sym.Bool() {
			p := core.NewNameValue(n, v)
			if sym.Bool() {
				p.SetQuotedValue()
				quotes = true
			}
			h.Add(p)
			sym.Assert(h.GetAuthInfo(n) == p && h.GetAuthInfo(strings.ToUpper(n)) == p, "parameter object")
		} else {
			sym.Assert(h.SetParameter(n, v) == nil, "a parameter is set")
			quotes = n != "x"
		}
		if i > 0 && again == i-1 { // once more, after others
			v = token(1)
			sym.Assert(h.SetParameter(n, v) == nil, "a parameter is set")
		}
		if i == 2 && again == 2 {
			w := token(1)
			sym.Assert(h.SetParameter(names[first], w) == nil, "a parameter is set")
			q := ""
			if strings.HasSuffix(parts[0], "\"") {
				q = "\""
			}
			parts[0] = names[first] + "=" + q + w + q
		}
		if quotes {
			want += "\"" + v + "\""
		} else {
			want += v
		}
		parts = append(parts, want)
		g := ""
		switch n {
		case "nextnonce":
			g = h.GetNextNonce()
		case "qop":
			g = h.GetQop()
		case "rspauth":
			g = h.GetResponse()
		case "cnonce":
			g = h.GetCNonce()
		case "x":
			g = h.GetParameter("X")
		}
		sym.Assert(g == v && h.GetAuthInfo(n).GetValue() == v, "value")
	}
	want := "Authentication-Info: " + strings.Join(parts, ",")
	sym.Assert(h.String() == want+"\r\n" && h.GetAuthenticationInfo() == want[len("Authentication-Info: "):], "encoding")
	sym.Assert(h.GetAuthInfo("nothing") == nil, "a parameter that is not there")
}

// H_H13_retry: 3 (thorough 4) changes of a Retry-After: number, comment, duration and parameters, set, removed and refused.
func H_H13_retry() {
	h := header.NewRetryAfter()
	n, d, comment := 0, -1, ""
	first := ""
	x := false
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(7) {
		case 0:
			v := int(sym.I32())
			if sym.Bool() {
				v = sym.Choice(3) * 90
			} else {
				sym.Assume(v < 0)
			}
			sym.Assert((h.SetRetryAfter(v) == nil) == (v >= 0), "a number below 0 is refused")
			if v >= 0 {
				n = v
			}
		case 1:
			c := sym.StringIn(sym.Choice(3), alnum+" ")
			sym.Assert((h.SetComment(c) == nil) == (c != ""), "an empty comment is refused")
			if c != "" {
				comment = c
			}
		case 2:
			h.RemoveComment()
			comment = ""
		case 3:
			v := sym.Choice(4) - 1
			sym.Assert((h.SetDuration(v) == nil) == (v >= 0), "a duration below 0 is refused")
			if v >= 0 {
				d = v
				if first == "" {
					first = "d"
				}
			}
		case 4:
			h.RemoveDuration()
			d = -1
			if first = ""; x {
				first = "x"
			}
		case 5:
			h.SetParameter("x", "y")
			if x = true; first == "" {
				first = "x"
			}
		case 6:
			h.RemoveParameter("x")
			if x, first = false, ""; d >= 0 {
				first = "d"
			}
		}
	}
	want := "Retry-After: " + strconv.Itoa(n)
	if comment != "" {
		want += " (" + comment + ")"
	}
	ds, xs := "", ""
	if d >= 0 {
		ds = ";duration=" + strconv.Itoa(d)
	}
	if x {
		xs = ";x=y"
	}
	if first == "x" {
		want += xs + ds
	} else {
		want += ds + xs
	}
	sym.Assert(h.GetRetryAfter() == n && h.GetComment() == comment && h.HasComment() == (comment != ""), "number and comment")
	if d < 0 {
		d = 0
	}
	sym.Assert(h.GetDuration() == d, "duration")
	sym.Assert(h.String() == want+"\r\n", "encoding")
}

// H_H13_products: Server and User-Agent with 0..3 products added, or set as a list and more added, and clones.
func H_H13_products() {
	type products interface {
		header.Header
		AddProductToken(string)
		GetProduct() *list.List
		SetProduct(*list.List) error
		EncodeProduct() string
	}
	var h products = header.NewServer()
	want := "Server: "
	if sym.Bool() {
		h = header.NewUserAgent()
		want = "User-Agent: "
	}
	sym.Assert(h.GetProduct() == nil, "no product")
	sym.Assert(h.SetProduct(nil) != nil, "no list is refused")
	var ps []string
	add := func(k int) {
		for ; k > 0; k-- {
			p := token(1)
			h.AddProductToken(p)
			ps = append(ps, p)
		}
	}
	add(sym.Choice(3))
	if sym.Bool() {
		l := list.New()
		ps = nil
		for k := sym.Choice(3); k > 0; k-- {
			p := token(2)
			l.PushBack(p)
			ps = append(ps, p)
		}
		sym.Assert(h.SetProduct(l) == nil, "a list is set")
		add(sym.Choice(2))
	}
	if sym.Bool() {
		c := h.Clone().(products)
		if sym.Bool() {
			h, c = c, h
		}
		c.AddProductToken("zz")
	}
	body := strings.Join(ps, "/")
	sym.Assert(h.EncodeProduct() == body && h.GetValue() == body && h.String() == want+body+"\r\n", "encoding")
	l := h.GetProduct()
	if len(ps) == 0 {
		sym.Assert(l == nil, "no product")
		return
	}
	sym.Assert(l.Len() == len(ps), "number of products")
	i := 0
	for e := l.Front(); e != nil; e = e.Next() {
		sym.Assert(e.Value == ps[i], "products in order")
		i++
	}
}

// H_H12_parameters: the whole parameter list of headers of 18 kinds set at once, its names, its pairs, and what is changed
// through a pair.
func H_H12_parameters() {
	k := sym.Choice(withParameters)
	h, text := withParams(k)
	l := core.NewNameValueList("p")
	var ps []nv
	for k := sym.Bound(2, 3); k > 0; k-- {
		if sym.Bool() {
			continue
		}
		x := nv{string(rune('w' + k)), token(1), sym.Bool()}
		p := core.NewNameValue(x.name, x.value)
		if x.quoted {
			p.SetQuotedValue()
		}
		l.AddNameValue(p)
		ps = append(ps, x)
	}
	type whole interface {
		SetParameters(*core.NameValueList)
		GetNameValue(string) *core.NameValue
		GetParameterNames() *list.List
		GetParameterValue(string) string
	}
	w := h.(whole)
	w.SetParameters(l)
	sym.Assert(h.GetParameters() == l && h.HasParameters() == (len(ps) > 0), "parameter list")
	names := w.GetParameterNames()
	sym.Assert(names.Len() == len(ps), "number of names")
	i := 0
	for e := names.Front(); e != nil; e = e.Next() {
		sym.Assert(e.Value == ps[i].name, "names in order")
		i++
	}
	if len(ps) > 0 && sym.Bool() {
		p := w.GetNameValue(upper(ps[0].name))
		sym.Assert(p != nil && p.GetValue() == ps[0].value && p.IsValueQuoted() == ps[0].quoted, "pair")
		ps[0].value = token(1)
		p.SetValue(ps[0].value)
	}
	for i, x := range ps {
		text += ";" + x.name + "="
		if x.quoted {
			text += "\"" + x.value + "\""
		} else {
			text += x.value
		}
		sym.Assert(w.GetParameterValue(x.name) == ps[i].value && h.GetParameter(x.name) == x.value, "value")
	}
	sym.Assert(w.GetNameValue("nothing") == nil && w.GetParameterValue("nothing") == "", "a parameter that is not there")
	if k == 9 || k == 10 {
		sym.Assert(h.String() == text+"\r\n", "encoding")
		return
	}
	again(h, text)
}
