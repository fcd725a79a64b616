package message

import (
	"container/list"
	"strconv"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

var codes = []int{100, 180, 181, 182, 183, 200, 202, 300, 301, 302, 305, 380, 400, 401, 402, 403, 404, 405, 406, 407, 408, 410, 413,
	414, 415, 416, 420, 421, 423, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 491, 493, 500, 501, 502, 503, 504, 505, 513,
	600, 603, 604, 606}

var constants = []int{message.TRYING, message.RINGING, message.CALL_IS_BEING_FORWARDED, message.QUEUED, message.SESSION_PROGRESS,
	message.OK, message.ACCEPTED, message.MULTIPLE_CHOICES, message.MOVED_PERMANENTLY, message.MOVED_TEMPORARILY,
	message.USE_PROXY, message.ALTERNATIVE_SERVICE, message.BAD_REQUEST, message.UNAUTHORIZED, message.PAYMENT_REQUIRED,
	message.FORBIDDEN, message.NOT_FOUND, message.METHOD_NOT_ALLOWED, message.NOT_ACCEPTABLE,
	message.PROXY_AUTHENTICATION_REQUIRED, message.REQUEST_TIMEOUT, message.GONE, message.REQUEST_ENTITY_TOO_LARGE,
	message.REQUEST_URI_TOO_LONG, message.UNSUPPORTED_MEDIA_TYPE, message.UNSUPPORTED_URI_SCHEME, message.BAD_EXTENSION,
	message.EXTENSION_REQUIRED, message.INTERVAL_TOO_BRIEF, message.TEMPORARILY_UNAVAILABLE,
	message.CALL_OR_TRANSACTION_DOES_NOT_EXIST, message.LOOP_DETECTED, message.TOO_MANY_HOPS, message.ADDRESS_INCOMPLETE,
	message.AMBIGUOUS, message.BUSY_HERE, message.REQUEST_TERMINATED, message.NOT_ACCEPTABLE_HERE, message.BAD_EVENT,
	message.REQUEST_PENDING, message.UNDECIPHERABLE, message.SERVER_INTERNAL_ERROR, message.NOT_IMPLEMENTED, message.BAD_GATEWAY,
	message.SERVICE_UNAVAILABLE, message.SERVER_TIMEOUT, message.VERSION_NOT_SUPPORTED, message.MESSAGE_TOO_LARGE,
	message.BUSY_EVERYWHERE, message.DECLINE, message.DOES_NOT_EXIST_ANYWHERE, message.SESSION_NOT_ACCEPTABLE}

// H_M06_reason: any two 64-bit codes.
func H_M06_reason() {
	r := message.NewSIPResponse()
	a, b := sym.Int(), sym.Int()
	named := false
	for _, c := range codes {
		named = sym.Or(named, a == c)
	}
	p := r.GetReasonPhraseFromInt(a)
	sym.Assert((p != "") == named, "the named codes and no others have a reason")
	sym.Assert(sym.Or(p == "", sym.Or(a == b, p != r.GetReasonPhraseFromInt(b))), "reasons tell codes apart")
	k := sym.Choice(len(codes))
	sym.Assert(constants[k] == codes[k], "the named codes are those of SIP")
}

// H_M06_final: any 64-bit code set on a response that has code 180 or none, and any reason of 0..2 characters.
func H_M06_final() {
	r := message.NewSIPResponse()
	old := 0
	sym.Assert(r.GetStatusCode() == 0 && r.GetReasonPhrase() == "" && r.GetFirstLine() == "" && r.GetSIPVersion() == "" && !r.IsFinalResponse(), "a response without status line has no code and reason")
	if sym.Bool() {
		old = 180
		sym.Assert(r.SetStatusCode(old) == nil, "a code is set")
	}
	n := sym.Int()
	ok := sym.And(n >= 100, n <= 800)
	err := r.SetStatusCode(n)
	sym.Assert((err == nil) == ok, "a code is refused iff it is no status code")
	want := n
	if err != nil {
		want = old
	}
	sym.Assert(r.GetStatusCode() == want, "a refused code leaves the old one")
	sym.Assert((r.GetStatusLine() == nil) == (want == 0) && (r.GetFirstLine() == "") == (want == 0), "a refused code makes no status line")
	sym.Assert(r.IsFinalResponse() == sym.And(want >= 200, want < 700), "a response is final iff its code is 200..699")
	sym.Assert(r.IsFinalResponseFromInt(n) == sym.And(n >= 200, n < 700), "a code is final iff it is 200..699")
	s := sym.StringIn(sym.Choice(3), tokenChars)
	sym.Assert(r.SetReasonPhrase(s) == nil && r.GetReasonPhrase() == s, "a reason is the one set last")
	sym.Assert(r.GetStatusCode() == want, "a reason leaves the code")
	sym.Assert(r.GetStatusLine().GetReasonPhrase() == s && r.GetStatusLine().GetStatusCode() == want, "the status line has code and reason")
}

func method() string {
	return sym.StringIn([]int{1, 2, 3, 6}[sym.Choice(4)], upper+"abcdefghijklmnopqrstuvwxyz-1")
}

// H_M07_check: requests and responses with each of the needed headers present or not, with or without request line or
// status line of any code 100..699, and methods of CSeq and request line of any 1, 2, 3 or 6 letters or none.
func H_M07_check() {
	has := func() bool { return sym.Bool() }
	var hs []header.Header
	cseq, t, f, v, mf := has(), has(), has(), has(), has()
	m := method()
	if v {
		h, _ := via("a", "")
		hs = append(hs, h)
	}
	if f {
		h, _ := from("a", "t")
		hs = append(hs, h)
	}
	if t {
		h, _ := to("a", "")
		hs = append(hs, h)
	}
	if cseq {
		if len(m) == 1 && sym.Bool() {
			m = ""
		}
		hs = append(hs, header.NewCSeq(1, m))
	}
	if mf {
		hs = append(hs, header.NewMaxForwards())
	}
	if sym.Bool() {
		r := message.NewSIPResponse()
		if sym.Bool() {
			r.SetStatusCode(sym.Range(100, 699))
			r.SetReasonPhrase("x")
		}
		for _, h := range hs {
			r.AttachHeader(h)
		}
		sym.Assert((r.CheckHeaders() == nil) == (cseq && t && f && v), "a response needs CSeq, To, From and Via")
		return
	}
	r := message.NewSIPRequest()
	own := ""
	if sym.Bool() {
		own = method()
		sym.Assert(r.SetMethod(own) == nil, "a method is set")
	}
	for _, h := range hs {
		r.AttachHeader(h)
	}
	same := own == "" || m == "" || len(own) == len(m)
	if own != "" && m != "" && same {
		same = lower(own) == lower(m)
	}
	sym.Assert((r.CheckHeaders() == nil) == sym.And(cseq && t && f && v && mf, same), "a request needs CSeq, To, From, Via, Max-Forwards and the method of its CSeq")
}

// H_M08_line: 3 (4) operations out of 8 on a request: its method, URI, version, CSeq and request line, with any method of
// 1, 2, 3 or 6 letters, user and version digit.
func H_M08_line() {
	r := message.NewSIPRequest()
	line, method, user, version, cseq := false, "", "", "SIP/2.0", ""
	sym.Assert(r.GetMethod() == "" && r.GetRequestURI() == nil && r.GetFirstLine() == "" && r.GetSIPVersion() == "" && r.GetRequestLine() == nil, "a request without request line has no method and URI")
	size := []int{2, 3, 6}[sym.Choice(3)]
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(8) {
		case 0:
			method = sym.StringIn(size, upper)
			sym.Assert(r.SetMethod(method) == nil, "a method is set")
			line = true
			if cseq != "" {
				cseq = method
			}
		case 1:
			sym.Assert(r.SetMethod("") != nil, "no method is refused")
		case 2:
			user = one()
			r.SetRequestURI(uri(user))
			line = true
		case 3:
			d := sym.StringIn(1, "0123456789")
			version = "SIP/" + d + ".0"
			r.SetSIPVersion(version)
			line = true
		case 4:
			cseq = sym.StringIn([]int{1, size}[sym.Choice(2)], upper)
			r.SetCSeq(header.NewCSeq(1, cseq))
		case 5:
			r.RemoveHeader("cseq")
			cseq = ""
		case 6:
			l := header.NewRequestLine()
			method, user, version = sym.StringIn(size, upper), one(), "SIP/2.0"
			l.SetMethod(method)
			l.SetUri(uri(user))
			r.SetRequestLine(l)
			line = true
		case 7:
			// Encoding takes the method of the CSeq when there is none.
			s := r.String()
			if line && method == "" {
				method = cseq
			}
			want := ""
			if line {
				want = r.GetFirstLine()
			}
			if cseq != "" {
				want += "CSeq: 1 " + cseq + "\r\n"
			}
			want += "Content-Length: 0\r\n\r\n"
			sym.Assert(s == want && string(r.EncodeAsBytes()) == want, "a request is encoded as its line and headers")
			s = ""
			for e := r.GetMessageAsEncodedStrings().Front(); e != nil; e = e.Next() {
				if n := e.Value.(string); n != "Content-Length: 0\r\n" {
					s += n
				}
			}
			sym.Assert(s+"Content-Length: 0\r\n\r\n" == want, "the encoded strings of a request are its line and headers")
		}
		sym.Assert(r.GetMethod() == method, "a request has the method set last")
		u := r.GetRequestURI()
		sym.Assert((u == nil) == (user == ""), "a request has the URI set last")
		if user != "" {
			sym.Assert(u.String() == "sip:"+user+"@h", "a request has the URI set last")
		}
		if line {
			sym.Assert(r.GetSIPVersion() == version, "a request has the version set last")
		} else {
			sym.Assert(r.GetSIPVersion() == "" && r.GetFirstLine() == "", "a request without request line has none")
		}
		if method != "" && user != "" {
			sym.Assert(r.GetFirstLine() == method+" sip:"+user+"@h "+version+"\r\n", "a request line has method, URI and version")
		}
		if c := r.GetCSeq(); c != nil {
			sym.Assert(c.GetMethod() == cseq && r.GetCSeqNumber() == 1, "the CSeq has the method of its request")
		} else {
			sym.Assert(cseq == "" && r.GetCSeqNumber() == 0, "the CSeq has the method of its request")
		}
	}
}

// H_M08_named: each setter of a message for a header, twice with other values, the getter before and after, and removal;
// a Call-ID that is refused.
func H_M08_named() {
	m := message.NewSIPRequest()
	s := token(2)
	n := []int{0, 9, 2147483647}[sym.Choice(3)]
	most := 2147483647
	digit := func() string { return strconv.Itoa(n) }
	var set func()
	var get func() (header.Header, bool)
	name, text := "", s
	k := sym.Choice(15)
	for i := 0; i < 2; i++ {
		switch k {
		case 0:
			set = func() { h, v := from(s, "t"); text = v; m.SetFrom(h) }
			get = func() (header.Header, bool) { h := m.GetFrom(); return h, h != nil }
			name = "From"
		case 1:
			set = func() { h, v := to(s, "t"); text = v; m.SetTo(h) }
			get = func() (header.Header, bool) { h := m.GetTo(); return h, h != nil }
			name = "To"
		case 2:
			set = func() { h, _ := header.NewCallID(s); text = s; m.SetCallId(h) }
			get = func() (header.Header, bool) { h := m.GetCallId(); return h, h != nil }
			name = "Call-ID"
		case 3:
			set = func() { text = s; m.SetCallIdFromString(s) }
			get = func() (header.Header, bool) { h := m.GetCallId(); return h, h != nil && m.GetCallIdentifier() == text }
			name = "Call-ID"
		case 4:
			most = 255
			n &= 255
			set = func() { h := header.NewMaxForwards(); h.SetMaxForwards(n); text = digit(); m.SetMaxForwards(h) }
			get = func() (header.Header, bool) { h := m.GetMaxForwards(); return h, h != nil }
			name = "Max-Forwards"
		case 5:
			set = func() { h := header.NewCSeq(n, "X"); text = digit() + " X"; m.SetCSeq(h) }
			get = func() (header.Header, bool) { h := m.GetCSeq(); return h, h != nil }
			name = "CSeq"
		case 6:
			set = func() { h := header.NewExpires(); h.SetExpires(n); text = digit(); m.SetExpires(h) }
			get = func() (header.Header, bool) { h := m.GetExpires(); return h, h != nil }
			name = "Expires"
		case 7:
			set = func() {
				h := header.NewContentDisposition()
				h.SetDispositionType(s)
				text = s
				m.SetContentDisposition(h)
			}
			get = func() (header.Header, bool) { h := m.GetContentDisposition(); return h, h != nil }
			name = "Content-Disposition"
		case 8:
			set = func() { h := header.NewContentEncoding(); h.SetEncoding(s); text = s; m.SetContentEncoding(h) }
			get = func() (header.Header, bool) { h := m.GetContentEncoding(); return h, h != nil }
			name = "Content-Encoding"
		case 9:
			set = func() { h := header.NewContentLanguage(); h.SetLanguageTag(s); text = s; m.SetContentLanguage(h) }
			get = func() (header.Header, bool) { h := m.GetContentLanguage(); return h, h != nil }
			name = "Content-Language"
		case 10:
			set = func() { h := header.NewMinExpires(); h.SetExpires(n); text = digit(); m.SetMinExpiresHeader(h) }
			get = func() (header.Header, bool) { h := m.GetMinExpires(); return h, h != nil }
			name = "Min-Expires"
		case 11:
			set = func() { h := header.NewOrganization(); h.SetOrganization(s); text = s; m.SetHeader(h) }
			get = func() (header.Header, bool) { h := m.GetOrganizationHeader(); return h, h != nil }
			name = "Organization"
		case 12:
			set = func() { h := header.NewPriority(); h.SetPriority(s); text = s; m.SetHeader(h) }
			get = func() (header.Header, bool) { h := m.GetPriorityHeader(); return h, h != nil }
			name = "Priority"
		case 13:
			set = func() {
				h := header.NewAuthorization()
				h.SetScheme("Digest")
				h.SetRealm(s)
				text = "Digest realm=\"" + s + "\""
				m.SetHeader(h)
			}
			get = func() (header.Header, bool) { h := m.GetAuthorization(); return h, h != nil }
			name = "Authorization"
		case 14:
			set = func() {
				h := header.NewProxyAuthorization()
				h.SetScheme("Digest")
				h.SetRealm(s)
				text = "Digest realm=\"" + s + "\""
				m.SetHeader(h)
			}
			get = func() (header.Header, bool) { h := m.GetProxyAuthorizationHeader(); return h, h != nil }
			name = "Proxy-Authorization"
		}
		if i == 0 {
			_, ok := get()
			sym.Assert(!ok && !m.HasHeader(name), "a message has no header before it is set")
		}
		set()
		if k == 3 && sym.Bool() {
			m.SetCallIdFromString(sym.Pick("", "@", "@a", "a@"))
		}
		h, ok := get()
		sym.Assert(ok && h.String() == name+": "+text+"\r\n", "a message has the header set last")
		want := content{{"Content-Length", []string{"0"}}, {name, []string{text}}}
		want.holds(m, "a message has the header set last")
		s = token(3)
		n = most - n
	}
	m.RemoveHeader(lower(name))
	_, ok := get()
	sym.Assert(!ok && !m.HasHeader(name), "a removed header is gone")
}

// H_M08_lists: messages with one of 5 kinds of list headers, of one or two elements, or none, asked for each kind.
func H_M08_lists() {
	m := message.NewSIPMessage()
	k := sym.Choice(6)
	n := 1 + sym.Choice(2)
	s := one()
	for i := 0; i < n; i++ {
		switch k {
		case 0:
			h, _ := via("a", s)
			m.AttachHeader(h)
		case 1:
			h := header.NewContact()
			h.SetAddress(addr(s))
			m.AttachHeader(h)
		case 2:
			h := header.NewRoute()
			h.SetAddress(addr(s))
			m.AttachHeader(h)
		case 3:
			h := header.NewRecordRoute()
			h.SetAddress(addr(s))
			m.AttachHeader(h)
		case 4:
			h := header.NewErrorInfo()
			h.SetErrorInfo(uri(s))
			m.AttachHeader(h)
		}
	}
	is := func(j int, present bool, count func() int) {
		sym.Assert(present == (j == k), "a message has the lists attached only")
		if present {
			sym.Assert(count() == n, "a list has each header attached")
		}
	}
	is(0, m.GetViaHeaders() != nil, func() int { return m.GetViaHeaders().Len() })
	is(1, m.GetContactHeaders() != nil, func() int { return m.GetContactHeaders().Len() })
	is(2, m.GetRouteHeaders() != nil, func() int { return m.GetRouteHeaders().Len() })
	is(3, m.GetRecordRouteHeaders() != nil, func() int { return m.GetRecordRouteHeaders().Len() })
	is(4, m.GetErrorInfoHeaders() != nil, func() int { return m.GetErrorInfoHeaders().Len() })
	l := list.New()
	c, _ := header.NewCallID(s)
	l.PushBack(c)
	l.PushBack(header.NewCSeq(1, "X"))
	m.SetHeaders(l)
	sym.Assert(m.GetCallIdentifier() == s && m.GetCSeqNumber() == 1, "a list of headers is attached")
	m.AddUnparsed(s)
	sym.Assert(m.GetUnrecognizedHeaders().Len() == 1 && m.GetUnrecognizedHeaders().Front().Value.(string) == s, "unparsed headers are kept")
}

// H_M08_tags: messages with or without From and To, each with a tag of any character or none, then set to another of two
// token characters.
func H_M08_tags() {
	m := message.NewSIPMessage()
	f, t, a, b := sym.Bool(), sym.Bool(), sym.StringIn(sym.Choice(2), tokenChars), sym.StringIn(sym.Choice(2), tokenChars)
	if f {
		h, _ := from("a", a)
		m.SetFrom(h)
	} else {
		a = ""
	}
	if t {
		h, _ := to("b", b)
		m.SetTo(h)
	} else {
		b = ""
	}
	check := func() {
		sym.Assert(m.GetFromTag() == a && m.HasFromTag() == (a != ""), "the tag of From is the one set last")
		sym.Assert(m.GetToTag() == b && m.HasToTag() == (b != ""), "the tag of To is the one set last")
	}
	check()
	c, d := sym.StringIn(2, tokenChars), sym.StringIn(2, tokenChars)
	m.SetFromTag(c)
	m.SetToTag(d)
	if f {
		a = c
	}
	if t {
		b = d
	}
	check()
}

// H_M08_via: requests with a Via or two or none, hosts and ports of any digit or no port.
func H_M08_via() {
	r := message.NewSIPRequest()
	host, port := "", 5060
	if sym.Bool() {
		host = sym.StringIn(2, "abcdefghijklmnopqrstuvwxyz")
		v, _ := via(host, "")
		if sym.Bool() {
			port = sym.Range(0, 65535)
			v.SetPort(port)
		}
		r.AttachHeader(v)
		if sym.Bool() {
			v, _ = via("zzz", "")
			v.SetPort(7)
			r.AttachHeader(v)
		}
	}
	sym.Assert(r.GetViaHost() == host && r.GetViaPort() == port, "host and port are those of the topmost Via")
}

// H_M08_defaults: requests with or without a request line, method and URI of either kind, the parameters already there with other values or not.
func H_M08_defaults() {
	r := message.NewSIPRequest()
	m := sym.Pick("", "INVITE", "REGISTER", "BYE", "OPTIONS", "Invite")
	want := ""
	if m != "" {
		r.SetMethod(m)
	}
	switch sym.Choice(3) {
	case 0:
		u := one()
		x := uri(u)
		want = "sip:" + u + "@h"
		other, user, transport := sym.Bool(), sym.Bool(), sym.Bool()
		if sym.Bool() {
			x.SetScheme("sips")
			want = "sips:" + u + "@h"
		}
		if other {
			x.SetParameter("a", u)
			want += ";a=" + u
		}
		if user {
			x.SetUserParam("phone")
		}
		if transport {
			x.SetTransportParam("tcp")
		}
		r.SetRequestURI(x)
		if m == "INVITE" || m == "REGISTER" {
			want += ";user=ip;transport=udp"
		} else {
			if user {
				want += ";user=phone"
			}
			if transport {
				want += ";transport=tcp"
			}
		}
	case 1:
		u := address.NewTelURLImpl()
		u.SetPhoneNumber("123")
		r.SetRequestURI(u)
		want = "tel:123"
	}
	r.SetDefaults()
	if want == "" {
		sym.Assert(r.GetRequestURI() == nil, "a request without URI has no defaults")
	} else {
		sym.Assert(r.GetRequestURI().String() == want, "a request has the default parameters of its method")
	}
}

// H_M08_kind: one or two headers of any of 45 kinds, alone or in a list, asked whether they belong in a request or a
// response only, and with Max-Forwards, From, To and Call-ID.
func H_M08_kind() {
	m := message.NewSIPMessage()
	k := sym.Choice(len(every) + 1)
	req, resp := true, false
	var h header.Header = header.NewMaxForwards()
	switch k {
	case 0:
		h, _ = to("a", "b")
		req = false
	case len(every):
	default:
		hs, i := extra(k, tokenChars)
		req, resp = every[k].req, every[k].resp
		h = hs[len(hs)-1]
		if sym.Bool() {
			for _, x := range hs {
				m.AttachHeader(x)
			}
			h, _ = m.GetHeaders(i.name).(header.Header)
		}
	}
	if h != nil {
		sym.Assert(m.IsRequestHeader(h) == req && m.IsResponseHeader(h) == resp, "a header belongs in requests or responses or both")
	}
}

// H_M08_bare: headers of each kind that belongs in requests or in responses only and some others, without any value,
// alone or one or two in a list.
func H_M08_bare() {
	request := []header.Header{header.NewAlertInfo(), header.NewInReplyTo(), header.NewAuthorization(), header.NewMaxForwards(),
		header.NewPriority(), header.NewProxyAuthorization(), header.NewProxyRequire(), header.NewRoute(), header.NewSubject()}
	response := []header.Header{header.NewErrorInfo(), header.NewProxyAuthenticate(), header.NewServer(), header.NewUnsupported(),
		header.NewRetryAfter(), header.NewWarning(), header.NewWWWAuthenticate()}
	both := []header.Header{header.NewFrom(), header.NewTo(), header.NewContact(), header.NewRequire(), header.NewUserAgent(),
		header.NewExpires(), header.NewMinExpires(), header.NewContentLength(), header.NewVia(), header.NewRecordRoute(),
		header.NewOrganization(), header.NewAuthenticationInfo(), header.NewCallInfo(), header.NewSupported(), header.NewAccept()}
	var h header.Header
	req, resp := false, false
	switch sym.Choice(3) {
	case 0:
		h, req = request[sym.Choice(len(request))], true
	case 1:
		h, resp = response[sym.Choice(len(response))], true
	case 2:
		h = both[sym.Choice(len(both))]
	}
	m := message.NewSIPMessage()
	if n := sym.Choice(3); n > 0 {
		m.RemoveHeader(h.GetName())
		for ; n > 0; n-- {
			m.AttachHeader(h)
		}
		h = m.GetHeaders(h.GetName()).Front().Value.(header.Header)
		if l := m.GetSIPHeaderList(h.GetName()); l != nil {
			h = l
		}
	}
	sym.Assert(m.IsRequestHeader(h) == req && m.IsResponseHeader(h) == resp, "a header belongs in requests or responses or both")
}
