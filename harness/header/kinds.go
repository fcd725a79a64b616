package header

import (
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

// parse reads one line, which ends in CRLF.
func parse(line string) (header.Header, error) {
	p, err := parser.CreateParser(strings.TrimSuffix(line, "\r\n") + "\n")
	if err != nil {
		return nil, err
	}
	return p.Parse()
}

// named is an address with a display name of one character and any user character.
func named() (*address.AddressImpl, string) {
	c := sym.StringIn(1, alnum)
	u := address.NewSipURIImpl()
	u.SetUser(c)
	u.SetHostString("h")
	a := address.NewAddressImpl()
	a.SetURI(u)
	if sym.Bool() {
		n := sym.StringIn(1, alnum)
		a.SetDisplayName(n)
		a.SetAddressType(address.NAME_ADDR)
		return a, "\"" + n + "\" <sip:" + c + "@h>"
	}
	return a, "<sip:" + c + "@h>"
}

const kinds = 52

type tagged interface {
	header.ParametersHeader
	SetTag(string) error
}

// made is a header of the k-th kind with any values set, the line it should be encoded as, and a change of it.
func made(k int) (h header.Header, name, body string, change func(header.Header)) {
	t := token(2)
	s := token(1)
	n, N := 7, "7"
	number := func(least, most int) {
		if n = []int{0, 9, 10, 255, 40000, 2147483647}[sym.Choice(6)]; n < least || n > most {
			n = most
		}
		N = strconv.Itoa(n)
	}
	switch k {
	case 0:
		number(1, 65535)
	case 3, 11, 22, 23, 36, 37, 40, 42:
		number(0, 2147483647)
	case 9:
		number(0, 2147483646)
	case 10:
		number(1, 255)
	case 38, 39:
		number(1, 2147483647)
	case 41:
		number(0, 99)
	}
	text := ""
	switch k {
	case 29, 30, 51:
		text = token(1) + sym.StringIn(sym.Choice(3), tokens+" ,;=<>:@\"") + token(1)
	}
	withParam := func(h header.Header) {
		h.(header.ParametersHeader).SetParameter("zz", "1")
	}
	mutate := func(h header.Header) {
		p := h.(header.ParametersHeader).GetParameters()
		if e := p.Front(); e != nil {
			e.Value.(*core.NameValue).SetValue("zzz")
		} else {
			withParam(h)
		}
	}
	either := withParam
	if sym.Bool() {
		either = mutate
	}
	withURI := func(h header.Header) {
		a := h.(interface{ GetAddress() address.Address }).GetAddress()
		a.GetURI().(*address.SipURIImpl).SetUser("zzz")
	}
	if sym.Bool() {
		withURI = either
	}
	param := func(h header.ParametersHeader) string {
		switch sym.Choice(3) {
		case 1:
			h.SetParameter("x", s)
			return ";x=" + s
		case 2:
			h.SetQuotedParameter("x", s)
			return ";x=\"" + s + "\""
		}
		return ""
	}
	switch k {
	case 0:
		h := header.NewVia()
		h.SetTransport(upper(t))
		h.SetHostFromString("a.b")
		body = "SIP/2.0/" + upper(t) + " a.b"
		if sym.Bool() {
			h.SetPort(n)
			body += ":" + N
		}
		if sym.Bool() {
			h.SetComment("c")
			body += " (c)"
		}
		switch sym.Choice(3) {
		case 0:
			withURI = func(h header.Header) { h.(*header.Via).SetPort(77) }
		case 1:
			withURI = func(h header.Header) { h.(*header.Via).SetTransport("ZZZ") }
		case 2:
			withURI = either
		}
		return h, "Via", body + param(h), withURI
	case 1:
		h := header.NewFrom()
		a, b := named()
		h.SetAddress(a)
		sym.Assert(h.SetTag(t) == nil, "a tag is set")
		return h, "From", b + ";tag=" + t, withURI
	case 2:
		h := header.NewTo()
		a, b := named()
		h.SetAddress(a)
		sym.Assert(h.SetTag(t) == nil, "a tag is set")
		return h, "To", b + ";tag=" + t, withURI
	case 3:
		h := header.NewContact()
		a, b := named()
		h.SetAddress(a)
		if sym.Bool() {
			h.SetExpires(n)
			b += ";expires=" + N
		}
		return h, "Contact", b + param(h), withURI
	case 4:
		h := header.NewRoute()
		a, b := named()
		a.SetAddressType(address.NAME_ADDR)
		h.SetAddress(a)
		return h, "Route", b + param(h), withURI
	case 5:
		h := header.NewRecordRoute()
		a, b := named()
		h.SetAddress(a)
		return h, "Record-Route", b + param(h), withURI
	case 6:
		h := header.NewReplyTo()
		a, b := named()
		h.SetAddress(a)
		return h, "Reply-To", b + param(h), withURI
	case 7:
		h := header.NewReferTo()
		a, b := named()
		h.SetAddress(a)
		return h, "Refer-To", b + param(h), withURI
	case 8:
		if sym.Bool() {
			t += "@" + s
		}
		h, err := header.NewCallID(t)
		sym.Assert(err == nil, "a call id is set")
		return h, "Call-ID", t, func(h header.Header) { h.(*header.CallID).GetCallIdentifer().SetLocalId("zzz") }
	case 9:
		t = upper(t)
		return header.NewCSeq(n, t), "CSeq", N + " " + t, func(h header.Header) { h.(*header.CSeq).SetSequenceNumber(78) }
	case 10:
		h := header.NewMaxForwards()
		h.SetMaxForwards(n)
		return h, "Max-Forwards", N, func(h header.Header) { h.(*header.MaxForwards).DecrementMaxForwards() }
	case 11:
		h := header.NewContentLength()
		h.SetContentLength(n)
		return h, "Content-Length", N, func(h header.Header) { h.(*header.ContentLength).SetContentLength(77) }
	case 12:
		h := header.NewContentType()
		h.SetContentType(t)
		h.SetContentSubType(s)
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.ContentType).SetContentSubType("zzz") }
		}
		return h, "Content-Type", t + "/" + s + param(h), either
	case 13:
		h := header.NewContentEncoding()
		h.SetEncoding(t)
		return h, "Content-Encoding", t, func(h header.Header) { h.(*header.ContentEncoding).SetEncoding("zzz") }
	case 14:
		h := header.NewContentLanguage()
		h.SetLanguageTag(t)
		return h, "Content-Language", t, func(h header.Header) { h.(*header.ContentLanguage).SetContentLanguage("zzz") }
	case 15:
		h := header.NewContentDisposition()
		h.SetDispositionType(t)
		if sym.Bool() {
			h.SetHandling(s)
			t += ";handling=" + s
		}
		return h, "Content-Disposition", t + param(h), either
	case 16:
		h := header.NewAccept()
		h.SetContentType(t)
		h.SetContentSubType(s)
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.Accept).SetContentType("zzz") }
		}
		return h, "Accept", t + "/" + s + param(h), either
	case 17:
		h := header.NewAcceptEncoding()
		h.SetEncoding(t)
		if sym.Bool() {
			h.SetQValue(0.5)
			t += ";q=0.5"
		}
		return h, "Accept-Encoding", t, either
	case 18:
		h := header.NewAcceptLanguage()
		h.SetLanguageRange(t)
		if sym.Bool() {
			h.SetQValue(0.25)
			t += ";q=0.25"
		}
		return h, "Accept-Language", t, either
	case 19:
		h := header.NewAllow()
		t = upper(t)
		h.SetMethod(t)
		return h, "Allow", t, func(h header.Header) { h.(*header.Allow).SetMethod("ZZZ") }
	case 20:
		h := header.NewAllowEvents()
		h.SetEventType(t)
		return h, "Allow-Events", t, func(h header.Header) { h.(*header.AllowEvents).SetEventType("zzz") }
	case 21:
		h := header.NewEvent()
		h.SetEventType(t)
		if sym.Bool() {
			h.SetEventId(s)
			t += ";id=" + s
		}
		return h, "Event", t + param(h), either
	case 22:
		h := header.NewExpires()
		h.SetExpires(n)
		return h, "Expires", N, func(h header.Header) { h.(*header.Expires).SetExpires(77) }
	case 23:
		h := header.NewMinExpires()
		h.SetExpires(n)
		return h, "Min-Expires", N, func(h header.Header) { h.(*header.MinExpires).SetExpires(77) }
	case 24:
		h := header.NewRequire()
		h.SetOptionTag(t)
		return h, "Require", t, func(h header.Header) { h.(*header.Require).SetOptionTag("zzz") }
	case 25:
		h := header.NewProxyRequire()
		h.SetOptionTag(t)
		return h, "Proxy-Require", t, func(h header.Header) { h.(*header.ProxyRequire).SetOptionTag("zzz") }
	case 26:
		h := header.NewSupported()
		h.SetOptionTag(t)
		return h, "Supported", t, func(h header.Header) { h.(*header.Supported).SetOptionTag("zzz") }
	case 27:
		h := header.NewUnsupported()
		h.SetOptionTag(t)
		return h, "Unsupported", t, func(h header.Header) { h.(*header.Unsupported).SetOptionTag("zzz") }
	case 28:
		h := header.NewInReplyTo()
		if sym.Bool() {
			t += "@" + s
		}
		h.SetCallId(t)
		return h, "In-Reply-To", t, func(h header.Header) { h.(*header.InReplyTo).SetCallId("zzz") }
	case 29:
		h := header.NewSubject()
		h.SetSubject(text)
		return h, "Subject", text, func(h header.Header) { h.(*header.Subject).SetSubject("zzzzzz") }
	case 30:
		h := header.NewOrganization()
		h.SetOrganization(text)
		return h, "Organization", text, func(h header.Header) { h.(*header.Organization).SetOrganization("zzzzzz") }
	case 31:
		h := header.NewPriority()
		h.SetPriority(t)
		return h, "Priority", t, func(h header.Header) { h.(*header.Priority).SetPriority("zzz") }
	case 32:
		h := header.NewUserAgent()
		h.AddProductToken(t)
		if sym.Bool() {
			h.AddProductToken(s)
			t += "/" + s
		}
		return h, "User-Agent", t, func(h header.Header) { h.(*header.UserAgent).AddProductToken("zzz") }
	case 33:
		h := header.NewServer()
		h.AddProductToken(t)
		if sym.Bool() {
			h.AddProductToken(s)
			t += "/" + s
		}
		return h, "Server", t, func(h header.Header) { h.(*header.Server).AddProductToken("zzz") }
	case 34:
		h := header.NewDate()
		d := time.Unix(1289690940, 0)
		h.SetDate(&d)
		return h, "Date", "Sat, 13 Nov 2010 23:29:00 GMT", func(h header.Header) { *h.(*header.Date).GetDate() = time.Unix(0, 0) }
	case 35:
		h := header.NewTimeStamp()
		h.SetTimeStamp(54.25)
		return h, "Timestamp", "54.25", func(h header.Header) { h.(*header.TimeStamp).SetDelay(2) }
	case 36:
		h := header.NewRetryAfter()
		h.SetRetryAfter(n)
		b := N
		if sym.Bool() {
			h.SetComment("c")
			b += " (c)"
		}
		if sym.Bool() {
			number(0, 2147483647)
			h.SetDuration(n)
			b += ";duration=" + N
		}
		return h, "Retry-After", b, either
	case 37:
		h := header.NewMimeVersion()
		h.SetMajorVersion(n)
		m := n
		number(0, 2147483647)
		h.SetMinorVersion(n)
		return h, "MIME-Version", strconv.Itoa(m) + "." + N, func(h header.Header) { h.(*header.MimeVersion).SetMinorVersion(77) }
	case 38:
		h := header.NewRSeq()
		h.SetSequenceNumber(n)
		return h, "RSeq", N, func(h header.Header) { h.(*header.RSeq).SetSequenceNumber(77) }
	case 39:
		h := header.NewRAck()
		h.SetRSeqNumber(n)
		m := n
		if sym.Bool() {
			number(1, 2147483647)
		}
		h.SetCSeqNumber(n)
		h.SetMethod(t)
		return h, "RAck", strconv.Itoa(m) + " " + N + " " + t, func(h header.Header) { h.(*header.RAck).SetRSeqNumber(77) }
	case 40:
		h := header.NewReason()
		h.SetProtocol(t)
		if sym.Bool() {
			h.SetCause(n)
			t += ";cause=" + N
		}
		if sym.Bool() {
			h.SetText(s)
			t += ";text=\"" + s + "\""
		}
		return h, "Reason", t, either
	case 41:
		h := header.NewWarning()
		h.SetCode(300 + n)
		h.SetAgent(t)
		h.SetText(s)
		return h, "Warning", strconv.Itoa(300+n) + " " + t + " \"" + s + "\"", func(h header.Header) { h.(*header.Warning).SetText("zzz") }
	case 42:
		h := header.NewSubscriptionState()
		h.SetState(t)
		if sym.Bool() {
			h.SetReasonCode(s)
			t += ";reason=" + s
		}
		if sym.Bool() {
			h.SetRetryAfter(n)
			t += ";retry-after=" + N
		}
		if sym.Bool() {
			number(0, 2147483647)
			h.SetExpires(n)
			t += ";expires=" + N
		}
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.SubscriptionState).SetExpires(77) }
		}
		return h, "Subscription-State", t, either
	case 43:
		h := header.NewCallInfo()
		u := sipURI()
		s = sym.StringIn(1, alnum)
		u.SetUser(s)
		h.SetInfo(u)
		b := "<sip:" + s + "@b>"
		if sym.Bool() {
			h.SetPurpose(t)
			b += ";purpose=" + t
		}
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.CallInfo).GetInfo().(*address.SipURIImpl).SetUser("zzz") }
		}
		return h, "Call-Info", b, either
	case 44:
		h := header.NewAlertInfo()
		h.SetAlertInfo(sipURI())
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.AlertInfo).GetAlertInfo().(*address.SipURIImpl).SetUser("zzz") }
		}
		return h, "Alert-Info", "<sip:a@b>" + param(h), either
	case 45:
		h := header.NewErrorInfo()
		h.SetErrorInfo(sipURI())
		b := "<sip:a@b>"
		if sym.Bool() {
			h.SetErrorMessage(t)
			b += ";message=" + t
		}
		if sym.Bool() {
			either = func(h header.Header) { h.(*header.ErrorInfo).GetErrorInfo().(*address.SipURIImpl).SetUser("zzz") }
		}
		return h, "Error-Info", b, either
	case 46, 47, 48, 49:
		var h header.AuthorizationHeader
		switch k {
		case 46:
			h, name = header.NewAuthorization(), "Authorization"
		case 47:
			h, name = header.NewProxyAuthorization(), "Proxy-Authorization"
		case 48:
			h, name = header.NewWWWAuthenticate(), "WWW-Authenticate"
		case 49:
			h, name = header.NewProxyAuthenticate(), "Proxy-Authenticate"
		}
		sym.Assert(h.SetRealm(t) == nil && h.SetNonce(s) == nil, "a parameter is set")
		return h, name, "Digest realm=\"" + t + "\",nonce=\"" + s + "\"", either
	case 50:
		h := header.NewAuthenticationInfo()
		sym.Assert(h.SetNextNonce(t) == nil, "a parameter is set")
		return h, "Authentication-Info", "nextnonce=\"" + t + "\"", either
	}
	e := header.NewExtension("X-A")
	e.SetValue(text)
	return e, "X-A", text, func(h header.Header) { h.(*header.Extension).SetValue("zzzzzz") }
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// H_H03_text: 52 kinds of headers with values of 1..2 token characters, numbers 0, 9, 10,
// 255, 40000 and 2147483647, texts with blanks and separators inside, each optional field set or
// not, a parameter set, set quoted or none.
func H_H03_text() {
	h, name, body, _ := made(sym.Choice(kinds))
	line := name + ": " + body + "\r\n"
	sym.Assert(h.GetName() == name, "a header has its name")
	sym.Assert(h.EncodeBody() == body, "a header's value is what was set")
	sym.Assert(h.String() == line, "a header is encoded as its name and value")
	sym.Assert(h.GetValue() == body, "a header's value is what follows its name")
	p, err := parse(line)
	sym.Assert(err == nil, "an encoded header is accepted")
	sym.Assert(p.String() == line, "an encoded header is read as the same")
}

// H_H07_clone: the clone of each of 52 kinds of headers is encoded the same; a change of the clone leaves the header, and
// a change of the header leaves the clone.
func H_H07_clone() {
	h, name, body, change := made(sym.Choice(kinds))
	line := name + ": " + body + "\r\n"
	c := h.Clone().(header.Header)
	sym.Assert(c.String() == line, "a clone is the same")
	a, b := h, c
	if sym.Bool() {
		a, b = c, h
	}
	change(a)
	sym.Assert(b.String() == line, "a clone does not change with its original")
	sym.Assert(a.String() != line, "a changed header is changed")
}

// H_H07_contact: the list that a Contact keeps and that of its clone: an element added to one, or the list replaced.
func H_H07_contact() {
	h := header.NewContact()
	n := sym.Choice(3)
	l := header.NewContactList()
	for i := 0; i < n; i++ {
		l.PushBack(header.NewContact())
	}
	h.SetContactList(l)
	c := h.Clone().(*header.Contact)
	sym.Assert(c.GetContactList().Len() == n && h.GetContactList() == l, "a clone is the same")
	a, b := h, c
	if sym.Bool() {
		a, b = c, h
	}
	if sym.Bool() {
		a.GetContactList().PushBack(header.NewContact())
	} else {
		a.SetContactList(nil)
	}
	sym.Assert(b.GetContactList() != nil && b.GetContactList().Len() == n, "a clone does not change with its original")
}

// H_H07_lists: the clone of a list of any of 24 kinds with 1..3 elements: an element of either list is changed, or its
// address, its URI or its parameters, and the other list is as it was.
func H_H07_lists() {
	k := sym.Choice(listKinds)
	l, _, elem, _ := listOf(k)
	for n := 1 + sym.Choice(3); n > 0; n-- {
		h, _ := elem(sym.StringIn(1, alnum))
		if p, ok := h.(header.ParametersHeader); ok && sym.Bool() {
			p.SetParameter("x", "1")
		}
		l.PushBack(h)
	}
	line := l.String()
	c := l.Clone().(header.SIPHeaderLister)
	sym.Assert(c.String() == line, "a clone is the same")
	a, b := l, c
	if sym.Bool() {
		a, b = c, l
	}
	e := a.Front()
	if sym.Bool() {
		e = a.Back()
	}
	change(e.Value.(header.Header))
	sym.Assert(b.String() == line, "a clone does not change with its original")
	sym.Assert(a.String() != line, "a changed header is changed")
}

// change changes a header in one of the ways there are.
func change(h header.Header) {
	var ways []func()
	if p, ok := h.(header.ParametersHeader); ok {
		ways = append(ways, func() { p.SetParameter("zz", "1") })
		if e := p.GetParameters().Front(); e != nil {
			ways = append(ways, func() { e.Value.(*core.NameValue).SetValue("zzz") })
		}
	}
	user := func(u address.URI) func() { return func() { u.(*address.SipURIImpl).SetUser("zzz") } }
	if x, ok := h.(interface{ GetAddress() address.Address }); ok {
		ways = append(ways, user(x.GetAddress().GetURI()), func() { x.GetAddress().SetDisplayName("zzz") })
	}
	switch x := h.(type) {
	case *header.Via:
		ways = append(ways, func() { x.SetPort(77) }, func() { x.SetTransport("ZZZ") }, func() { x.SetHostFromString("zzz") })
	case *header.Accept:
		ways = append(ways, func() { x.SetContentType("zzz") })
	case *header.AlertInfo:
		ways = append(ways, user(x.GetAlertInfo()))
	case *header.CallInfo:
		ways = append(ways, user(x.GetInfo()))
	case *header.ErrorInfo:
		ways = append(ways, user(x.GetErrorInfo()))
	case interface{ SetOptionTag(string) error }:
		ways = append(ways, func() { x.SetOptionTag("zzz") })
	case *header.InReplyTo:
		ways = append(ways, func() { x.SetCallId("zzz") })
	case *header.Warning:
		ways = append(ways, func() { x.SetText("zzz") })
	case *header.Allow:
		ways = append(ways, func() { x.SetMethod("ZZZ") })
	case *header.AllowEvents:
		ways = append(ways, func() { x.SetEventType("zzz") })
	case *header.ContentEncoding:
		ways = append(ways, func() { x.SetEncoding("zzz") })
	case *header.ContentLanguage:
		ways = append(ways, func() { x.SetContentLanguage("zzz") })
	case *header.WWWAuthenticate:
		ways = append(ways, func() { x.SetRealm("zzz") }, func() { x.SetOpaque("zzz") })
	case *header.ProxyAuthenticate:
		ways = append(ways, func() { x.SetNonce("zzz") }, func() { x.SetOpaque("zzz") })
	case *header.Extension:
		ways = append(ways, func() { x.SetValue("zzz") })
	}
	ways[sym.Choice(len(ways))]()
}
