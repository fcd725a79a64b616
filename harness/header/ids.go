package header

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// H_H08_callid: call identifiers of any 0..6 (9) bytes set on a Call-ID, In-Reply-To and call identifier, after a valid
// one.
func H_H08_callid() {
	s := sym.String(sym.Choice(sym.Bound(7, 10)))
	at := strings.IndexByte(s, '@')
	ok := s != "" && at != 0 && (at < 0 || at != len(s)-1)
	want, local, host := "old@o", "old", "o"
	if ok {
		want, local, host = s, s, ""
		if at > 0 {
			local, host = s[:at], s[at+1:]
		}
	}
	var err error
	var got *header.CallIdentifier
	switch sym.Choice(4) {
	case 0:
		h, e := header.NewCallID("old@o")
		sym.Assert(e == nil, "a call identifier is set")
		err = h.SetCallId(s)
		sym.Assert(h.GetCallId() == want && h.String() == "Call-ID: "+want+"\r\n", "a header has the identifier set last")
		got = h.GetCallIdentifer()
	case 1:
		h := header.NewInReplyTo()
		sym.Assert(h.GetCallId() == "" && h.SetCallId("old@o") == nil, "a call identifier is set")
		err = h.SetCallId(s)
		sym.Assert(h.GetCallId() == want && h.String() == "In-Reply-To: "+want+"\r\n", "a header has the identifier set last")
	case 2:
		c, e := header.NewCallIdentifier("old@o")
		sym.Assert(e == nil, "a call identifier is set")
		err = c.SetCallID(s)
		got = c
	case 3:
		h, e := header.NewCallID(s)
		err = e
		sym.Assert((h == nil) == (e != nil), "a header or an error")
		if e == nil {
			got = h.GetCallIdentifer()
		}
	}
	sym.Assert((err == nil) == ok, "an identifier is refused iff it is empty or has nothing before or after its @")
	if got != nil {
		sym.Assert(got.GetLocalId() == local && got.GetHost() == host && got.String() == want, "an identifier has the parts written")
	}
}

// H_H08_parts: parts of an identifier set one by one, any 1..2 characters.
func H_H08_parts() {
	c, _ := header.NewCallIdentifier(token(2))
	a, b := token(2), sym.StringIn(sym.Choice(3), tokens)
	c.SetLocalId(a)
	c.SetHost(b)
	want := a
	if b != "" {
		want += "@" + b
	}
	h, _ := header.NewCallID("x")
	h.SetCallIdentifier(c)
	sym.Assert(h.GetCallId() == want && c.String() == want, "an identifier has the parts set last")
	r := header.NewInReplyToFromCallIdentifier(c)
	sym.Assert(r.GetCallId() == want, "an identifier has the parts set last")
}

// H_H08_empty: CSeq, RAck, Allow, Event, option and text headers refuse empty values and keep the old one.
func H_H08_empty() {
	v := token(2)
	var set func(string) error
	var get func() string
	switch sym.Choice(20) {
	case 0:
		h := header.NewCSeq(1, "X")
		set, get = h.SetMethod, h.GetMethod
	case 1:
		h := header.NewAuthorization()
		set, get = h.SetRealm, h.GetRealm
	case 2:
		h := header.NewAllow()
		set, get = h.SetMethod, h.GetMethod
	case 3:
		h := header.NewAllowEvents()
		set, get = h.SetEventType, h.GetEventType
	case 4:
		h := header.NewEvent()
		set, get = h.SetEventType, h.GetEventType
	case 5:
		h := header.NewEvent()
		set, get = h.SetEventId, h.GetEventId
	case 6:
		h := header.NewRequire()
		set, get = h.SetOptionTag, h.GetOptionTag
	case 7:
		h := header.NewContentEncoding()
		set, get = h.SetEncoding, h.GetEncoding
	case 8:
		h := header.NewUnsupported()
		set, get = h.SetOptionTag, h.GetOptionTag
	case 9:
		h := header.NewProxyRequire()
		set, get = h.SetOptionTag, h.GetOptionTag
	case 10:
		h := header.NewSubject()
		set, get = h.SetSubject, h.GetSubject
	case 11:
		h := header.NewOrganization()
		set, get = h.SetOrganization, h.GetOrganization
	case 12:
		h := header.NewPriority()
		set, get = h.SetPriority, h.GetPriority
	case 13:
		h := header.NewWarning()
		set, get = h.SetAgent, h.GetAgent
	case 14:
		h := header.NewWarning()
		set, get = h.SetText, h.GetText
	case 15:
		h := header.NewSubscriptionState()
		set, get = h.SetState, h.GetState
	case 16:
		h := header.NewSubscriptionState()
		set, get = h.SetReasonCode, h.GetReasonCode
	case 17:
		h := header.NewFrom()
		set, get = h.SetTag, h.GetTag
	case 18:
		h := header.NewTo()
		set, get = h.SetTag, h.GetTag
	case 19:
		h := header.NewContentDisposition()
		set, get = h.SetDispositionType, h.GetDispositionType
	}
	sym.Assert(set(v) == nil && get() == v, "a value is set")
	sym.Assert(set("") != nil, "an empty value is refused")
	sym.Assert(get() == v, "a refused value leaves the old one")
}

// H_H09_tags: 4 (5) operations out of 7 on a From and a To: tags set and removed, another parameter, addresses, clones and
// the headers made from each other.
func H_H09_tags() {
	from, to := header.NewFrom(), header.NewTo()
	type state struct {
		body, tag, x string
		first        string
	}
	f, t := state{body: "<sip:a@b>"}, state{body: "<sip:a@b>"}
	from.SetAddress(addr())
	to.SetAddress(addr())
	text := func(s state) string {
		r := s.body
		tag, x := "", ""
		if s.tag != "" {
			tag = ";tag=" + s.tag
		}
		if s.x != "" {
			x = ";x=" + s.x
		}
		if s.first == "x" {
			return r + x + tag
		}
		return r + tag + x
	}
	for n := sym.Bound(4, 5); n > 0; n-- {
		onFrom := sym.Bool()
		s, h := &t, interface {
			header.ParametersHeader
			SetAddress(address.Address)
			SetTag(string) error
			RemoveTag()
		}(to)
		if onFrom {
			s, h = &f, from
		}
		switch sym.Choice(7) {
		case 0:
			v := token(1)
			sym.Assert(h.SetTag(v) == nil, "a tag is set")
			if s.tag == "" && s.x == "" {
				s.first = "tag"
			}
			s.tag = v
		case 1:
			h.RemoveTag()
			s.tag, s.first = "", "x"
		case 2:
			v := token(1)
			h.SetParameter("x", v)
			if s.tag == "" && s.x == "" {
				s.first = "x"
			}
			s.x = v
		case 3:
			h.RemoveParameter("x")
			s.x, s.first = "", "tag"
		case 4:
			a, b := named()
			if sym.Bool() && strings.HasPrefix(b, "<") {
				a.SetAddressType(address.ADDRESS_SPEC)
			}
			h.SetAddress(a)
			s.body = b
		case 5:
			if onFrom {
				from.CloneTo(to)
				f = t
			} else {
				to.CloneFrom(from)
				t = f
			}
		case 6:
			if onFrom {
				from = from.Clone().(*header.From)
			} else {
				to = to.Clone().(*header.To)
			}
		}
	}
	sym.Assert(from.GetTag() == f.tag && from.HasTag() == (f.tag != ""), "a tag is what was set last")
	sym.Assert(to.GetTag() == t.tag && to.HasTag() == (t.tag != ""), "a tag is what was set last")
	sym.Assert(from.String() == "From: "+text(f)+"\r\n", "a From is encoded with its address and parameters")
	sym.Assert(to.String() == "To: "+text(t)+"\r\n", "a To is encoded with its address and parameters")
	at := func(b string) string { b = b[strings.Index(b, "<")+5:]; return b[:len(b)-1] }
	sym.Assert(from.GetUserAtHostPort() == at(f.body) && to.GetUserAtHostPort() == at(t.body), "user and host")
	name := func(b string) string {
		if b[0] != '"' {
			return ""
		}
		return b[1:2]
	}
	sym.Assert(from.GetDisplayName() == name(f.body) && to.GetDisplayName() == name(t.body), "display name")
}

// H_H10_request: request lines with a method of 1..4 (8) token characters and any user, and versions of any
// digits, one or two dots and up to three slashes.
func H_H10_request() {
	m := token(sym.Bound(4, 8))
	u := sipURI()
	c := sym.StringIn(1, alnum)
	u.SetUser(c)
	l := header.NewRequestLineFromString(u, m)
	major, minor := "2", "0"
	if sym.Bool() {
		l = header.NewRequestLine()
		l.SetMethod("OLD")
		l.SetUri(nil)
		l.SetMethod(m)
		l.SetUri(u)
		major, minor = sym.StringIn(1+sym.Choice(2), digits), sym.StringIn(1+sym.Choice(2), digits)
		if sym.Bool() {
			minor += sym.Pick(".", "/", "./") + sym.StringIn(1, digits)
		}
		if sym.Bool() {
			major += "/" + sym.StringIn(1, digits)
		}
		l.SetSipVersion("SIP/" + major + "." + minor)
	}
	sym.Assert(l.GetMethod() == m && l.GetUri().String() == "sip:"+c+"@b", "method and URI are what was set last")
	sym.Assert(l.GetSipVersion() == "SIP/"+major+"."+minor && l.GetVersionMajor() == major && l.GetVersionMinor() == minor, "versions are the digits around the dot")
	sym.Assert(l.String() == m+" sip:"+c+"@b SIP/"+major+"."+minor+"\r\n", "a request line is encoded as method, URI and version")
}

// H_H10_status: status lines with any code of 100..699 and reasons of 0..5 (8) characters, and such
// versions.
func H_H10_status() {
	l := header.NewStatusLine()
	code := sym.Range(100, 699)
	reason := sym.StringIn(sym.Choice(sym.Bound(6, 9)), alnum+" ")
	l.SetStatusCode(code)
	l.SetReasonPhrase(reason)
	major, minor := "2", "0"
	if sym.Bool() {
		major, minor = sym.StringIn(1+sym.Choice(2), digits), sym.StringIn(1+sym.Choice(2), digits)
		if sym.Bool() {
			minor += sym.Pick(".", "/", "./") + sym.StringIn(1, digits)
		}
		if sym.Bool() {
			major += "/" + sym.StringIn(1, digits)
		}
		l.SetSipVersion("SIP/" + major + "." + minor)
		sym.Assert(l.GetVersionMajor() == major && l.GetVersionMinor() == minor, "versions are the digits around the dot")
		l.SetSipVersion("SIP/2.0")
		major, minor = "2", "0"
	}
	sym.Assert(l.GetStatusCode() == code && l.GetReasonPhrase() == reason, "code and reason are what was set last")
	sym.Assert(l.GetVersionMajor() == major && l.GetVersionMinor() == minor, "versions are the digits around the dot")
	sym.Assert(l.String() == "SIP/2.0 "+strconv.Itoa(code)+" "+reason+"\r\n", "a status line is encoded as version, code and reason")
}

func sameFold(a, b string) bool { return upper(a) == upper(b) }

// H_H11_match: media ranges, events and wildcards compared, with types of 1..3 (5) and subtypes and ids of 1..2
// token characters in any case, one of them with a blank or other character more; a language range set twice, also with blanks around it or empty.
func H_H11_match() {
	a, b := token(sym.Bound(3, 5)), token(sym.Bound(3, 5))
	c, d := token(2), token(2)
	if sym.Bool() {
		d += sym.Pick(" ", "\t", "-", "0")
	}
	switch sym.Choice(5) {
	case 0:
		h := header.NewContentTypeFromString(a, c)
		sym.Assert(h.CompareMediaRange(b+"/"+d) == (sameFold(a, b) && sameFold(c, d)), "media ranges match iff they differ in case only")
	case 1:
		g, h := header.NewEvent(), header.NewEvent()
		g.SetEventType(a)
		h.SetEventType(b)
		ga, hb := "", ""
		if sym.Bool() {
			ga = c
			g.SetEventId(c)
		}
		if sym.Bool() {
			hb = d
			h.SetEventId(d)
		}
		want := sameFold(a, b) && sameFold(ga, hb)
		sym.Assert(g.Match(h) == want && h.Match(g) == want && g.Match(g), "events match iff type and id differ in case only")
		sym.Assert(!g.Match(nil), "no event does not match")
	case 2:
		h := header.NewAccept()
		sym.Assert(!h.AllowsAllContentTypes() && !h.AllowsAllContentSubTypes(), "an empty Accept allows nothing")
		h.SetContentType(a)
		h.SetContentSubType(c)
		sym.Assert(h.AllowsAllContentTypes() == (a == "*") && h.AllowsAllContentSubTypes() == (c == "*"), "all types are allowed iff the type is *")
	case 3:
		h := header.NewContentType()
		sym.Assert(!h.CompareMediaRange(a+"/"+c) && h.GetContentType() == "" && h.GetContentSubType() == "" && h.GetCharSet() == "", "an empty Content-Type has no media range")
		h.SetContentSubType(c)
		h.SetContentType(a)
		h.SetParameter("charset", d)
		sym.Assert(h.GetContentType() == a && h.GetContentSubType() == c && h.GetCharSet() == d, "a media type is what was set last")
		sym.Assert(h.SetContentType("") != nil && h.SetContentSubType("") != nil && h.GetContentType() == a && h.GetContentSubType() == c, "a refused value leaves the old one")
	case 4:
		h := header.NewAcceptLanguage()
		last := ""
		for i := 0; i < 2; i++ {
			switch sym.Choice(5) {
			case 0:
				last = a
				h.SetLanguageRange(a)
			case 1:
				last = b
				h.SetAcceptLanguage(b)
			case 2:
				last = c
				h.SetLanguageRange(" " + c + "\t")
			case 3:
				last = ""
				h.SetLanguageRange("")
			case 4:
				last = ""
				h.SetAcceptLanguage("")
			}
			sym.Assert(h.GetLanguageRange() == last && h.GetAcceptLanguage() == last && h.EncodeBody() == last, "a language range is what was set last")
		}
	}
}
