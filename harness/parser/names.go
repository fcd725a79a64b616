package parser

import (
	"container/list"
	"strings"

	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// a header name, its compact form, a body, and whether a header read from it
// is of the right kind.
type named struct {
	name, compact, body string
	kind                func(h header.Header) bool
}

func names() []named {
	return []named{
		{"Via", "v", "SIP/2.0/UDP h;branch=z", func(h header.Header) bool { _, ok := h.(*header.ViaList); return ok }},
		{"From", "f", "<sip:a@b>;tag=c", func(h header.Header) bool { _, ok := h.(header.FromHeader); return ok }},
		{"To", "t", "<sip:a@b>;tag=c", func(h header.Header) bool { _, ok := h.(header.ToHeader); return ok }},
		{"Call-ID", "i", "a@b", func(h header.Header) bool { _, ok := h.(header.CallIdHeader); return ok }},
		{"CSeq", "", "1 BYE", func(h header.Header) bool { _, ok := h.(header.CSeqHeader); return ok }},
		{"Contact", "m", "<sip:a@b>;expires=5", func(h header.Header) bool { _, ok := h.(*header.ContactList); return ok }},
		{"Route", "", "<sip:b;lr>", func(h header.Header) bool { _, ok := h.(*header.RouteList); return ok }},
		{"Record-Route", "", "<sip:b;lr>", func(h header.Header) bool { _, ok := h.(*header.RecordRouteList); return ok }},
		{"Max-Forwards", "", "70", func(h header.Header) bool { _, ok := h.(header.MaxForwardsHeader); return ok }},
		{"Content-Length", "l", "7", func(h header.Header) bool { _, ok := h.(header.ContentLengthHeader); return ok }},
		{"Content-Type", "c", "text/plain", func(h header.Header) bool { _, ok := h.(header.ContentTypeHeader); return ok }},
		{"Content-Encoding", "e", "gzip", func(h header.Header) bool { _, ok := h.(*header.ContentEncodingList); return ok }},
		{"Content-Language", "", "fr", func(h header.Header) bool { _, ok := h.(*header.ContentLanguageList); return ok }},
		{"Content-Disposition", "", "session", func(h header.Header) bool { _, ok := h.(header.ContentDispositionHeader); return ok }},
		{"Accept", "", "text/plain", func(h header.Header) bool { _, ok := h.(*header.AcceptList); return ok }},
		{"Accept-Encoding", "", "gzip", func(h header.Header) bool { _, ok := h.(*header.AcceptEncodingList); return ok }},
		{"Accept-Language", "", "fr", func(h header.Header) bool { _, ok := h.(*header.AcceptLanguageList); return ok }},
		{"Allow", "", "BYE", func(h header.Header) bool { _, ok := h.(*header.AllowList); return ok }},
		{"Allow-Events", "u", "presence", func(h header.Header) bool { _, ok := h.(*header.AllowEventsList); return ok }},
		{"Event", "o", "presence", func(h header.Header) bool { _, ok := h.(header.EventHeader); return ok }},
		{"Expires", "", "60", func(h header.Header) bool { _, ok := h.(header.ExpiresHeader); return ok }},
		{"Min-Expires", "", "60", func(h header.Header) bool { _, ok := h.(header.MinExpiresHeader); return ok }},
		{"Require", "", "100rel", func(h header.Header) bool { _, ok := h.(*header.RequireList); return ok }},
		{"Proxy-Require", "", "100rel", func(h header.Header) bool { _, ok := h.(*header.ProxyRequireList); return ok }},
		{"Supported", "k", "100rel", func(h header.Header) bool { _, ok := h.(*header.SupportedList); return ok }},
		{"Unsupported", "", "100rel", func(h header.Header) bool { _, ok := h.(*header.UnsupportedList); return ok }},
		{"In-Reply-To", "", "a@b", func(h header.Header) bool { _, ok := h.(*header.InReplyToList); return ok }},
		{"Subject", "s", "lunch", func(h header.Header) bool { _, ok := h.(header.SubjectHeader); return ok }},
		{"Organization", "", "home", func(h header.Header) bool { _, ok := h.(header.OrganizationHeader); return ok }},
		{"Priority", "", "urgent", func(h header.Header) bool { _, ok := h.(header.PriorityHeader); return ok }},
		{"User-Agent", "", "a/1", func(h header.Header) bool { _, ok := h.(header.UserAgentHeader); return ok }},
		{"Server", "", "a/1", func(h header.Header) bool { _, ok := h.(header.ServerHeader); return ok }},
		{"Date", "", "Sat, 13 Nov 2010 23:29:00 GMT", func(h header.Header) bool { _, ok := h.(header.DateHeader); return ok }},
		{"Timestamp", "", "54.25", func(h header.Header) bool { _, ok := h.(header.TimeStampHeader); return ok }},
		{"Retry-After", "", "5", func(h header.Header) bool { _, ok := h.(header.RetryAfterHeader); return ok }},
		{"MIME-Version", "", "1.0", func(h header.Header) bool { _, ok := h.(header.MimeVersionHeader); return ok }},
		{"RSeq", "", "5", func(h header.Header) bool { _, ok := h.(header.RSeqHeader); return ok }},
		{"RAck", "", "5 6 INVITE", func(h header.Header) bool { _, ok := h.(header.RAckHeader); return ok }},
		{"Reason", "", "SIP;cause=200", func(h header.Header) bool { _, ok := h.(*header.ReasonList); return ok }},
		{"Warning", "", "399 h \"x\"", func(h header.Header) bool { _, ok := h.(*header.WarningList); return ok }},
		{"Subscription-State", "", "active;expires=5", func(h header.Header) bool { _, ok := h.(header.SubscriptionStateHeader); return ok }},
		{"Reply-To", "", "<sip:a@b>", func(h header.Header) bool { _, ok := h.(header.ReplyToHeader); return ok }},
		{"Refer-To", "r", "<sip:a@b>", func(h header.Header) bool { _, ok := h.(header.ReferToHeader); return ok }},
		{"Call-Info", "", "<http://h/>", func(h header.Header) bool { _, ok := h.(*header.CallInfoList); return ok }},
		{"Alert-Info", "", "<http://h/>", func(h header.Header) bool { _, ok := h.(*header.AlertInfoList); return ok }},
		{"Error-Info", "", "<sip:a@b>", func(h header.Header) bool { _, ok := h.(*header.ErrorInfoList); return ok }},
		{"WWW-Authenticate", "", "Digest realm=\"r\"", func(h header.Header) bool { _, ok := h.(header.WWWAuthenticateHeader); return ok }},
		{"Proxy-Authenticate", "", "Digest realm=\"r\"", func(h header.Header) bool { _, ok := h.(header.ProxyAuthenticateHeader); return ok }},
		{"Authorization", "", "Digest username=\"u\"", func(h header.Header) bool { _, ok := h.(header.AuthorizationHeader); return ok }},
		{"Proxy-Authorization", "", "Digest username=\"u\"", func(h header.Header) bool { _, ok := h.(header.ProxyAuthorizationHeader); return ok }},
		{"Authentication-Info", "", "nextnonce=\"n\"", func(h header.Header) bool { _, ok := h.(header.AuthenticationInfoHeader); return ok }},
	}
}

// anyCase is s with each letter in either case.
func anyCase(s string) string {
	b := sym.Bytes(len(s))
	for i := 0; i < len(b); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' {
			sym.Assume(sym.Or(b[i] == c, b[i] == c-32))
		} else if c >= 'A' && c <= 'Z' {
			sym.Assume(sym.Or(b[i] == c, b[i] == c+32))
		} else {
			sym.Assume(b[i] == c)
		}
	}
	return string(b)
}

// H_P02_names: each of the 51 header names and 13 compact names in any case, with 0..2 blanks before and after the
// colon.
func H_P02_names() {
	t := names()
	n := t[sym.Choice(len(t))]
	name := n.name
	if n.compact != "" && sym.Bool() {
		name = n.compact
	}
	h, err := parse(anyCase(name) + sym.Pick("", " ", "\t", " \t") + ":" + sym.Pick("", " ", "\t", "  ") + n.body)
	sym.Assert(err == nil && h != nil, "a header name in any case is known")
	sym.Assert(n.kind(h), "a header has the kind of its name")
	sym.Assert(h.GetHeaderName() == n.name, "a header has its full name")
	sym.Assert(h.String() == n.name+": "+n.body+"\r\n", "a header is encoded with its full name")
}

// H_P02_other: names of 1..20 (26) token characters that are none of the known names, and known names with 0..2 (3)
// token characters put in at any place or in the stead of any one character.
func H_P02_other() {
	t := names()
	var name string
	if sym.Bool() {
		name = sym.StringIn(1+sym.Choice(sym.Bound(20, 26)), tokenChars)
	} else {
		k := t[sym.Choice(len(t))].name
		i := sym.Choice(len(k) + 1)
		j := i
		if i < len(k) && sym.Bool() {
			j++
		}
		name = k[:i] + sym.StringIn(sym.Choice(sym.Bound(3, 4)), tokenChars) + k[j:]
	}
	for _, n := range t {
		sym.Assume(!sameText(n.name, name))
		if n.compact != "" {
			sym.Assume(!sameText(n.compact, name))
		}
	}
	other(name, "", "v 1")
}

func other(name, blanks, value string) {
	h, err := parse(name + blanks + ":" + blanks + value + blanks)
	sym.Assert(err == nil, "a header of another name is accepted")
	x, ok := h.(header.ExtensionHeader)
	sym.Assert(ok, "a header of another name is an extension header")
	sym.Assert(h.GetHeaderName() == name && x.GetName() == name && x.GetValue() == value, "an extension header keeps its name and value")
	sym.Assert(h.String() == name+": "+value+"\r\n", "an extension header is encoded with its name and value")
}

// H_P02_value: 5 names that are not known ones, with a value of 1..5 (7) characters or any 3 (4) more at 4 places of a
// usual value.
func H_P02_value() {
	name := sym.Pick("X-Y", "P-Asserted-Identity", "Session-Expires", "Viaa", "Sub")
	n := sym.Bound(5, 7)
	v := ""
	if sym.Bool() {
		v = sym.StringIn(1, "a(\"<1*") + inner(sym.Choice(n-1)) + visible(1)
	} else {
		w := inner(sym.Bound(3, 4))
		v = []string{"a" + w + " (b);c=\"d\", e", "a (" + w + ");c", "a (b)" + w + "\"c\"", "<sip:a@b>;c=\"" + w + "\",d"}[sym.Choice(4)]
	}
	other(name, sym.Pick("", " ", "\t"), v)
}

// inner is n visible characters, blanks and tabs.
func inner(n int) string {
	s := sym.String(n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.Or(sym.And(s[i] >= ' ', s[i] < 0x7f), s[i] == '\t'))
	}
	return s
}

// sameText compares without regard to the case of letters.
func sameText(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := 0; i < len(a); i++ {
		c := a[i] // not symbolic
		if c >= 'A' && c <= 'Z' {
			same = sym.And(same, sym.Or(b[i] == c, b[i] == c+32))
		} else if c >= 'a' && c <= 'z' {
			same = sym.And(same, sym.Or(b[i] == c, b[i] == c-32))
		} else {
			same = sym.And(same, b[i] == c)
		}
	}
	return same
}

// texts: the value of a header is the text of its encoding after the name, and so is that of each element of a list.
func texts(h header.Header) {
	s := h.String()
	i := strings.Index(s, ": ")
	sym.Assert(i > 0, "a header is a name and a text")
	v := strings.TrimSpace(s[i+2:])
	g, ok := h.(interface {
		GetHeaderValue() string
		GetValue() string
	})
	sym.Assert(ok, "a header has a value")
	sym.Assert(g.GetValue() == v && g.GetHeaderValue() == v, "the value of a header is its text after the name")
	if l, ok := h.(interface{ Front() *list.Element }); ok {
		for e := l.Front(); e != nil; e = e.Next() {
			texts(e.Value.(header.Header))
		}
	}
}

// H_P01_value: a header of each of 51 kinds or of an unknown name, its body with 0..1 (2) more bytes, or two with a
// comma between: its value and those of its elements.
func H_P01_value() {
	all := append(names(), named{"X-Y", "", "z", nil})
	n := all[sym.Choice(len(all))]
	body := n.body + tail(sym.Bound(1, 2))
	if sym.Bool() {
		body = n.body + sym.Pick(",", " , ") + n.body
	}
	h, err := parse(n.name + ": " + body)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	texts(h)
}
