package parser

import (
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

const alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits = "0123456789"
const alnum = alpha + digits
const tokenChars = alnum + "-.!%*_+`'~"

// parse reads one header line, as the message parser does.
func parse(line string) (header.Header, error) {
	p, err := parser.CreateParser(line + "\n")
	if err != nil {
		sym.Assert(p == nil, "no parser with an error")
		return nil, err
	}
	return p.Parse()
}

// anyLine: the line is refused, or read as a header whose encoding is one line that reads back as itself.
func anyLine(line string) header.Header {
	h, err := parse(line)
	if err != nil {
		sym.Assert(h == nil, "no header with an error")
		sym.Reach("refused")
		return nil
	}
	sym.Assert(h != nil, "a header or an error")
	sym.Reach("accepted")
	e := h.String()
	oneLine(e)
	if wildcard(h) {
		return h
	}
	g, err := parse(e[:len(e)-2])
	if err != nil {
		sym.Fail("the encoding of a header is accepted")
		return nil
	}
	e2 := g.String()
	if flagParameter(h) {
		// a From or To read without brackets encodes a parameter without value as a name, any other as name=
		oneLine(e2)
		g2, err := parse(e2[:len(e2)-2])
		if err != nil {
			sym.Fail("the encoding of a header is accepted")
			return nil
		}
		sym.Assert(len(e2) > len(e) && g2.String() == e2, "the encoding of a header reads back as the same encoding")
		return h
	}
	sym.Assert(e2 == e, "the encoding of a header reads back as the same encoding")
	return h
}

func flagParameter(h header.Header) bool {
	p, ok := h.(header.ParametersHeader)
	if !ok {
		return false
	}
	if n := h.GetHeaderName(); n != "From" && n != "To" {
		return false
	}
	for e := p.GetParameters().Front(); e != nil; e = e.Next() {
		if e.Value.(*core.NameValue).GetValue() == nil {
			return true
		}
	}
	return false
}

// wildcard tells whether the header is Contact: *, which encodes as <*>.
func wildcard(h header.Header) bool {
	l, ok := h.(*header.ContactList)
	if !ok {
		return false
	}
	for e := l.Front(); e != nil; e = e.Next() {
		if a, ok := e.Value.(*header.Contact).GetAddress().(*address.AddressImpl); ok && a.IsWildcard() {
			return true
		}
	}
	return false
}

func oneLine(e string) {
	n := len(e)
	sym.Assert(n > 2 && e[n-2] == '\r' && e[n-1] == '\n', "an encoded header ends its line")
	ok := true
	for i := 0; i < n-2; i++ {
		ok = sym.And(ok, sym.And(e[i] != '\r', e[i] != '\n'))
	}
	sym.Assert(ok, "an encoded header is one line")
}

// tail is 0..n bytes of a line.
func tail(n int) string {
	s := sym.String(sym.Choice(n + 1))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] != '\r', s[i] != '\n'))
	}
	return s
}

// bodies of name: any 0..q (t) bytes after each of the given beginnings.
func bodies(name string, q, t int, begins ...string) {
	anyLine(name + ": " + begins[sym.Choice(len(begins))] + tail(sym.Bound(q, t)))
}

// H_P01_via: Via, any 0..3 (5) bytes after each of several beginnings.
func H_P01_via() {
	bodies("Via", 3, 5, "", "SIP/2.0/", "SIP/2.0/UDP ", "SIP/2.0/UDP h", "SIP/2.0/UDP h;received=", "SIP/2.0/UDP h;b=", "SIP/2.0/UDP h (", "SIP/2.0/UDP h:5,")
}

// H_P01_contact: Contact, any 0..3 (5) bytes after each of several beginnings.
func H_P01_contact() {
	bodies("Contact", 3, 5, "", "<sip:a@b", "<sip:a@b>", "sip:a@b", "*", "<sip:a@b>;expires=", "<sip:a@b>;q=0")
}

// H_P01_wildcard: the Contact of every registration.
func H_P01_wildcard() {
	h, err := parse("Contact: *")
	sym.Assert(err == nil && wildcard(h), "the wildcard Contact is accepted")
	sym.Assert(h.String() == "Contact: *\r\n", "the wildcard Contact is encoded as *")
}

// H_P01_from: From and To, any 0..3 (5) bytes after each of several beginnings.
func H_P01_from() {
	bodies(sym.Pick("From", "To"), 3, 5, "", "<sip:a@b", "<sip:a@b>", "sip:a@b", "<sip:a@b>;tag=", "sip:a@b;t")
}

// H_P01_route: Route and Record-Route, any 0..3 (5) bytes after each of several beginnings.
func H_P01_route() {
	bodies(sym.Pick("Route", "Record-Route"), 3, 5, "", "<sip:a@b", "<sip:a@b>", "sip:a@b", "<sip:a@b;lr>,")
}

// H_P01_addr: Reply-To and Refer-To, any 0..3 (5) bytes after each of several beginnings.
func H_P01_addr() {
	bodies(sym.Pick("Reply-To", "Refer-To"), 3, 5, "", "<sip:a@b", "<sip:a@b>", "sip:a@b", "<sip:a@b>;t=")
}

// H_P01_info: Call-Info, Alert-Info and Error-Info, any 0..3 (4) bytes after each of several beginnings.
func H_P01_info() {
	bodies(sym.Pick("Call-Info", "Alert-Info", "Error-Info"), 3, 4, "", "<http://h", "<http://h>", "<sip:a@b>;p", "<http://h>,")
}

// H_P01_cseq: CSeq and RAck, any 0..4 (5) bytes after each of several beginnings.
func H_P01_cseq() {
	switch sym.Choice(2) {
	case 0:
		bodies("CSeq", 4, 5, "", "1 ", "1 INVITE", "2147483647", "9223372036854775807")
	case 1:
		bodies("RAck", 4, 5, "", "1 ", "1 2 ", "1 2 INVITE", "9223372036854775807")
	}
}

// H_P01_numbers: the headers of one number, any 0..4 (5) bytes after each of several beginnings.
func H_P01_numbers() {
	bodies(sym.Pick("Content-Length", "Max-Forwards", "Expires", "Min-Expires", "RSeq", "MIME-Version"), 4, 5, "", "25", "1.", "2147483647", "9223372036854775807")
}

// H_P01_retry: Retry-After, any 0..3 (5) bytes after each of several beginnings.
func H_P01_retry() {
	bodies("Retry-After", 3, 5, "", "5", "5(", "5;duration=", "5;a", "5 (b)")
}

// H_P01_timestamp: Timestamp, any 0..3 (4) bytes after each of several beginnings.
func H_P01_timestamp() {
	bodies("Timestamp", 3, 4, "", "5", "5.", "5 ", "5 7.")
}

// H_P01_warning: Warning, any 0..3 (5) bytes after each of several beginnings.
func H_P01_warning() {
	bodies("Warning", 3, 5, "", "39", "399 ", "399 a", "399 a \"", "399 a \"b\"", "399 a \"b\",")
}

// H_P01_auth: WWW-Authenticate, Proxy-Authenticate, Authorization and Proxy-Authorization, any 0..3 (5) bytes after
// each of several beginnings.
func H_P01_auth() {
	bodies(sym.Pick("WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"), 3, 5, "", "Digest ", "Digest realm=\"a\"", "Digest nc=", "Digest realm=\"", "Digest x=", "Digest algorithm=MD5,")
}

// H_P01_authinfo: Authentication-Info, any 0..3 (5) bytes after each of several beginnings.
func H_P01_authinfo() {
	bodies("Authentication-Info", 3, 5, "", "nc=", "a=\"", "nextnonce=\"a\"", "qop=a,")
}

// H_P01_accept: Accept, any 0..3 (5) bytes after each of several beginnings.
func H_P01_accept() {
	bodies("Accept", 3, 5, "", "a", "a/", "a/b", "a/b;q=", "a/b;p=c,")
}

// H_P01_language: Accept-Language and Content-Language, any 0..3 (5) bytes after each of several beginnings.
func H_P01_language() {
	bodies(sym.Pick("Accept-Language", "Content-Language"), 3, 5, "", "a", "a;q=", "a;q=0.", "a,", ";")
}

// H_P01_encoding: Accept-Encoding and Content-Encoding, any 0..3 (5) bytes after each of several beginnings.
func H_P01_encoding() {
	bodies(sym.Pick("Accept-Encoding", "Content-Encoding"), 3, 5, "", "a", "a;q=", "a;q=0.", "a,", ";")
}

// H_P01_tokens: the headers that list tokens, any 0..4 (5) bytes after each of several beginnings.
func H_P01_tokens() {
	bodies(sym.Pick("Allow", "Allow-Events", "Require", "Supported", "Unsupported", "Proxy-Require", "In-Reply-To"), 4, 5, "", "a", "a,", "a@b")
}

// H_P01_typed: Content-Type, Content-Disposition, Event, Reason and Subscription-State, any 0..3 (5) bytes after each
// of several beginnings.
func H_P01_typed() {
	switch sym.Choice(5) {
	case 0:
		bodies("Content-Type", 3, 5, "", "a", "a/", "a/b", "a/b;c=\"", "a/b;c=")
	case 1:
		bodies("Content-Disposition", 3, 5, "", "a", "a;b", "a;b=\"")
	case 2:
		bodies("Event", 3, 5, "", "a", "a;b", "a;b=\"")
	case 3:
		bodies("Reason", 3, 5, "", "a", "a;cause=", "a;text=\"", "a,")
	case 4:
		bodies("Subscription-State", 3, 5, "", "a", "a;expires=", "a;reason=", "a;retry-after=", "a;b")
	}
}

// H_P01_text: Call-ID, Subject, Organization, Priority, User-Agent, Server and unknown headers, any 0..3 (4) bytes
// after each of several beginnings.
func H_P01_text() {
	bodies(sym.Pick("Call-ID", "Subject", "Organization", "Priority", "User-Agent", "Server", "X-Unknown"), 3, 4, "", "a", "a@", "a/b", "a (", "\\")
}

// H_P01_date: Date, any 0..2 (3) bytes after each of several beginnings, or in place of any two (three) bytes of a date.
func H_P01_date() {
	const d = "Sat, 13 Nov 2010 23:29:00 GMT"
	n := sym.Bound(2, 3)
	switch sym.Choice(2) {
	case 0:
		bodies("Date", 2, 3, "", d[:4], d[:11], d[:17], d[:25], d)
	case 1:
		i := sym.Choice(len(d) - n + 1)
		s := sym.String(n)
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.And(s[i] != '\r', s[i] != '\n'))
		}
		h, err := parse("Date: " + d[:i] + s + d[i+n:])
		sym.Assert((err == nil) == (h != nil), "a header or an error")
	}
}

// H_P01_line: any line of 0..5 (6) bytes, and any 0..2 (4) bytes after each of several beginnings of a header name.
func H_P01_line() {
	if sym.Bool() {
		anyLine(tail(sym.Bound(5, 6)))
	} else {
		anyLine(sym.Pick("", "To", "Via", "Date", "f", "l", "X", ":", " ", "To ") + tail(sym.Bound(2, 4)) + sym.Pick("", ":", ": 1"))
	}
}

var _ = strings.ToLower
