package parser

import (
	"strconv"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

// sameHeader: both are refused, or both are the same header.
func sameHeader(h header.Header, err error, g header.Header, err2 error) bool {
	sym.Assert((h == nil) == (err != nil), "a header or an error")
	sym.Assert((err == nil) == (err2 == nil), "a header is accepted on its own exactly when it is accepted in a message")
	if err != nil || err2 != nil {
		return false
	}
	sym.Assert(h.GetHeaderName() == g.GetHeaderName() && h.String() == g.String(), "a header is the same on its own as in a message")
	return true
}

// H_P12_header: header text of 10 kinds with any 0..2 (3) bytes, with 7 things before and 5 ends after it, given to
// ParseSIPHeader: the same as the plain line is.
func H_P12_header() {
	text := sym.Pick("Via: SIP/2.0/UDP h", "m: <sip:a@b>", "From: sip:a@b", "CSeq: 1 ", "Subject: s", "X-Y: z", "WWW-Authenticate: Digest a=b", "l: 1", "k: a,", "") + tail(sym.Bound(2, 3))
	for i := 0; i < len(text) && i < 1; i++ {
		sym.Assume(sym.And(text[0] != ' ', text[0] != '\t'))
	}
	m := parser.NewStringMsgParser()
	h, err := m.ParseSIPHeader(sym.Pick("", " ", "\t", "\n", "\r\n", " \t", "\r\n ") + text + sym.Pick("", "\n", "\r\n", "\n\n", "\r\n\r\n"))
	g, err2 := parse(text)
	if sameHeader(h, err, g, err2) {
		sym.Reach("accepted")
		return
	}
	sym.Reach("refused")
}

// H_P12_again: the encoding of the header of an accepted line of 5 kinds with any 0..1 (2) bytes is read as the same header.
func H_P12_again() {
	text := sym.Pick("Via: SIP/2.0/UDP h", "m: <sip:a@b>", "To: <sip:a@b>;t", "Subject: s", "Date: Mon, 01 Jan 2001 00:00:00 GMT") + tail(sym.Bound(1, 2))
	h, err := parse(text)
	if err != nil {
		return
	}
	g, err := parser.NewStringMsgParser().ParseSIPHeader(h.String())
	sym.Assert(err == nil && g != nil, "the encoding of a header is accepted")
	sym.Assert(g.String() == h.String(), "the encoding of a header is read as the same header")
}

// H_P12_fold: a Subject or extension text of two words of 1..2 visible characters, folded 1..2 times with LF or CRLF
// and a blank or tab and 0..2 more: each line end and the first of them are one blank.
func H_P12_fold() {
	a, b, c := visible(2), visible(2), visible(1)
	fold := sym.Pick("\n", "\r\n") + sym.Pick(" ", "\t")
	name := sym.Pick("Subject", "X-Y")
	text, want := name+": "+a+fold+b, a+" "+b
	if sym.Bool() {
		more := sym.Pick("", " ", "\t", "  ")
		text += sym.Pick("\n", "\r\n") + sym.Pick(" ", "\t") + more + c
		want += " " + more + c
	}
	h, err := parser.NewStringMsgParser().ParseSIPHeader(text)
	sym.Assert(err == nil && h != nil, "a folded header is accepted")
	sym.Assert(h.String() == name+": "+want+"\r\n", "each fold of a header is one blank")
}

// H_P12_folds: a Contact folded at any one or all of 4 places with LF or CRLF and 1..2 blanks.
func H_P12_folds() {
	u := sym.StringIn(1, alnum)
	parts := []string{"Contact:", "\"" + u + "\"", "<sip:" + u + "@b>", ";expires=1", ";q=0.5"}
	at := sym.Choice(5)
	text := parts[0]
	for i := 1; i < 5; i++ {
		if at == 4 || at == i-1 {
			text += sym.Pick("\n", "\r\n") + sym.Pick(" ", "\t", "  ")
		} else if i == 1 {
			text += " "
		}
		text += parts[i]
	}
	h, err := parser.NewStringMsgParser().ParseSIPHeader(text)
	sym.Assert(err == nil && h != nil, "a folded header is accepted")
	sym.Assert(h.String() == "Contact: \""+u+"\" <sip:"+u+"@b>;expires=1;q=0.5\r\n", "a folded header is read as one line")
}

// H_P12_request: request lines of 5 shapes with any 0..2 (3) bytes: ParseSIPRequestLine and the message parser agree.
func H_P12_request() {
	x := tail(sym.Bound(2, 3))
	s := ""
	switch sym.Choice(5) {
	case 0:
		s = x
	case 1:
		s = "A" + x + " sip:a SIP/2.0"
	case 2:
		s = "INVITE " + x
	case 3:
		s = "INVITE sip:a" + x + " SIP/2.0"
	case 4:
		s = "INVITE sip:a SIP/2.0" + x
	}
	if len(s) == 0 {
		return
	}
	r, err := parser.NewStringMsgParser().ParseSIPRequestLine(s)
	sym.Assert((r == nil) == (err != nil), "a request line or an error")
	sym.Assume(sym.And(s[0] != ' ', s[0] != '\t'))
	m, err2 := parseMessage(s + "\r\n\r\n")
	sym.Assert((err == nil) == (err2 == nil), "a request line is accepted on its own exactly when it is in a message")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	q := m.(*message.SIPRequest)
	sym.Assert(r.String() == q.GetRequestLine().String() && r.GetMethod() == q.GetMethod(), "a request line is the same on its own as in a message")
}

// H_P12_status: status lines of 4 shapes with any 0..2 (3) bytes: ParseSIPStatusLine and the message parser agree.
func H_P12_status() {
	x := tail(sym.Bound(2, 3))
	s := "SIP/2.0"
	switch sym.Choice(4) {
	case 0:
		s += x
	case 1:
		s += " " + x + " OK"
	case 2:
		s += " 200" + x
	case 3:
		s += " 200 OK" + x
	}
	r, err := parser.NewStringMsgParser().ParseSIPStatusLine(s)
	sym.Assert((r == nil) == (err != nil), "a status line or an error")
	m, err2 := parseMessage(s + "\r\n\r\n")
	sym.Assert((err == nil) == (err2 == nil), "a status line is accepted on its own exactly when it is in a message")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	q := m.(*message.SIPResponse)
	sym.Assert(r.GetStatusCode() == q.GetStatusCode() && r.GetReasonPhrase() == q.GetReasonPhrase(), "a status line is the same on its own as in a message")
	sym.Assert(r.String() == q.GetStatusLine().String(), "a status line has the same text on its own as in a message")
}

// H_P12_address: addresses with display name (none, token, quoted) and URI of 5 forms with any letter or digit, with
// brackets or without, given to ParseAddress.
func H_P12_address() {
	u := sym.Pick("sip:", "sips:") + sym.StringIn(1, alnum)
	u += sym.Pick("", "@b", "@b:5060", "@b;lr", "@[::1]")
	name, text := "", u
	if sym.Bool() {
		text = "<" + u + ">"
		switch sym.Choice(3) {
		case 1:
			name = token(2)
			text = name + " " + text
		case 2:
			name = quotable(2)
			text = "\"" + name + "\"" + blanks() + text
		}
	}
	a, err := parser.NewStringMsgParser().ParseAddress(text)
	sym.Assert(err == nil && a != nil, "an address is accepted")
	sym.Assert(a.GetDisplayName() == name, "the display name of an address")
	sym.Assert(a.GetURI().String() == u, "the URI of an address")
	sym.Assert(a.HasDisplayName() == (name != ""), "an address has a display name when one is written")
}

// H_P12_anyaddress: any 0..4 (6) bytes, and any 0..3 (4) bytes after 3 beginnings: an address or an error, and the same
// as in a Reply-To when brackets are there.
func H_P12_anyaddress() {
	s := ""
	if sym.Bool() {
		s = sym.Pick("<sip:a@b", "\"a\"<sip:b>", "sip:a@b") + tail(sym.Bound(3, 4))
	} else {
		s = tail(sym.Bound(4, 6))
	}
	a, err := parser.NewStringMsgParser().ParseAddress(s)
	sym.Assert((a == nil) == (err != nil), "an address or an error")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	e := a.String()
	b, err := parser.NewStringMsgParser().ParseAddress(e)
	sym.Assert(err == nil && b != nil, "the encoding of an address is accepted")
	sym.Assert(b.String() == e, "the encoding of an address reads back as itself")
}

// H_P12_host: names, IPv4 and IPv6 addresses with any letter or digit, alone or with a port of 1..5 digits, given to
// ParseHost and ParseHostPort.
func H_P12_host() {
	c := sym.StringIn(1, alnum)
	name := ""
	switch sym.Choice(4) {
	case 0:
		name = c
	case 1:
		name = c + "-x." + c
	case 2:
		name = "10." + sym.StringIn(1, digits) + ".0.1"
	case 3:
		name = "[2001::" + sym.StringIn(1, digits+"abcdefABCDEF") + "]"
	}
	m := parser.NewStringMsgParser()
	h, err := m.ParseHost(name)
	sym.Assert(err == nil && h != nil, "a host is accepted")
	sym.Assert(h.GetHostName() == name && h.String() == name, "a host is as written")
	text, want := name, -1
	if sym.Bool() {
		p := sym.StringIn(1+sym.Choice(5), digits)
		text += ":" + p
		want, _ = strconv.Atoi(p)
	}
	hp, err := m.ParseHostPort(text)
	sym.Assert(err == nil && hp != nil, "a host and port is accepted")
	sym.Assert(hp.GetHost().String() == name && hp.GetPort() == want && hp.HasPort() == (want >= 0), "host and port are as written")
	_, err = m.ParseHost(sym.Pick("", ":", "@", "[::1", "<a>", " "))
	sym.Assert(err != nil, "what is no host is refused")
}

// H_P12_mixed: one parser used for a header, a first line and an address between two messages reads the second as a
// fresh one does.
func H_P12_mixed() {
	c := sym.StringIn(1, alnum)
	p := parser.NewStringMsgParser()
	if sym.Bool() {
		p.ParseSIPMessage("INVITE sip:a SIP/2.0\r\nl: 1\r\n\r\nx")
	}
	switch sym.Choice(5) {
	case 0:
		p.ParseSIPHeader("Subject: " + c)
	case 1:
		p.ParseSIPHeader(c)
	case 2:
		p.ParseSIPRequestLine(c)
	case 3:
		p.ParseSIPStatusLine("SIP/2.0 " + c)
	case 4:
		p.ParseAddress("<sip:" + c)
	}
	s := "ACK sip:" + c + " SIP/2.0\r\nSubject: " + c + "\r\nl: 2\r\n\r\n" + c + c
	m, err := p.ParseSIPMessage(s)
	sym.Assert(err == nil && m != nil, "a message is accepted")
	sym.Assert(encoded(m) == "ACK sip:"+c+" SIP/2.0\r\nSubject: "+c+"\r\nContent-Length: 2\r\n\r\n"+c+c, "a message is read the same whatever was read before")
}

// onLexer is the header parsers made on a lexer, by header name.
func onLexer() map[string]func(core.Lexer) parser.Parser {
	return map[string]func(core.Lexer) parser.Parser{
		"Via":                 func(l core.Lexer) parser.Parser { return parser.NewViaParserFromLexer(l) },
		"From":                func(l core.Lexer) parser.Parser { return parser.NewFromParserFromLexer(l) },
		"To":                  func(l core.Lexer) parser.Parser { return parser.NewToParserFromLexer(l) },
		"Call-ID":             func(l core.Lexer) parser.Parser { return parser.NewCallIDParserFromLexer(l) },
		"CSeq":                func(l core.Lexer) parser.Parser { return parser.NewCSeqParserFromLexer(l) },
		"Contact":             func(l core.Lexer) parser.Parser { return parser.NewContactParserFromLexer(l) },
		"Route":               func(l core.Lexer) parser.Parser { return parser.NewRouteParserFromLexer(l) },
		"Record-Route":        func(l core.Lexer) parser.Parser { return parser.NewRecordRouteParserFromLexer(l) },
		"Max-Forwards":        func(l core.Lexer) parser.Parser { return parser.NewMaxForwardsParserFromLexer(l) },
		"Content-Length":      func(l core.Lexer) parser.Parser { return parser.NewContentLengthParserFromLexer(l) },
		"Content-Type":        func(l core.Lexer) parser.Parser { return parser.NewContentTypeParserFromLexer(l) },
		"Content-Encoding":    func(l core.Lexer) parser.Parser { return parser.NewContentEncodingParserFromLexer(l) },
		"Content-Language":    func(l core.Lexer) parser.Parser { return parser.NewContentLanguageParserFromLexer(l) },
		"Content-Disposition": func(l core.Lexer) parser.Parser { return parser.NewContentDispositionParserFromLexer(l) },
		"Accept":              func(l core.Lexer) parser.Parser { return parser.NewAcceptParserFromLexer(l) },
		"Accept-Encoding":     func(l core.Lexer) parser.Parser { return parser.NewAcceptEncodingParserFromLexer(l) },
		"Accept-Language":     func(l core.Lexer) parser.Parser { return parser.NewAcceptLanguageParserFromLexer(l) },
		"Allow":               func(l core.Lexer) parser.Parser { return parser.NewAllowParserFromLexer(l) },
		"Allow-Events":        func(l core.Lexer) parser.Parser { return parser.NewAllowEventsParserFromLexer(l) },
		"Event":               func(l core.Lexer) parser.Parser { return parser.NewEventParserFromLexer(l) },
		"Expires":             func(l core.Lexer) parser.Parser { return parser.NewExpiresParserFromLexer(l) },
		"Min-Expires":         func(l core.Lexer) parser.Parser { return parser.NewMinExpiresParserFromLexer(l) },
		"Require":             func(l core.Lexer) parser.Parser { return parser.NewRequireParserFromLexer(l) },
		"Proxy-Require":       func(l core.Lexer) parser.Parser { return parser.NewProxyRequireParserFromLexer(l) },
		"Supported":           func(l core.Lexer) parser.Parser { return parser.NewSupportedParserFromLexer(l) },
		"Unsupported":         func(l core.Lexer) parser.Parser { return parser.NewUnsupportedParserFromLexer(l) },
		"In-Reply-To":         func(l core.Lexer) parser.Parser { return parser.NewInReplyToParserFromLexer(l) },
		"Subject":             func(l core.Lexer) parser.Parser { return parser.NewSubjectParserFromLexer(l) },
		"Organization":        func(l core.Lexer) parser.Parser { return parser.NewOrganizationParserFromLexer(l) },
		"Priority":            func(l core.Lexer) parser.Parser { return parser.NewPriorityParserFromLexer(l) },
		"User-Agent":          func(l core.Lexer) parser.Parser { return parser.NewUserAgentParserFromLexer(l) },
		"Server":              func(l core.Lexer) parser.Parser { return parser.NewServerParserFromLexer(l) },
		"Date":                func(l core.Lexer) parser.Parser { return parser.NewDateParserFromLexer(l) },
		"Timestamp":           func(l core.Lexer) parser.Parser { return parser.NewTimeStampParserFromLexer(l) },
		"Retry-After":         func(l core.Lexer) parser.Parser { return parser.NewRetryAfterParserFromLexer(l) },
		"MIME-Version":        func(l core.Lexer) parser.Parser { return parser.NewMimeVersionParserFromLexer(l) },
		"RSeq":                func(l core.Lexer) parser.Parser { return parser.NewRSeqParserFromLexer(l) },
		"RAck":                func(l core.Lexer) parser.Parser { return parser.NewRAckParserFromLexer(l) },
		"Reason":              func(l core.Lexer) parser.Parser { return parser.NewReasonParserFromLexer(l) },
		"Warning":             func(l core.Lexer) parser.Parser { return parser.NewWarningParserFromLexer(l) },
		"Subscription-State":  func(l core.Lexer) parser.Parser { return parser.NewSubscriptionStateParserFromLexer(l) },
		"Reply-To":            func(l core.Lexer) parser.Parser { return parser.NewReplyToParserFromLexer(l) },
		"Refer-To":            func(l core.Lexer) parser.Parser { return parser.NewReferToParserFromLexer(l) },
		"Call-Info":           func(l core.Lexer) parser.Parser { return parser.NewCallInfoParserFromLexer(l) },
		"Alert-Info":          func(l core.Lexer) parser.Parser { return parser.NewAlertInfoParserFromLexer(l) },
		"Error-Info":          func(l core.Lexer) parser.Parser { return parser.NewErrorInfoParserFromLexer(l) },
		"WWW-Authenticate":    func(l core.Lexer) parser.Parser { return parser.NewWWWAuthenticateParserFromLexer(l) },
		"Proxy-Authenticate":  func(l core.Lexer) parser.Parser { return parser.NewProxyAuthenticateParserFromLexer(l) },
		"Authorization":       func(l core.Lexer) parser.Parser { return parser.NewAuthorizationParserFromLexer(l) },
		"Proxy-Authorization": func(l core.Lexer) parser.Parser { return parser.NewProxyAuthorizationParserFromLexer(l) },
		"Authentication-Info": func(l core.Lexer) parser.Parser { return parser.NewAuthenticationInfoParserFromLexer(l) },
	}
}

// H_P12_lexer: a header of each of 51 kinds, its body with 0..1 (2) more bytes, standing at the start of a lexer's text
// or behind a CSeq header on it: the parser made on the lexer reads what the parser made on the line reads.
func H_P12_lexer() {
	all := names()
	n := all[sym.Choice(len(all))]
	line := n.name + sym.Pick(": ", ":", " : ") + n.body + tail(sym.Bound(1, 2))
	f, ok := onLexer()[n.name]
	sym.Assert(ok, "the table has every kind")
	l := parser.NewSIPLexer("charLexer", line+"\n")
	if sym.Bool() {
		c := sym.StringIn(1, digits)
		l = parser.NewSIPLexer("charLexer", "CSeq: "+c+" ACK\n"+line+"\n")
		first, err := parser.NewCSeqParserFromLexer(l).Parse()
		sym.Assert(err == nil && first != nil && first.String() == "CSeq: "+c+" ACK\r\n", "the first header on a lexer is read")
	}
	h, err := f(l).Parse()
	g, err2 := parse(line)
	if sameHeader(h, err, g, err2) {
		sym.Reach("accepted")
		return
	}
	sym.Reach("refused")
}
