package parser

import (
	"errors"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

func parseMessage(s string) (message.Message, error) {
	return parser.NewStringMsgParser().ParseSIPMessage(s)
}

func encoded(m message.Message) string {
	switch m := m.(type) {
	case *message.SIPRequest:
		return m.String()
	case *message.SIPResponse:
		return m.String()
	}
	sym.Fail("a message is a request or a response")
	return ""
}

func encodedBytes(m message.Message) string {
	switch m := m.(type) {
	case *message.SIPRequest:
		return string(m.EncodeAsBytes())
	case *message.SIPResponse:
		return string(m.EncodeAsBytes())
	}
	return ""
}

// anyMessage: the text is refused with an error and no message, or read as a message; only text of nothing but CR and
// LF gives neither.
func anyMessage(s string) message.Message {
	m, err := parseMessage(s)
	if err != nil {
		sym.Assert(m == nil, "no message with an error")
		sym.Reach("refused")
		return nil
	}
	blank := true
	for i := 0; i < len(s); i++ {
		blank = sym.And(blank, sym.Or(s[i] == '\r', s[i] == '\n'))
	}
	if m == nil {
		sym.Assert(blank, "only CR and LF give neither message nor error")
		sym.Reach("nothing")
		return nil
	}
	sym.Assert(!blank, "CR and LF alone are no message")
	sym.Reach("accepted")
	return m
}

// H_P04_any: any 0..6 (8) bytes.
func H_P04_any() { anyMessage(sym.String(sym.Choice(sym.Bound(7, 9)))) }

// skeleton is a request or response in pieces; bytes may stand between any two.
func skeleton() []string {
	if sym.Bool() {
		return []string{"INVITE", " ", "sip:a", " ", "SIP/2.0", "\r\n", "v:", "SIP/2.0/UDP h", "\r\n", "l: ", "2", "\r\n", "\r\n", "xy", ""}
	}
	return []string{"SIP/2.0", " ", "200", " OK", "\r\n", "s:", "t", "\r\n", "CSeq: ", "1", " BYE", "\n", "l:", "1", "\n", "\n", "x", "yz"}
}

// H_P04_window: any 1..3 (4) bytes at any of 16 places in a request and 19 in a response.
func H_P04_window() {
	k := skeleton()
	at := sym.Choice(len(k) + 1)
	s := ""
	for i := 0; i <= len(k); i++ {
		if i == at {
			s += sym.String(1 + sym.Choice(sym.Bound(3, 4)))
		}
		if i < len(k) {
			s += k[i]
		}
	}
	if m := anyMessage(s); m != nil {
		sym.Assert(encoded(m) == encodedBytes(m), "a message has the same text and bytes")
	}
}

// H_P04_cut: a request and a response cut off anywhere.
func H_P04_cut() {
	s := ""
	for _, p := range skeleton() {
		s += p
	}
	anyMessage(s[:sym.Choice(len(s)+1)])
}

type listener struct {
	err   error
	calls int
	text  string
	body  bool
}

func (l *listener) HandleException(err error, m message.Message, headerText, messageText string) error {
	sym.Assert(err != nil && m != nil, "a listener gets the error and the message")
	l.calls++
	l.text = strings.TrimSuffix(headerText, "\n")
	return l.err
}

// H_P04_listener: a request with a header line of a bad number (any 1..2 (3) letters) at any of 3 places, read with a
// listener that ignores or refuses it.
func H_P04_listener() {
	lines := []string{"v: SIP/2.0/UDP h\r\n", "s: t\r\n"}
	bad := "CSeq: " + sym.StringIn(1+sym.Choice(sym.Bound(2, 3)), alpha)
	at := sym.Choice(3)
	s := "OPTIONS sip:a SIP/2.0\r\n"
	for i := 0; i <= 2; i++ {
		if i == at {
			s += bad + "\r\n"
		}
		if i < 2 {
			s += lines[i]
		}
	}
	s += "l: 1\r\n\r\nx"
	l := &listener{}
	if sym.Bool() {
		l.err = errors.New("refused")
	}
	p := parser.NewStringMsgParser()
	p.SetParseExceptionListener(l)
	m, err := p.ParseSIPMessage(s)
	sym.Assert(l.calls == 1 && l.text == bad, "a listener gets each bad line")
	if l.err != nil {
		sym.Assert(m == nil && err == l.err, "the listener's error is returned")
		return
	}
	sym.Assert(err == nil && m != nil, "an ignored line does not stop the parser")
	r := m.(*message.SIPRequest)
	sym.Assert(r.GetCSeq() == nil && r.GetViaHeaders().Len() == 1 && r.HasHeader("Subject"), "the other headers are there")
	sym.Assert(m.GetContent() == "x", "the body is there")
	m, err = parseMessage(s)
	sym.Assert(m == nil && err != nil, "without listener a bad line is an error")
}

// H_P04_listener_first: a bad first line (a method of any 1..2 characters and no URI), with a listener.
func H_P04_listener_first() {
	bad := sym.Pick("SIP/2.0 x", "SIP/1.0 200", sym.StringIn(1+sym.Choice(2), alnum)+" SIP/2.0")
	l := &listener{}
	if sym.Bool() {
		l.err = errors.New("refused")
	}
	p := parser.NewStringMsgParser()
	p.SetParseExceptionListener(l)
	m, err := p.ParseSIPMessage(bad + "\r\ns: t\r\n\r\n")
	sym.Assert(l.calls == 1 && l.text == bad, "a listener gets the bad first line")
	if l.err != nil {
		sym.Assert(m == nil && err == l.err, "the listener's error is returned")
		return
	}
	sym.Assert(err == nil && m != nil, "an ignored line does not stop the parser")
	sym.Assert(m.GetHeader("Subject") != nil, "the headers are there")
	_ = encoded(m)
}

// a header line, what it is encoded as, and the header's name ("" for one that is never joined with others)
type line struct{ text, name, body string }

func anyHeader() line {
	c := sym.StringIn(1, alnum)
	switch sym.Choice(9) {
	case 0:
		return line{sym.Pick("Via", "v") + ": SIP/2.0/UDP " + c, "Via", "SIP/2.0/UDP " + c}
	case 1:
		return line{"f: <sip:" + c + "@b>;tag=1", "", "From: <sip:" + c + "@b>;tag=1"}
	case 2:
		return line{"To:<sip:" + c + "@b>", "", "To: <sip:" + c + "@b>"}
	case 3:
		return line{"i: " + c + "@h", "", "Call-ID: " + c + "@h"}
	case 4:
		return line{"Record-Route : <sip:" + c + ";lr>", "Record-Route", "<sip:" + c + ";lr>"}
	case 5:
		return line{"m: <sip:" + c + ">;q=0.5", "Contact", "<sip:" + c + ">;q=0.5"}
	case 6:
		return line{"k: " + c, "Supported", c}
	case 7:
		return line{"Subject: " + c, "", "Subject: " + c}
	}
	c += sym.StringIn(1, "\t ,;:(\"@<1") + "z"
	return line{"X-Y: " + c, "X-Y", c}
}

// H_P05_lines: a request or response with 0..2 (3) header lines of 9 kinds in any order, the same kind also several times,
// each with any letter or digit (an unknown header also a blank, tab or separator), and a body of 0..1 bytes, with CRLF or LF.
func H_P05_lines() {
	eol := sym.Pick("\r\n", "\n")
	first := sym.Pick("INVITE sip:a@b SIP/2.0", "SIP/2.0 200 OK")
	s := first + eol
	want := first + "\r\n"
	var ls []line
	for i := sym.Choice(sym.Bound(3, 4)); i > 0; i-- {
		l := anyHeader()
		s += l.text + eol
		ls = append(ls, l)
	}
	body := sym.String(sym.Choice(2))
	s += "l: " + strconv.Itoa(len(body)) + eol + eol + body
	for i, l := range ls {
		dup := false
		for _, k := range ls[:i] {
			dup = dup || k.name == l.name && (l.name != "" || k.body[:3] == l.body[:3])
		}
		switch {
		case l.name == "X-Y":
			if !dup {
				for _, k := range ls[i:] {
					if k.name == l.name {
						want += "X-Y: " + k.body + "\r\n"
					}
				}
			}
		case dup:
		case l.name == "":
			want += l.body + "\r\n"
		default:
			want += l.name + ": " + l.body
			for _, k := range ls[i+1:] {
				if k.name == l.name {
					want += "," + k.body
				}
			}
			want += "\r\n"
		}
	}
	want += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
	m, err := parseMessage(s)
	sym.Assert(err == nil && m != nil, "a message is accepted")
	e := encoded(m)
	sym.Assert(e == want, "a message is encoded with all its headers in order, and its body")
	sym.Assert(encodedBytes(m) == e, "a message has the same text and bytes")
	m, err = parseMessage(e)
	sym.Assert(err == nil && m != nil, "the encoding of a message is accepted")
	sym.Assert(encoded(m) == e, "the encoding of a message reads back as the same message")
}

// H_P05_window: a message with any 1..2 (3) bytes more at any of 16 places in a request and 19 in a response, if it is
// accepted.
func H_P05_window() {
	k := skeleton()
	at := sym.Choice(len(k) + 1)
	s := ""
	for i := 0; i <= len(k); i++ {
		if i == at {
			s += sym.String(1 + sym.Choice(sym.Bound(2, 3)))
		}
		if i < len(k) {
			s += k[i]
		}
	}
	m, err := parseMessage(s)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	e := encoded(m)
	m, err = parseMessage(e)
	sym.Assert(err == nil && m != nil, "the encoding of a message is accepted")
	sym.Assert(encoded(m) == e, "the encoding of a message reads back as the same message")
}

// H_P05_lowercase: a request whose method has small letters.
func H_P05_lowercase() {
	m, err := parseMessage("baz sip:a SIP/2.0\r\nCSeq: 1 baz\r\n\r\n")
	sym.Assert(err == nil, "a message is accepted")
	_, err = parseMessage(encoded(m))
	sym.Assert(err == nil, "the encoding of a request with a small letter method is accepted")
}

// H_P06_body: a body of 0..3 (5) bytes of any value, a Content-Length of 1..2 digits and 0..2 bytes that follow, in
// CRLF or LF form.
func H_P06_body() {
	eol := sym.Pick("\r\n", "\n")
	b := sym.String(sym.Choice(sym.Bound(4, 6)))
	d := sym.StringIn(1+sym.Choice(2), digits)
	n := 0
	for i := 0; i < len(d); i++ {
		n = n*10 + int(d[i]-'0')
	}
	m, err := parseMessage("INVITE sip:a SIP/2.0" + eol + sym.Pick("Content-Length", "l") + ": " + d + eol + eol + b)
	if n > len(b) {
		sym.Assert(err != nil && m == nil, "a body shorter than its Content-Length is refused")
		return
	}
	sym.Assert(err == nil && m != nil, "a message is accepted")
	n = sym.ConcretizeInt(n)
	sym.Assert(m.GetContent() == b[:n], "the body is what follows the empty line, as long as Content-Length says")
	r := m.(*message.SIPRequest)
	sym.Assert(r.HasContent() == (n > 0) && r.GetMessageContent() == b[:n], "the body is what follows the empty line, as long as Content-Length says")
	sym.Assert(m.GetContentLength().GetContentLength() == n, "a message has its Content-Length")
	e := encoded(m)
	sym.Assert(len(e) >= n && e[len(e)-n:] == b[:n], "the body is encoded as it is")
}

// H_P06_large: a Content-Length around 2**16, 2**31, 2**32 or 2**63 with any last 2 (3) digits, or of 20 digits, before
// a body of 3 bytes is refused.
func H_P06_large() {
	n := sym.Bound(2, 3)
	d := sym.Pick("65536", "2147483647", "4294967300", "9223372036854775807", "18446744073709551616")
	d = sym.Pick("", "0") + d[:len(d)-n] + sym.StringIn(n, digits)
	m, err := parseMessage("INVITE sip:a SIP/2.0\r\nContent-Length: " + d + "\r\n" + sym.Pick("", "s: t\r\n") + "\r\nabc")
	sym.Assert(err != nil && m == nil, "a body shorter than its Content-Length is refused")
}

// H_P06_buffer: a message read from bytes that are overwritten afterwards stays as it is.
func H_P06_buffer() {
	b := sym.String(2)
	s := sym.Pick("INVITE sip:a SIP/2.0\r\ns: t\r\nl: 2\r\n\r\n", "SIP/2.0 200 OK\r\nl: 2\r\nX-Y: z\r\n\r\n") + b
	buf := []byte(s + sym.Pick("", "xyz"))
	m, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(buf)
	sym.Assert(err == nil && m != nil, "a message is accepted")
	asked := sym.Bool()
	if asked {
		sym.Assert(m.GetContent() == b, "the body is what follows the empty line")
	}
	c := sym.Byte()
	for i := range buf {
		buf[i] = c
	}
	sym.Assert(m.GetContent() == b, "the body does not change with the bytes it was read from")
	f, err := parseMessage(s)
	sym.Assert(err == nil && encoded(m) == encoded(f), "a message does not change with the bytes it was read from")
}

// H_P06_absent: without Content-Length (0..3 bytes after the empty line), the body is empty; of two lengths the last
// one counts.
func H_P06_absent() {
	b := sym.String(sym.Choice(4))
	m, err := parseMessage("SIP/2.0 200 OK\r\ns: t\r\n\r\n" + b)
	sym.Assert(err == nil && m != nil, "a message is accepted")
	sym.Assert(m.GetContent() == "" && m.GetContentLength().GetContentLength() == 0, "without Content-Length there is no body")
	m, err = parseMessage("SIP/2.0 200 OK\r\nl: 2\r\nl: 3\r\n\r\n" + b)
	if len(b) < 3 {
		sym.Assert(err != nil && m == nil, "a body shorter than its Content-Length is refused")
	} else {
		sym.Assert(err == nil && m.GetContent() == b, "the last Content-Length counts")
	}
}

// H_P06_again: a parser that has read one message reads another as a new parser does.
func H_P06_again() {
	p := parser.NewStringMsgParser()
	b := sym.String(2)
	p.ParseSIPMessage(sym.Pick("INVITE sip:a SIP/2.0\r\nl: 2\r\n\r\nxy", "INVITE sip:a SIP/2.0\r\nl: 9\r\n\r\nxy", "x", "\r\n", "INVITE sip:a SIP/2.0\r\nl: 1\r\ns: t\r\nk: 1\r\n\r\nxyz"))
	s := sym.Pick("", "\r\n", "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n") + "SIP/2.0 200 OK\r\nl: 2\r\n\r\n" + b
	if sym.Bool() {
		s += b // is not read
	}
	if sym.Bool() { // once more
		p.ParseSIPMessage("BYE sip:a SIP/2.0\r\nl: 1" + sym.StringIn(1, digits) + "\r\n\r\nxyz")
	}
	m, err := p.ParseSIPMessage(s)
	sym.Assert(err == nil && m.GetContent() == b, "a parser reads one message after another")
	sym.Assert(encoded(m) == "SIP/2.0 200 OK\r\nContent-Length: 2\r\n\r\n"+b, "a parser reads one message after another")
}

// a method in capital letters: 7 known ones, 1..2 (3) other characters, or a known one and one character more.
func method() string {
	set := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~"
	switch sym.Choice(4) {
	case 0:
		return sym.Pick("INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "INFO", "NOTIFY", "SUBSCRIBE", "PRACK", "REFER", "MESSAGE", "UPDATE", "PUBLISH")
	case 1:
		return sym.Pick("INVITE", "BYE") + sym.StringIn(1, set)
	}
	return sym.StringIn(1+sym.Choice(sym.Bound(2, 3)), set)
}

// H_P07_request: methods of 14 names, 1..2 (3) other token characters without small letters, or a known name and one
// more character; 4 URIs with any user character; blanks; a CSeq of the same method, another or none.
func H_P07_request() {
	mth := method()
	u := sym.Pick("sip:h", "sip:"+sym.StringIn(1, alnum)+"@h:5061;transport=tcp?a=b", "tel:+1-"+sym.StringIn(1, digits), "sips:a@b")
	m, err := parseMessage(mth + sym.Pick(" ", "  ", "\t") + u + sym.Pick(" ", " \t") + "SIP/2.0" + sym.Pick("", " ") + "\r\nl: 0\r\n\r\n")
	sym.Assert(err == nil && m != nil, "a request is accepted")
	r, ok := m.(*message.SIPRequest)
	sym.Assert(ok, "a request is a request")
	sym.Assert(r.GetMethod() == mth, "a request has its method")
	sym.Assert(r.GetRequestURI() != nil && r.GetRequestURI().String() == u, "a request has its URI")
	sym.Assert(m.GetSIPVersion() == "SIP/2.0", "a message has its version")
	sym.Assert(r.GetFirstLine() == mth+" "+u+" SIP/2.0\r\n", "a first line is encoded as it is")
}

// H_P07_lowercase: the method of 14 names in any case or 1..3 letters, with no CSeq.
func H_P07_lowercase() {
	mth := ""
	if sym.Bool() {
		mth = anyCase(sym.Pick("INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "INFO", "NOTIFY", "SUBSCRIBE", "PRACK", "REFER", "MESSAGE", "UPDATE", "PUBLISH"))
	} else {
		mth = sym.StringIn(1+sym.Choice(3), alpha)
	}
	m, err := parseMessage(mth + " sip:h SIP/2.0\r\nl: 0\r\n\r\n")
	sym.Assert(err == nil && m != nil, "a request is accepted")
	r, ok := m.(*message.SIPRequest)
	sym.Assert(ok && r.GetMethod() == mth && r.GetRequestURI().String() == "sip:h", "a request has its method and URI")
}

// H_P07_version: request and status lines with a version of 0..4 (5) digits, dots and other characters, or SIP/2.0 and
// 1..2 more, other than SIP/2.0 are refused.
func H_P07_version() {
	v := ""
	if sym.Bool() {
		v = sym.StringIn(sym.Choice(sym.Bound(5, 6)), digits+".+-x")
		sym.Assume(v != "2.0")
	} else {
		v = "2.0" + sym.StringIn(1+sym.Choice(2), tokenChars+"/:;,")
	}
	m, err := parseMessage(sym.Pick("BYE sip:a SIP/"+v, "SIP/"+v+" 200 OK", "BYE sip:a "+sym.Pick("sip", "SIPS", "HTTP", "")+"/2.0", "SI/2.0 200 OK") + "\r\nl: 0\r\n\r\n")
	sym.Assert(err != nil && m == nil, "another version is refused")
}

// H_P07_cseq: two methods of 1..2 characters or names, or one and itself in any case; the request is refused iff that of CSeq is not that of the
// request.
func H_P07_cseq() {
	a, b := "", ""
	if sym.Bool() {
		a, b = method(), method()
	} else {
		a = sym.Pick("INVITE", "ACK", "X", "A1-b")
		b = anyCase(a)
	}
	m, err := parseMessage(a + " sip:h SIP/2.0\r\nCSeq: 7 " + b + "\r\n\r\n")
	if a == b {
		sym.Assert(err == nil && m != nil, "a request with its method in CSeq is accepted")
		c := m.(*message.SIPRequest).GetCSeq()
		sym.Assert(c != nil && c.GetMethod() == b && c.GetSequenceNumber() == 7, "a CSeq has its number and method")
	} else {
		sym.Assert(err != nil && m == nil, "a request with another method in CSeq is refused")
	}
	m, err = parseMessage("SIP/2.0 200 OK\r\nCSeq: 7 " + b + "\r\n\r\n")
	sym.Assert(err == nil && m.(*message.SIPResponse).GetCSeq().GetMethod() == b, "a response has any method in CSeq")
}

// H_P07_cseqs: a request with two or three CSeq lines is refused when any of them has another method.
func H_P07_cseqs() {
	b := sym.StringIn(3, "AB")
	n := 2 + sym.Choice(2)
	text := "AAA sip:h SIP/2.0\r\n"
	bad := sym.Choice(n + 1)
	for i := 0; i < n; i++ {
		m := "AAA"
		if i == bad {
			sym.Assume(b != "AAA")
			m = b
		}
		text += "CSeq: " + sym.StringIn(1, digits) + " " + m + "\r\n" + sym.Pick("", "s: t\r\n")
	}
	m, err := parseMessage(text + "\r\n")
	if bad == n {
		sym.Assert(err == nil && m != nil, "a request with its method in each CSeq is accepted")
	} else {
		sym.Assert(err != nil && m == nil, "a request with another method in a CSeq is refused")
	}
}

// H_P07_status: status codes of 3 digits, reason phrases of 0..3 (5) bytes other than CR and LF.
func H_P07_status() {
	d := sym.StringIn(3, digits)
	code := int(d[0]-'0')*100 + int(d[1]-'0')*10 + int(d[2]-'0')
	reason := sym.String(sym.Choice(sym.Bound(4, 6)))
	for i := 0; i < len(reason); i++ {
		sym.Assume(sym.And(reason[i] != '\n', reason[i] != '\r'))
		sym.Assume(reason[i] < 0x80)
		if i == 0 || i == len(reason)-1 {
			sym.Assume(reason[i] > ' ')
		}
	}
	m, err := parseMessage("SIP/2.0" + sym.Pick(" ", "\t") + d + sym.Pick(" ", "  ") + reason + sym.Pick("", " ") + "\r\n\r\n")
	sym.Assert(err == nil && m != nil, "a response is accepted")
	r, ok := m.(*message.SIPResponse)
	sym.Assert(ok, "a response is a response")
	sym.Assert(r.GetStatusCode() == code, "a response has its status code")
	sym.Assert(r.GetReasonPhrase() == reason, "a response has its reason phrase")
	sym.Assert(m.GetSIPVersion() == "SIP/2.0", "a message has its version")
}

// anyFirst: a first line is refused or encoded as one line that reads back as itself.
func anyFirst(s string) {
	m := anyMessage(s + "\r\ns: t\r\n\r\n")
	if m == nil {
		return
	}
	var e string
	switch m := m.(type) {
	case *message.SIPRequest:
		e = m.GetFirstLine()
		sym.Assert(m.GetMethod() != "" && m.GetRequestURI() != nil && m.GetSIPVersion() == "SIP/2.0", "a request has a method, a URI and the version SIP/2.0")
	case *message.SIPResponse:
		e = m.GetFirstLine()
		sym.Assert(m.GetStatusCode() >= 0 && m.GetSIPVersion() == "SIP/2.0", "a response has a code and the version SIP/2.0")
	}
	oneLine(e)
	g, err := parseMessage(e + "s: t\r\n\r\n")
	sym.Assert(err == nil && g != nil, "the encoding of a first line is accepted")
	sym.Assert(encoded(g) == encoded(m), "the encoding of a first line reads back as itself")
}

// H_P07_first: any 0..3 (4) bytes but CR and LF before, after and within a request line and a status line.
func H_P07_first() {
	w := sym.String(sym.Choice(sym.Bound(4, 5)))
	for i := 0; i < len(w); i++ {
		sym.Assume(sym.And(w[i] != '\n', w[i] != '\r'))
	}
	switch sym.Choice(11) {
	case 0:
		anyFirst(w + "BYE sip:a SIP/2.0")
	case 1:
		anyFirst("BYE" + w + " sip:a SIP/2.0")
	case 2:
		anyFirst("BYE " + w + " SIP/2.0")
	case 3:
		anyFirst("BYE sip:" + w + " SIP/2.0")
	case 4:
		anyFirst("BYE sip:a" + w + " SIP/2.0")
	case 5:
		anyFirst("BYE sip:a SIP" + w + "/2.0")
	case 6:
		anyFirst("BYE sip:a SIP/" + w)
	case 7:
		anyFirst("BYE sip:a SIP/2.0" + w)
	case 8:
		anyFirst("SIP/2.0" + w)
	case 9:
		anyFirst("SIP/2.0 " + w)
	case 10:
		anyFirst("SIP/2.0 20" + w + " OK")
	}
}

// H_P08_eol: a request with CRLF or LF at each of its 5 line ends, and 0..4 empty lines before it, is one and the same.
func H_P08_eol() {
	eol := func() string {
		if sym.Bool() {
			return "\r\n"
		}
		return "\n"
	}
	s := ""
	for i := sym.Choice(5); i > 0; i-- {
		s += sym.Pick("\r\n", "\n", "\r")
	}
	c := sym.StringIn(1, alnum)
	m, err := parseMessage(s + "INVITE sip:a SIP/2.0" + eol() + "s: " + c + eol() + "l: 2" + eol() + eol() + "xy")
	sym.Assert(err == nil && m != nil, "a message is accepted")
	sym.Assert(encoded(m) == "INVITE sip:a SIP/2.0\r\nSubject: "+c+"\r\nContent-Length: 2\r\n\r\nxy", "line ends and empty lines before a message do not matter")
}

// H_P08_fold: a header folded at any one or at all of 4 places before or after its separators, with 1..3 blanks or tabs,
// is the header in one line.
func H_P08_fold() {
	p := []string{"Contact:", "<sip:a@b>;q=0.5", "  , <sip:c>", ";expires=" + sym.StringIn(1, digits), "\r\n"}
	s, want := p[0], p[0]
	at := sym.Choice(5) // 0 is everywhere
	fold := sym.Pick("\r\n", "\n") + sym.Pick(" ", "\t") + sym.Pick("", " ", "\t", "  ")
	for i := 1; i < len(p); i++ {
		if i == at || at == 0 {
			s += fold
		}
		s += p[i]
		want += p[i]
	}
	m, err := parseMessage("INVITE sip:a SIP/2.0\r\n" + s + "s: t\r\n\r\n")
	sym.Assert(err == nil && m != nil, "a folded header is accepted")
	g, err := parseMessage("INVITE sip:a SIP/2.0\r\n" + want + "s: t\r\n\r\n")
	sym.Assert(err == nil && g != nil, "a header is accepted")
	sym.Assert(encoded(m) == encoded(g), "a folded header is the header in one line")
	sym.Assert(m.GetHeader("Subject") != nil, "the next header is there")
}

// H_P08_foldtext: a Subject folded once or twice after any of 1..2 visible characters and 0..2 blanks, with the blanks of the next line
// but one kept.
func H_P08_foldtext() {
	a, b := visible(1+sym.Choice(2))+sym.Pick("", " ", "\t", "  "), visible(1)
	k := sym.Choice(3)
	w := ""
	for i := 0; i < k; i++ {
		w += sym.Pick(" ", "\t")
	}
	m, err := parseMessage("INVITE sip:a SIP/2.0\r\ns: " + a + sym.Pick("\r\n", "\n") + sym.Pick(" ", "\t") + w + b + "\r\n\r\n")
	sym.Assert(err == nil && m != nil, "a folded header is accepted")
	h, ok := m.GetHeader("Subject").(*header.Subject)
	sym.Assert(ok && h.GetSubject() == a+w+b, "a folded text has the blanks of its next line but the first")
}

// visible is n visible ASCII characters.
func visible(n int) string {
	s := sym.String(n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] > ' ', s[i] < 0x7f))
	}
	return s
}
