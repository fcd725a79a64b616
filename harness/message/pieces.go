package message

import (
	"container/list"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

// lines asserts that the encoded strings of a message are its first line, if any, and its headers one by one, those of one
// name in order and names in the order of the message.
func lines(l *list.List, first string, m headers, c content) {
	e := l.Front()
	next := func(want string) {
		sym.Assert(e != nil && e.Value.(string) == want, "the encoded strings of a message are its lines")
		e = e.Next()
	}
	if first != "" {
		next(first + "\r\n")
	}
	for n := m.GetHeaderNames().Front(); n != nil; n = n.Next() {
		for _, v := range c.get(n.Value.(string)) {
			next(n.Value.(string) + ": " + v + "\r\n")
		}
	}
	sym.Assert(e == nil, "the encoded strings of a message are its lines")
}

// H_M10_request: built requests lacking none or one of the usual headers, with extra headers of any two kinds, encoded as
// strings, and their text and the text of their strings read again.
func H_M10_request() {
	a, b := one2()
	lack := 0
	if a == 0 {
		lack = sym.Choice(7)
	}
	d := shape(a)
	m := requestOf(d, lack, a, b)
	first := d.method + " " + d.target + " SIP/2.0"
	c := d.content
	sym.Assert(m.GetFirstLine() == first+"\r\n", "the first line of a request")
	lines(m.GetMessageAsEncodedStrings(), first, m, c)
	text := m.String()
	q := parse(text).(*message.SIPRequest)
	sym.Assert(q.String() == text, "a built request is read as it was")
	c.holds(q, "a built request is read as it was")
	sym.Assert(q.GetMessageContent() == d.body && q.GetMethod() == d.method && q.GetRequestURI().String() == d.target, "a built request is read as it was")
	sym.Assert(q.GetTransactionId() == m.GetTransactionId() && q.GetDialogId(false) == m.GetDialogId(false) && q.GetDialogId(true) == m.GetDialogId(true), "a built request is read with its identifiers")
	lines(q.GetMessageAsEncodedStrings(), first, q, c)
	sym.Assert(string(q.EncodeAsBytes()) == text, "a built request is read as it was")
}

// H_M10_response: built responses with any code 100..699 in the same way.
func H_M10_response() {
	a, b := one2()
	lack := 0
	if a == 0 {
		lack = sym.Choice(7)
	}
	d := shape(a)
	m := message.NewSIPResponse()
	i := sym.Choice(4)
	code, s := []int{100, 200, 486, 699}[i], []string{"Trying", "", "Busy Here", "x"}[i]
	sym.Assert(m.SetStatusCode(code) == nil, "a code is taken")
	sym.Assert(m.SetReasonPhrase(s) == nil, "a reason is taken")
	attach(m, d, lack, a, b)
	first := "SIP/2.0 " + string([]byte{byte('0' + code/100), byte('0' + code/10%10), byte('0' + code%10)}) + " " + s
	c := d.content
	sym.Assert(m.GetFirstLine() == first+"\r\n", "the first line of a response")
	lines(m.GetMessageAsEncodedStrings(), first, m, c)
	text := m.String()
	q := parse(text).(*message.SIPResponse)
	sym.Assert(q.String() == text, "a built response is read as it was")
	c.holds(q, "a built response is read as it was")
	sym.Assert(q.GetMessageContent() == d.body && q.GetStatusCode() == code && q.GetReasonPhrase() == s, "a built response is read as it was")
	sym.Assert(q.GetTransactionId() == m.GetTransactionId() && q.GetDialogId(false) == m.GetDialogId(false) && q.GetDialogId(true) == m.GetDialogId(true), "a built response is read with its identifiers")
	lines(q.GetMessageAsEncodedStrings(), first, q, c)
}

// userChars are the token characters that a user can have.
const userChars = alnum + "-.!*_+'~"

// H_M10_headers: the headers of a built message, each or whole lists, put into another message at once, and read from the
// message's strings one by one.
func H_M10_headers() {
	a, b := one2()
	d := shape(a)
	m := requestOf(d, 0, a, b)
	l := list.New()
	for n := m.GetHeaderNames().Front(); n != nil; n = n.Next() {
		name := n.Value.(string)
		if h := m.GetSIPHeaderList(name); h != nil {
			l.PushBack(h)
		} else {
			l.PushBack(m.GetHeader(name))
		}
	}
	p := message.NewSIPMessage()
	p.SetHeaders(l)
	d.content.holds(p, "the headers of a message are put into another")
	lines(p.GetMessageAsEncodedStrings(), "", p, d.content)
	r := message.NewSIPMessage()
	for e := m.GetMessageAsEncodedStrings().Front().Next(); e != nil; e = e.Next() {
		h, err := parser.NewStringMsgParser().ParseSIPHeader(e.Value.(string))
		sym.Assert(err == nil, "the string of a header is read")
		r.AttachHeader(h.(header.Header))
	}
	d.content.holds(r, "the headers of a message are read one by one")
}

// shape is any of the 5 shapes of messages, with an extra header one of 2.
func shape(extra int) *dialog {
	n := 0
	if extra == 0 || sym.Thorough() {
		n = sym.Choice(5)
	} else {
		n = 4 * sym.Choice(2)
	}
	return &dialog{variant: n, chars: userChars, method: sym.StringIn([]int{2, 6, 3, 3, 6}[n], upper), target: "sip:r@h"}
}

// one2 is one more header of any kind (thorough: or pairs of special ones).
func one2() (int, int) {
	if sym.Thorough() {
		return pair()
	}
	return sym.Choice(len(every)), 0
}

// H_M10_named: 3 (4) settings of a response's version, a message's content length and its unrecognized lines.
func H_M10_named() {
	r := message.NewSIPResponse()
	q := message.NewSIPRequest()
	q.SetMethod("M")
	m := &r.SIPMessage
	if sym.Bool() {
		m = &q.SIPMessage
	}
	sym.Assert(m.GetContentLength().GetContentLength() == 0 && m.GetUnrecognizedHeaders().Len() == 0, "nothing before it is set")
	sym.Assert(r.GetSIPVersion() == "" && r.GetFirstLine() == "", "nothing before it is set")
	v, n, line := "", 0, false
	var un []string
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(4) {
		case 0:
			v = "SIP/2." + sym.StringIn(1, "0123456789")
			r.SetSIPVersion(v)
			line = true
		case 1:
			n = int(sym.U32() >> 1)
			h := header.NewContentLength()
			sym.Assert(h.SetContentLength(n) == nil, "a length is taken")
			m.SetContentLength(h)
			h.SetContentLength(1)
		case 2:
			s := sym.String(sym.Choice(3))
			un = append(un, s)
			m.AddUnparsed(s)
		case 3:
			sym.Assert(r.SetStatusCode(200) == nil, "a code is taken")
			if !line {
				v = r.GetSIPVersion()
				sym.Assert(v == "SIP/2.0", "the version of a status line")
			}
			line = true
		}
	}
	sym.Assert(r.GetSIPVersion() == v, "the version set last")
	sym.Assert(m.GetContentLength().GetContentLength() == n, "the length set last")
	l := m.GetUnrecognizedHeaders()
	sym.Assert(l.Len() == len(un), "unrecognized lines in order")
	for e, i := l.Front(), 0; e != nil; e, i = e.Next(), i+1 {
		sym.Assert(e.Value.(string) == un[i], "unrecognized lines in order")
	}
}
