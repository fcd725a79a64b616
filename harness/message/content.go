package message

import (
	"strconv"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

// H_M04_content: 3 (4) operations that set, replace or remove the content of a request, response or plain message in any
// of 6 ways, or remove or change its Content-Length or Content-Type, with contents of any 0..2 (3) bytes.
func H_M04_content() {
	m := message.NewSIPMessage()
	str := m.String
	bytes := m.EncodeAsBytes
	first := ""
	switch sym.Choice(3) {
	case 1:
		r := message.NewSIPRequest()
		r.SetMethod("BYE")
		r.SetRequestURI(uri("r"))
		m, str, bytes, first = &r.SIPMessage, r.String, r.EncodeAsBytes, "BYE sip:r@h SIP/2.0\r\n"
	case 2:
		r := message.NewSIPResponse()
		r.SetStatusCode(200)
		r.SetReasonPhrase("OK")
		m, str, bytes, first = &r.SIPMessage, r.String, r.EncodeAsBytes, "SIP/2.0 200 OK\r\n"
	}
	body, kind := "", ""
	fits := true // the Content-Length was not taken away or changed since the content was set
	n := sym.Bound(3, 4)
	late := sym.Bool() // the message is only looked at in the end
	for i := n; i > 0; i-- {
		op := sym.Choice(9)
		s, t := "", ""
		if op < 6 {
			s = sym.String(sym.Choice(sym.Bound(3, 4)))
		}
		if op < 4 {
			t = one()
		}
		ct := header.NewContentTypeFromString(t, "b")
		switch op {
		case 0:
			m.SetMessageContentFromString(t, "b", s)
		case 1:
			m.SetMessageContent3(t, "b", []byte(s))
		case 2:
			m.SetContent(s, ct)
		case 3:
			m.SetContent([]byte(s), ct)
		case 4:
			m.SetMessageContent(s)
		case 5:
			m.SetMessageContentFromByte([]byte(s))
		case 6:
			m.RemoveContent()
		case 7:
			m.RemoveHeader("Content-Length")
			fits = false
		case 8:
			m.RemoveHeader("content-type")
			kind = ""
		}
		if op < 4 {
			kind = t + "/b"
		}
		if op < 7 {
			body, fits = s, true
		}
		if late && i > 1 {
			continue
		}
		if late {
			want := "\r\n" + body
			got := str()
			sym.Assert(len(got) >= len(want) && got[len(got)-len(want):] == want, "a message is encoded with its content and the length of it")
		}
		sym.Assert(m.HasContent() == (body != ""), "a message has content iff it is not empty")
		sym.Assert(m.GetContent() == body && m.GetMessageContent() == body, "the content of a message is the one set last")
		want := first
		if kind != "" {
			want += "Content-Type: " + kind + "\r\n"
			sym.Assert(m.GetContentTypeHeader().GetContentType()+"/"+m.GetContentTypeHeader().GetContentSubType() == kind, "the content type is the one set last")
		} else {
			sym.Assert(m.GetContentTypeHeader() == nil, "the content type is the one set last")
		}
		if fits {
			sym.Assert(m.GetContentLength() != nil && m.GetContentLength().GetContentLength() == len(body), "the Content-Length is the length of the content")
			want += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
		} else {
			sym.Assert(m.GetContentLength() == nil, "a removed Content-Length is gone")
		}
		want += "\r\n" + body
		sym.Assert(str() == want, "a message is encoded with its content and the length of it")
		sym.Assert(string(bytes()) == want, "the bytes of a message are those of its text")
	}
}
