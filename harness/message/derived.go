package message

import (
	"strconv"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

// change changes every header of a message in place.
func change(m *message.SIPMessage) {
	m.SetToTag("zz")
	m.SetFromTag("zz")
	if f := m.GetFrom(); f != nil {
		f.GetAddress().SetDisplayName("zz")
	}
	if c := m.GetCSeq(); c != nil {
		c.SetSequenceNumber(77)
	}
	if c := m.GetCallId(); c != nil {
		c.SetCallId("zz")
	}
	if mf := m.GetMaxForwards(); mf != nil {
		mf.SetMaxForwards(1)
	}
	if v := m.GetTopmostVia(); v != nil {
		v.SetBranch("zz")
		v.SetReceived("1.2.3.4")
	}
	var names []string
	for e := m.GetHeaderNames().Front(); e != nil; e = e.Next() {
		names = append(names, e.Value.(string))
	}
	for _, n := range names {
		for e := m.GetHeaders(n).Front(); e != nil; e = e.Next() {
			mutate(e.Value.(header.Header))
		}
	}
	for _, n := range []string{"Via", "Record-Route", "Route"} {
		m.RemoveHeader2(n, true)
	}
	m.RemoveHeader("Subject")
	m.SetMessageContent("zzzz")
}

func changeURI(u address.URI) {
	switch u := u.(type) {
	case *address.SipURIImpl:
		u.SetUser("zz")
	case *address.TelURLImpl:
		u.SetPhoneNumber("77")
	}
}

// mutate changes a header in every way there is.
func mutate(h header.Header) {
	if x, ok := h.(interface{ GetAddress() address.Address }); ok && x.GetAddress() != nil {
		if u, ok := x.GetAddress().GetURI().(*address.SipURIImpl); ok {
			u.SetUser("zz")
		}
		x.GetAddress().SetDisplayName("zzz")
	}
	switch x := h.(type) {
	case interface{ SetOptionTag(string) error }:
		x.SetOptionTag("zz")
	case interface{ SetSubject(string) error }:
		x.SetSubject("zz")
	case *header.Extension:
		x.SetValue("zz")
	case *header.TimeStamp:
		x.SetTimeStamp(7)
		x.SetDelay(3)
	case *header.Expires:
		x.SetExpires(77)
	case *header.AlertInfo:
		x.GetAlertInfo().(*address.SipURIImpl).SetUser("zz")
	case *header.ErrorInfo:
		x.GetErrorInfo().(*address.SipURIImpl).SetUser("zz")
	case *header.CallInfo:
		x.GetInfo().(*address.SipURIImpl).SetUser("zz")
	case *header.InReplyTo:
		x.SetCallId("zz")
	case *header.Warning:
		x.SetText("zz")
	case *header.Event:
		x.SetEventType("zz")
	case *header.Date:
		*x.GetDate() = time.Unix(0, 0)
	}
	if x, ok := h.(header.ParametersHeader); ok {
		x.SetParameter("zz", "1")
		if e := x.GetParameters().Front(); e != nil {
			e.Value.(*core.NameValue).SetValue("zzz")
		}
	}
}

// H_M01_response: requests with or without each of the usual headers, one or two Vias, one or two headers of up to two of 45 extra
// kinds, plain or with parameters and ports, a body or none, and the response to them with any code 100..699 and any reason, or none.
func H_M01_response() {
	lack := 0
	a, b := 0, 0
	if sym.Bool() {
		lack = sym.Choice(7)
	} else {
		a, b = pair()
	}
	r, d := request(lack, a, b)
	code := sym.Range(100, 699)
	reason := sym.StringIn(sym.Choice(2), tokenChars)
	known := reason == ""
	if known {
		code = []int{100, 180, 200, 404, 503, 499}[sym.Choice(6)]
	}
	before := r.String()
	p := r.CreateResponse2(code, reason)
	sym.Assert(r.String() == before, "a request with a response is as it was")
	if reason == "" {
		if sym.Bool() {
			p = r.CreateResponse(code)
		}
		reason = map[int]string{100: "Trying", 180: "Ringing", 200: "OK", 404: "Not found", 503: "Service unavailable"}[code]
	}
	want := d.without("Content-Type", "Content-Length").with("Content-Length", "0")
	for _, k := range every {
		if k.name != "Record-Route" && k.name != "Timestamp" {
			want = want.without(k.name)
		}
	}
	want.holds(p, "a response has the Via, From, To, Call-ID, CSeq, Record-Route, Max-Forwards and Timestamp of its request")
	sym.Assert(!p.HasContent() && p.GetContent() == "", "a response has no content")
	sym.Assert(p.GetStatusCode() == code && p.GetReasonPhrase() == reason, "a response has its code and reason")
	if known {
		sym.Assert(p.GetFirstLine() == "SIP/2.0 "+strconv.Itoa(code)+" "+reason+"\r\n", "a response has its code and reason")
	}
}

// H_M01_reason: any code 100..699 of a response to a request, with no reason given.
func H_M01_reason() {
	r := message.NewSIPRequest()
	r.SetMethod("BYE")
	code := sym.Range(100, 699)
	p := r.CreateResponse2(code, "")
	if sym.Bool() {
		p = r.CreateResponse(code)
	}
	sym.Assert(p.GetStatusCode() == code && p.GetReasonPhrase() == p.GetReasonPhraseFromInt(code), "a response has its code and the standard reason")
}

// H_M01_apart: requests with a Via or two and one of the extra headers, where the headers of the request or of its
// response are then changed.
func H_M01_apart() {
	r, d := request(0, sym.Choice(len(every)), 0)
	before := r.String()
	p := r.CreateResponse(200)
	sym.Assert(p.GetTransactionId() == r.GetTransactionId(), "a response has the transaction of its request")
	sym.Assert(p.GetDialogId(true) == r.GetDialogId(true) && p.GetDialogId(false) == r.GetDialogId(false), "a response has the dialog of its request")
	answer := p.String()
	if sym.Bool() {
		change(&p.SIPMessage)
		sym.Assert(r.String() == before, "changing a response does not change its request")
		d.holds(r, "changing a response does not change its request")
	} else {
		change(&r.SIPMessage)
		sym.Assert(p.String() == answer, "changing a request does not change its response")
	}
}

const (
	cancel = iota
	ack
	bye
	bye2
	plainAck
	own
	own2
	kinds
)

// derive makes a request of the k-th kind of another one, what it should hold and its method.
func derive(k int, r *message.SIPRequest, d *dialog) (q *message.SIPRequest, want content, method, target string) {
	n := strconv.Itoa(d.n) + " "
	c := d.content
	switch k {
	case cancel:
		c = c.without("Require", "Proxy-Require", "Content-Type").with("Content-Length", "0")
		if c.get("CSeq") != nil {
			c = c.with("CSeq", n+"CANCEL")
		}
		return r.CreateCancelRequest(), c, "CANCEL", d.target
	case ack:
		c = c.without("Route", "Proxy-Authorization", "Content-Type").with("Content-Length", "0")
		if c.get("CSeq") != nil {
			c = c.with("CSeq", n+"ACK")
		}
		if c.get("Via") != nil {
			c = c.with("Via", c.get("Via")[0])
		}
		var t *header.To
		if sym.Bool() {
			var s string
			t, s = to(one(), sym.StringIn(sym.Choice(2), tokenChars))
			if c.get("To") != nil {
				c = c.with("To", s)
			}
		}
		return r.CreateAckRequest(t), c, "ACK", d.target
	}
	method, target = "BYE", d.target
	swap := k == bye2 || k == own2
	switch k {
	case bye, bye2:
		q = r.CreateBYERequest(swap)
	case plainAck:
		method = "ACK"
		q = r.CreateACKRequest()
	default:
		method, target = sym.StringIn([]int{2, 3, 6}[sym.Choice(3)], upper), "sip:r@h"
		l := header.NewRequestLine()
		l.SetMethod(method)
		l.SetUri(uri("r"))
		q = r.CreateSIPRequest(l, swap)
		sym.Assert(q.GetRequestLine() == l, "a derived request has the request line given")
	}
	want = content{{"Content-Length", []string{"0"}}}
	for _, n := range []string{"Call-ID", "Max-Forwards"} {
		if v := c.get(n); v != nil {
			want = want.with(n, v...)
		}
	}
	if c.get("Via") != nil {
		want = want.with("Via", d.via+d.params)
	}
	if c.get("CSeq") != nil {
		want = want.with("CSeq", n+method)
	}
	f, t := "From", "To"
	if swap {
		f, t = "To", "From"
	}
	if c.get("From") != nil {
		want = want.with(f, d.fromText)
	}
	if c.get("To") != nil {
		want = want.with(t, d.toText)
	}
	return
}

// H_M02_request: requests with or without each of the usual headers, one or two Vias, one or two headers of up to two of 45 extra
// kinds, plain or with parameters and ports, a body or none, and the CANCEL, ACK, BYE or other request derived from them.
func H_M02_request() {
	lack := 0
	a, b := 0, 0
	if sym.Bool() {
		lack = sym.Choice(7)
	} else {
		a, b = pair()
	}
	r, d := request(lack, a, b)
	before := r.String()
	q, want, method, target := derive(sym.Choice(kinds), r, d)
	sym.Assert(r.String() == before, "a request from which another is derived is as it was")
	want.holds(q, "a derived request has the headers that belong in it")
	sym.Assert(q.GetMethod() == method, "a derived request has its method")
	sym.Assert(q.GetFirstLine() == method+" "+target+" SIP/2.0\r\n", "a derived request has the URI of its request")
	sym.Assert(!q.HasContent() && q.GetContent() == "", "a derived request has no content")
}

// H_M02_apart: requests derived from one with a SIP or telephone URI and one of the extra headers, where the headers and
// URI of either are then changed.
func H_M02_apart() {
	r, d := request(0, sym.Choice(len(every)), 0)
	var u address.URI = r.GetRequestURI()
	if sym.Bool() {
		t := address.NewTelURLImpl()
		t.SetPhoneNumber("1")
		u = t
		r.SetRequestURI(t)
	}
	before := r.String()
	q, _, _, _ := derive(sym.Choice(kinds), r, d)
	derived := q.String()
	if sym.Bool() {
		change(&q.SIPMessage)
		changeURI(q.GetRequestURI())
		q.SetMethod("ZZ")
		q.SetSIPVersion("SIP/3.0")
		sym.Assert(r.String() == before, "changing a derived request does not change the first")
	} else {
		change(&r.SIPMessage)
		changeURI(u)
		r.SetMethod("ZZ")
		r.SetSIPVersion("SIP/3.0")
		sym.Assert(q.String() == derived, "changing a request does not change one derived from it")
	}
}

// H_M02_response: responses with or without each of the usual headers, one or two Vias, one or two headers of up to two of 45 extra
// kinds, plain or with parameters and ports, a body or none, and the ACK, CANCEL or other request derived from them with a Via and CSeq of its own.
func H_M02_response() {
	lack := 0
	a, b := 0, 0
	if sym.Bool() {
		lack = sym.Choice(7)
	} else {
		a, b = pair()
	}
	r, d := response(lack, a, b)
	before := r.String()
	method := sym.StringIn([]int{3, 6}[sym.Choice(2)], upper)
	v, text := via("c", "own")
	v.SetParameter("x", "1")
	branch := "own"
	if lack != 1 && d.viaBranch != "" && (method == "ACK" || method == "CANCEL") {
		branch = d.viaBranch
	}
	n := []int{0, 2147483647}[sym.Choice(2)]
	user := one()
	q := r.CreateRequest(uri(user), v, header.NewCSeq(n, method))
	sym.Assert(r.String() == before, "a response from which a request is derived is as it was")
	text = "SIP/2.0/UDP c;branch=" + branch + ";x=1"
	c := d.without("Record-Route", "Content-Type")
	for _, k := range every {
		if k.resp {
			c = c.without(k.name)
		}
	}
	c = c.with("Content-Length", "0").with("Via", text).with("CSeq", strconv.Itoa(n)+" "+method)
	c.holds(q, "a request of a response has the headers that belong in it")
	sym.Assert(q.GetMethod() == method && q.GetFirstLine() == method+" sip:"+user+"@h SIP/2.0\r\n", "a derived request has its method and URI")
	sym.Assert(!q.HasContent() && q.GetContent() == "", "a derived request has no content")
	derived := q.String()
	if sym.Bool() {
		change(&q.SIPMessage)
		sym.Assert(r.String() == before, "changing a derived request does not change the response")
	} else {
		change(&r.SIPMessage)
		sym.Assert(q.String() == derived, "changing a response does not change a request derived from it")
	}
}
