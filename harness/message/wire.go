package message

import (
	"strconv"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"

	"verif/harness/sym"
)

func parse(s string) message.Message {
	m, err := parser.NewStringMsgParser().ParseSIPMessage(s)
	sym.Assert(err == nil && m != nil, "a message is parsed")
	return m
}

// invite is the text of an INVITE with any values, one or two Vias, and a route set or none.
func invite() (text string, d dialog, rr string) {
	d.viaBranch, d.fromUser, d.fromTag = one(), sym.StringIn(1, alnum), one()
	d.toUser, d.callID = sym.StringIn(1, alnum), one()
	d.n = sym.Range(0, 9)
	text = "INVITE sip:r@h SIP/2.0\r\nVia: SIP/2.0/UDP a;branch=z9hG4bK" + d.viaBranch + "\r\n"
	if sym.Bool() {
		d.secondV = one()
		text += "v: SIP/2.0/TCP b:7;branch=z9hG4bK" + d.secondV + "\r\n"
	}
	if sym.Bool() {
		rr = "<sip:p1;lr>,<sip:p2;lr>"
		text += "Record-Route: <sip:p1;lr>, <sip:p2;lr>\r\n"
	}
	text += "f: <sip:" + d.fromUser + "@h>;tag=" + d.fromTag + "\r\nTo: <sip:" + d.toUser + "@h>\r\nCall-ID: " + d.callID +
		"\r\nMax-Forwards: 70\r\nCSeq: " + strconv.Itoa(sym.ConcretizeInt(d.n)) + " INVITE\r\nContact: <sip:c@h>\r\n"
	if sym.Bool() {
		text += "Content-Type: a/b\r\nContent-Length: 2\r\n\r\nxy"
	} else {
		text += "Content-Length: 0\r\n\r\n"
	}
	return
}

// H_M09_response: the text of an INVITE with any one token character as branch, tag and Call-ID, any alphanumeric
// users, any CSeq number 0..9, one
// or two Vias, with and without Record-Route and body, parsed and answered with any of 4 codes and any tag.
func H_M09_response() {
	text, d, rr := invite()
	r := parse(text).(*message.SIPRequest)
	code := []int{100, 180, 200, 486}[sym.Choice(4)]
	p := r.CreateResponse(code)
	tag := one()
	p.SetToTag(tag)
	sym.Assert(r.GetToTag() == "", "a request is as it was")
	q := parse(p.String()).(*message.SIPResponse)
	sym.Assert(q.String() == p.String() && q.GetStatusCode() == code, "a response on the wire is the one sent")
	sym.Assert(q.CheckHeaders() == nil, "a response has the headers it needs")
	sym.Assert(q.GetTransactionId() == r.GetTransactionId() && q.GetTransactionId() == "z9hg4bk"+lower(d.viaBranch), "a response is of the transaction of its request")
	sym.Assert(q.GetDialogId(false) == r.GetDialogId2(false, tag), "a response is of the dialog of its request")
	sym.Assert(q.GetFromTag() == d.fromTag && q.GetToTag() == tag && q.GetCallIdentifier() == d.callID, "a response has the identity of its request")
	sym.Assert(q.GetCSeqNumber() == d.n && q.GetCSeq().GetMethod() == "INVITE", "a response has the CSeq of its request")
	n := 1
	if d.secondV != "" {
		n = 2
		sym.Assert(q.GetViaHeaders().Back().Value.(*header.Via).GetBranch() == "z9hG4bK"+d.secondV, "a response has the Vias of its request in order")
	}
	sym.Assert(q.GetViaHeaders().Len() == n, "a response has the Vias of its request in order")
	if rr == "" {
		sym.Assert(q.GetRecordRouteHeaders() == nil, "a response has the Record-Route of its request")
	} else {
		sym.Assert(q.GetRecordRouteHeaders().String() == "Record-Route: "+rr+"\r\n", "a response has the Record-Route of its request")
	}
	sym.Assert(!q.HasContent() && q.GetContentLength().GetContentLength() == 0 && q.GetContactHeaders() == nil, "a response has no content")
}

// H_M09_request: such an INVITE parsed, and the CANCEL, ACK or BYE derived from it, encoded and parsed.
func H_M09_request() {
	text, d, _ := invite()
	r := parse(text).(*message.SIPRequest)
	var q *message.SIPRequest
	method := ""
	tag := one()
	from, to := d.fromUser, d.toUser
	switch sym.Choice(4) {
	case 0:
		q, method = r.CreateCancelRequest(), "CANCEL"
		sym.Assert(q.GetTransactionId() == r.GetTransactionId(), "a CANCEL has the branch of its request")
		sym.Assert(q.GetDialogId(false) == r.GetDialogId(false), "a CANCEL has the dialog of its request")
	case 1:
		p := r.CreateResponse(486)
		p.SetToTag(tag)
		a := parse(p.String()).(*message.SIPResponse)
		q, method = r.CreateAckRequest(a.GetTo().(*header.To)), "ACK"
		sym.Assert(q.GetTransactionId() == r.GetTransactionId(), "an ACK has the branch of its request")
		sym.Assert(q.GetDialogId(false) == a.GetDialogId(false), "an ACK has the dialog of the response")
	case 2:
		q, method = r.CreateBYERequest(false), "BYE"
	case 3:
		q, method = r.CreateBYERequest(true), "BYE"
		from, to = to, from
	}
	w := parse(q.String()).(*message.SIPRequest)
	sym.Assert(w.String() == q.String() && w.GetMethod() == method && w.GetCSeq().GetMethod() == method, "a request on the wire is the one sent")
	sym.Assert(w.CheckHeaders() == nil, "a derived request has the headers it needs")
	sym.Assert(w.GetCSeqNumber() == d.n && w.GetCallIdentifier() == d.callID, "a derived request has the Call-ID and CSeq number of its request")
	sym.Assert(w.GetFrom().GetAddress().GetURI().String() == "sip:"+from+"@h" && w.GetTo().GetAddress().GetURI().String() == "sip:"+to+"@h", "a derived request is between the parties of its request")
	sym.Assert(!w.HasContent() && w.GetContentLength().GetContentLength() == 0, "a derived request has no content")
	sym.Assert(r.String() == parse(text).(*message.SIPRequest).String(), "a request is as it was")
}
