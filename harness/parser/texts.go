package parser

import (
	"container/list"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// elements of a list header
func elements(h header.Header) *list.List {
	switch h := h.(type) {
	case *header.SupportedList:
		return &h.List
	case *header.RequireList:
		return &h.List
	case *header.ProxyRequireList:
		return &h.List
	case *header.UnsupportedList:
		return &h.List
	case *header.AllowList:
		return &h.List
	case *header.AllowEventsList:
		return &h.List
	case *header.ContentEncodingList:
		return &h.List
	case *header.ContentLanguageList:
		return &h.List
	case *header.InReplyToList:
		return &h.List
	case *header.AcceptList:
		return &h.List
	case *header.AcceptEncodingList:
		return &h.List
	case *header.AcceptLanguageList:
		return &h.List
	case *header.CallInfoList:
		return &h.List
	case *header.AlertInfoList:
		return &h.List
	case *header.ErrorInfoList:
		return &h.List
	case *header.WarningList:
		return &h.List
	case *header.ReasonList:
		return &h.List
	}
	sym.Fail("a list header is a list")
	return nil
}

var lists = []struct {
	name string
	get  func(e interface{}) string
}{
	{"Supported", func(e interface{}) string { return e.(*header.Supported).GetOptionTag() }},
	{"Require", func(e interface{}) string { return e.(*header.Require).GetOptionTag() }},
	{"Proxy-Require", func(e interface{}) string { return e.(*header.ProxyRequire).GetOptionTag() }},
	{"Unsupported", func(e interface{}) string { return e.(*header.Unsupported).GetOptionTag() }},
	{"Allow", func(e interface{}) string { return e.(*header.Allow).GetMethod() }},
	{"Allow-Events", func(e interface{}) string { return e.(*header.AllowEvents).GetEventType() }},
	{"Content-Encoding", func(e interface{}) string { return e.(*header.ContentEncoding).GetEncoding() }},
	{"Content-Language", func(e interface{}) string { return e.(*header.ContentLanguage).GetContentLanguage() }},
	{"In-Reply-To", func(e interface{}) string { return e.(*header.InReplyTo).GetCallId() }},
	{"Accept-Encoding", func(e interface{}) string { return e.(*header.AcceptEncoding).GetEncoding() }},
	{"Accept-Language", func(e interface{}) string { return e.(*header.AcceptLanguage).GetAcceptLanguage() }},
	{"Reason", func(e interface{}) string { return e.(*header.Reason).GetProtocol() }},
}

// H_P11_tokens: 1..3 (4) elements of 12 list headers, each of 1..2 token characters.
func H_P11_tokens() {
	k := lists[sym.Choice(len(lists))]
	n := 1 + sym.Choice(sym.Bound(3, 4))
	text := k.name + ":" + blanks()
	var want []string
	sep := sym.Pick(",", ", ", " ,", "\t,\t")
	for i := 0; i < n; i++ {
		if i > 0 {
			text += sep
		}
		t := token(2)
		want = append(want, t)
		text += t
	}
	h, err := parse(text + blanks())
	sym.Assert(err == nil, "a list of tokens is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		got := k.get(e.Value)
		if k.name == "Allow" {
			sym.Assert(upper(got) == upper(want[i]), "an element is the token written")
		} else {
			sym.Assert(got == want[i], "an element is the token written")
		}
	}
}

// H_P11_callids: In-Reply-To with 1..2 call identifiers, each with or without @, of 1..2 characters on each side.
func H_P11_callids() {
	n := 1 + sym.Choice(2)
	text := "In-Reply-To: "
	var want []string
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		t := token(2)
		if sym.Bool() {
			t += "@" + token(2)
		}
		want = append(want, t)
		text += t
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a list of call identifiers is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		sym.Assert(e.Value.(*header.InReplyTo).GetCallId() == want[i], "a call identifier is the one written")
	}
}

// H_P11_callid: Call-ID of 1..3 (4) characters of a word, with or without @ and 1..2 more.
func H_P11_callid() {
	const word = alnum + "-.!%*_+`'~()<>:\\\"/[]?{}"
	s := sym.StringIn(1+sym.Choice(sym.Bound(3, 4)), word)
	local, host := s, ""
	if sym.Bool() {
		host = sym.StringIn(1+sym.Choice(2), word)
		s += "@" + host
	}
	h, err := parse(anyCase("call-id") + blanks() + ":" + blanks() + s + blanks())
	sym.Assert(err == nil, "a Call-ID is accepted")
	c := h.(*header.CallID)
	sym.Assert(c.GetCallId() == s, "a Call-ID is what is written")
	sym.Assert(c.GetCallIdentifer().GetLocalId() == local && c.GetCallIdentifer().GetHost() == host, "a Call-ID has its two parts")
}

// q is a q value or none
func q(all bool) (string, float32) {
	n := 4
	if !all {
		n = 2
	}
	switch sym.Choice(n) {
	case 1:
		return "0.5", 0.5
	case 2:
		return sym.Pick("1", "1.0", "1.000"), 1
	case 3:
		s := sym.Pick("0", "0.0", "0.25", "0.999", "0.1", "0.001")
		f, _ := strconv.ParseFloat(s, 32)
		return s, float32(f)
	}
	return "", -1
}

// H_P11_accept: Accept, Accept-Encoding and Accept-Language with 1..2 elements, each with a q value of 1 to 10 or none.
func H_P11_accept() {
	k := sym.Choice(3)
	text := []string{"Accept:", "Accept-Encoding:", "Accept-Language:"}[k] + blanks()
	n := 1 + sym.Choice(2)
	var a, b []string
	var qs []float32
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		t, s := token(1), ""
		text += t
		if k == 0 {
			s = token(1)
			text += "/" + s
		}
		qt, qv := q(n == 1)
		if qt != "" {
			text += blanks() + ";" + sym.Pick("", " ") + sym.Pick("q", "Q") + "=" + qt
		}
		a, b, qs = append(a, t), append(b, s), append(qs, qv)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a list of what is accepted is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		switch h := e.Value.(type) {
		case *header.Accept:
			sym.Assert(h.GetContentType() == a[i] && h.GetContentSubType() == b[i], "an element is the media range written")
			sym.Assert(h.AllowsAllContentTypes() == (a[i] == "*") && h.AllowsAllContentSubTypes() == (b[i] == "*"), "only * allows all")
			sym.Assert(h.GetQValue() == qs[i] && h.HasQValue() == (qs[i] != -1), "an element has its q value")
		case *header.AcceptEncoding:
			sym.Assert(h.GetEncoding() == a[i], "an element is the encoding written")
			sym.Assert(h.GetQValue() == qs[i] && h.HasQValue() == (qs[i] != -1), "an element has its q value")
		case *header.AcceptLanguage:
			sym.Assert(h.GetLanguageRange() == a[i], "an element is the language written")
			sym.Assert(h.GetQValue() == qs[i] && h.HasQValue() == (qs[i] != -1), "an element has its q value")
		default:
			sym.Fail("an element has its type")
		}
	}
}

// H_P11_acceptparams: Accept, Accept-Encoding and Accept-Language with 1..3 elements, each with 0..2 parameters or a q
// value.
func H_P11_acceptparams() {
	k := sym.Choice(3)
	text := []string{"Accept: ", "Accept-Encoding: ", "Accept-Language: "}[k]
	n := 1 + sym.Choice(3)
	var a []string
	var pss [][]param
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		t := sym.StringIn(1, alnum)
		text += t
		if k == 0 {
			text += "/x"
		}
		a = append(a, t)
		var ps []param
		for j := 0; k == 0 && j < 2; j++ {
			if sym.Bool() {
				p := param{name: string("xy"[j]) + string("pqr"[i]), value: sym.StringIn(1, tokenChars)}
				text += ";" + p.name + "=" + p.value
				ps = append(ps, p)
			}
		}
		if k != 0 && sym.Bool() {
			d := sym.StringIn(1, digits)
			ps = append(ps, param{name: "q", value: "0." + d})
			text += ";q=0." + d
		}
		pss = append(pss, ps)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a list of what is accepted is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		q := float32(-1)
		if k != 0 && len(pss[i]) > 0 {
			f, _ := strconv.ParseFloat(pss[i][0].value, 32)
			q = float32(f)
		}
		switch h := e.Value.(type) {
		case *header.Accept:
			sym.Assert(h.GetContentType() == a[i] && h.GetContentSubType() == "x" && !h.HasQValue(), "an element is the media range written")
			has(h, pss[i])
		case *header.AcceptEncoding:
			sym.Assert(h.GetEncoding() == a[i] && h.GetQValue() == q && h.HasQValue() == (q != -1), "an element is the encoding written")
		case *header.AcceptLanguage:
			sym.Assert(h.GetLanguageRange() == a[i] && h.GetQValue() == q && h.HasQValue() == (q != -1), "an element is the language written")
		}
	}
}

// H_P11_media: Content-Type and Content-Disposition with tokens of 1..2 characters and 0..2 parameters of 2 kinds.
func H_P11_media() {
	a, b := token(2), ""
	s, ps := parameters(sym.Bound(1, 2), false)
	if sym.Bool() {
		b = token(2)
		h, err := parse(sym.Pick("c", "Content-Type") + ":" + blanks() + a + "/" + b + s + blanks())
		sym.Assert(err == nil, "a Content-Type is accepted")
		c := h.(*header.ContentType)
		sym.Assert(c.GetContentType() == a && c.GetContentSubType() == b, "a Content-Type is the one written")
		sym.Assert(c.GetMediaType() == a && c.GetMediaSubType() == b, "a Content-Type is the one written")
		has(c, ps)
		return
	}
	h, err := parse("Content-Disposition:" + blanks() + a + s + blanks())
	sym.Assert(err == nil, "a Content-Disposition is accepted")
	c := h.(*header.ContentDisposition)
	sym.Assert(c.GetDispositionType() == a && c.GetHandling() == "", "a Content-Disposition is the one written")
	has(c, ps)
}

// H_P11_known: known parameters with values of 1..2 characters: handling, event id, charset, purpose.
func H_P11_known() {
	v := token(2)
	eq := sym.Pick("=", " = ")
	switch sym.Choice(4) {
	case 0:
		h, err := parse("Content-Disposition: session;" + anyCase("handling") + eq + v)
		sym.Assert(err == nil, "a Content-Disposition is accepted")
		sym.Assert(h.(*header.ContentDisposition).GetHandling() == v, "a parameter is the one written")
	case 1:
		h, err := parse("Event: presence;" + anyCase("id") + eq + v)
		sym.Assert(err == nil, "an Event is accepted")
		e := h.(*header.Event)
		sym.Assert(e.GetEventType() == "presence" && e.GetEventId() == v, "a parameter is the one written")
	case 2:
		h, err := parse("Content-Type: text/plain;" + anyCase("charset") + eq + v)
		sym.Assert(err == nil, "a Content-Type is accepted")
		sym.Assert(h.(*header.ContentType).GetCharSet() == v, "a parameter is the one written")
	case 3:
		h, err := parse("Call-Info: <http://h/x>;" + anyCase("purpose") + eq + v)
		sym.Assert(err == nil, "a Call-Info is accepted")
		sym.Assert(elements(h).Front().Value.(*header.CallInfo).GetPurpose() == v, "a parameter is the one written")
	}
}

// H_P11_event: Event with a type of 1..3 (4) token characters and 0..2 parameters of 2 kinds.
func H_P11_event() {
	a := token(sym.Bound(3, 4))
	s, ps := parameters(sym.Bound(1, 2), false)
	h, err := parse(sym.Pick("o", "Event") + ":" + blanks() + a + s + blanks())
	sym.Assert(err == nil, "an Event is accepted")
	e := h.(*header.Event)
	sym.Assert(e.GetEventType() == a && e.GetEventId() == "", "an Event has its type")
	has(e, ps)
}

// H_P11_infos: 1..2 elements of Call-Info, Alert-Info and Error-Info with SIP URIs of any user and other URIs of any
// character, each with 0..1 parameter of 2 kinds.
func H_P11_infos() {
	k := sym.Choice(3)
	n := 1 + sym.Choice(2)
	text := []string{"Call-Info:", "Alert-Info:", "Error-Info:"}[k] + blanks()
	var uris []string
	var pss [][]param
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		c := sym.StringIn(1, alnum)
		u := sym.Pick("sip:"+c+"@h", "http://h/"+c+"?x", "urn:"+c)
		s, ps := "", []param(nil)
		if i == 0 {
			s, ps = parameters(1, false)
		}
		text += "<" + u + ">" + s
		uris, pss = append(uris, u), append(pss, ps)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a list of information is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		var u address.URI
		switch h := e.Value.(type) {
		case *header.CallInfo:
			u = h.GetInfo()
			has(h, pss[i])
			sym.Assert(h.GetPurpose() == "", "what is not written is absent")
		case *header.AlertInfo:
			u = h.GetAlertInfo()
			has(h, pss[i])
		case *header.ErrorInfo:
			u = h.GetErrorInfo()
			has(h, pss[i])
		}
		sym.Assert(u != nil && u.String() == uris[i], "an element has its URI")
	}
}

// H_P11_reason: 1..2 reasons with a protocol of 1..2 characters, a cause of 1..3 digits or none and a text of 1..2
// characters or none, in 2 orders.
func H_P11_reason() {
	n := 1 + sym.Choice(2)
	text := "Reason:" + blanks()
	type reason struct {
		protocol, text string
		cause          int
	}
	var want []reason
	for i := 0; i < n; i++ {
		if i > 0 {
			text += sym.Pick(",", " , ")
		}
		r := reason{protocol: token(2)}
		t := ""
		if sym.Bool() {
			d, v := number(3)
			t, r.cause = ";cause="+d, v
		}
		if sym.Bool() {
			r.text = quotable(2)
			x := ";text=\"" + r.text + "\""
			if sym.Bool() {
				t += x
			} else {
				t = x + t
			}
		}
		text += r.protocol + t
		want = append(want, r)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a Reason is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		r := e.Value.(*header.Reason)
		sym.Assert(r.GetProtocol() == want[i].protocol && r.GetCause() == want[i].cause && r.GetText() == want[i].text, "a Reason has its protocol, cause and text")
	}
}

// H_P11_warning: 1..2 (3) warnings with any last 2 digits of the code, an agent of 1..2 token characters and a text of
// 0..2 (3).
func H_P11_warning() {
	n := 1 + sym.Choice(sym.Bound(2, 3))
	text := "Warning:" + blanks()
	var codes []int
	var agents, texts []string
	for i := 0; i < n; i++ {
		if i > 0 {
			text += blanks() + "," + blanks()
		}
		d := sym.StringIn(2, digits)
		a, t := token(2), quotable(sym.Bound(2, 3))
		text += "3" + d + sym.Pick(" ", "\t") + a + " \"" + t + "\""
		codes, agents, texts = append(codes, 300+value(d)), append(agents, a), append(texts, t)
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a Warning is accepted")
	l := elements(h)
	sym.Assert(l.Len() == n, "a list has the elements of its text")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		w := e.Value.(*header.Warning)
		sym.Assert(w.GetCode() == codes[i] && w.GetAgent() == agents[i] && w.GetText() == texts[i], "a Warning has its code, agent and text")
	}
}

// H_P11_text: Subject, Organization and an unknown header of 1..4 (6) characters, and of any UTF-8 bytes among them;
// Priority of 1..4 token characters.
func H_P11_text() {
	s := sym.String(1 + sym.Choice(sym.Bound(4, 6)))
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.Or(sym.And(s[i] >= ' ', s[i] < 0x7f), s[i] >= 0x80))
	}
	sym.Assume(sym.And(s[0] > ' ', s[0] < 0x7f))
	sym.Assume(sym.And(s[len(s)-1] > ' ', s[len(s)-1] < 0x7f))
	switch sym.Choice(4) {
	case 0:
		h, err := parse(sym.Pick("s", "Subject") + ":" + blanks() + s)
		sym.Assert(err == nil, "a text is accepted")
		sym.Assert(h.(*header.Subject).GetSubject() == s, "a text is what is written")
	case 1:
		h, err := parse("Organization:" + blanks() + s)
		sym.Assert(err == nil, "a text is accepted")
		sym.Assert(h.(*header.Organization).GetOrganization() == s, "a text is what is written")
	case 2:
		h, err := parse("X-Text:" + blanks() + s)
		sym.Assert(err == nil, "a text is accepted")
		e := h.(*header.Extension)
		sym.Assert(e.GetName() == "X-Text" && e.GetValue() == s, "a text is what is written")
	case 3:
		t := token(4)
		h, err := parse("Priority:" + blanks() + t + blanks())
		sym.Assert(err == nil, "a Priority is accepted")
		sym.Assert(h.(*header.Priority).GetPriority() == t, "a Priority is what is written")
	}
}

// H_P11_products: Server and User-Agent with 1..3 products of 1..2 characters, the last with a comment of 0..2
// characters, nested or escaped, or none.
func H_P11_products() {
	n := 1 + sym.Choice(3)
	var want []string
	text := ""
	for i := 0; i < n; i++ {
		p := token(2)
		if i == n-1 && sym.Bool() {
			c := ""
			if sym.Bool() {
				c = sym.Pick("a/b", "(a)/b", "a (b (c/d)) e", "\\)/", "(\\)/)", "(\\()", "\\\\")
			} else {
				c = quotable(2)
				sym.Assume(!strings.ContainsAny(c, "()"))
			}
			p += " (" + c + ")"
		}
		if i > 0 {
			text += "/"
		}
		text += p
		want = append(want, p)
	}
	var l *list.List
	if sym.Bool() {
		h, err := parse("Server: " + blanks() + text + blanks())
		sym.Assert(err == nil, "products are accepted")
		l = h.(*header.Server).GetProduct()
	} else {
		h, err := parse("User-Agent: " + blanks() + text + blanks())
		sym.Assert(err == nil, "products are accepted")
		l = h.(*header.UserAgent).GetProduct()
	}
	sym.Assert(l != nil && l.Len() == n, "there are the products written")
	for i, e := 0, l.Front(); e != nil; i, e = i+1, e.Next() {
		sym.Assert(e.Value.(string) == want[i], "a product is the one written")
	}
}

// H_P11_date: a Date with any two digits as its day, hour, minute or second.
func H_P11_date() {
	f := sym.StringIn(2, digits)
	t := []string{"13", "23", "08", "37"}
	i := sym.Choice(4)
	t[i] = f
	v := value(f)
	ok := sym.And(v >= []int{1, 0, 0, 0}[i], v < []int{31, 24, 60, 60}[i])
	h, err := parse("Date: Sat, " + t[0] + " Nov 2010 " + t[1] + ":" + t[2] + ":" + t[3] + " GMT")
	sym.Assert((err == nil) == ok, "a Date is accepted iff its time exists")
	if err == nil {
		want := 1288569600 + int64(((value(t[0])-1)*24+value(t[1]))*3600+value(t[2])*60+value(t[3]))
		sym.Assert(h.(*header.Date).GetDate().Unix() == want, "a Date is the time written")
	}
}
