package parser

import (
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// number is 1..n digits of any value, and the number they are.
func number(n int) (string, int) {
	s := sym.StringIn(1+sym.Choice(n), digits)
	return s, value(s)
}

func value(s string) int {
	v := 0
	for i := 0; i < len(s); i++ {
		v = v*10 + int(s[i]-'0')
	}
	return v
}

// the headers that hold one number, with its least and greatest value, and what follows the number.
var numbers = []struct {
	name        string
	least, most uint64
	rest        string
	get         func(h header.Header) int
}{
	{"Content-Length", 0, 1<<63 - 1, "", func(h header.Header) int { return h.(*header.ContentLength).GetContentLength() }},
	{"l", 0, 1<<63 - 1, "", func(h header.Header) int { return h.(*header.ContentLength).GetContentLength() }},
	{"Expires", 0, 1<<31 - 1, "", func(h header.Header) int { return h.(*header.Expires).GetExpires() }},
	{"Min-Expires", 0, 1<<63 - 1, "", func(h header.Header) int { return h.(*header.MinExpires).GetExpires() }},
	{"Max-Forwards", 0, 255, "", func(h header.Header) int { return h.(*header.MaxForwards).GetMaxForwards() }},
	{"RSeq", 1, 1<<63 - 1, "", func(h header.Header) int { return h.(*header.RSeq).GetSequenceNumber() }},
	{"Retry-After", 0, 1<<63 - 1, "", func(h header.Header) int { return h.(*header.RetryAfter).GetRetryAfter() }},
	{"CSeq", 0, 1<<31 - 1, " BYE", func(h header.Header) int { return h.(*header.CSeq).GetSequenceNumber() }},
	{"Warning", 300, 399, " h \"t\"", func(h header.Header) int {
		return h.(*header.WarningList).Front().Value.(*header.Warning).GetCode()
	}},
}

// H_P09_small: the 8 headers of one number (and a compact name) with any 1..4 (5) digits, blanks before and after.
func H_P09_small() {
	k := numbers[sym.Choice(len(numbers))]
	s, v := number(sym.Bound(4, 5))
	h, err := parse(k.name + ":" + blanks() + s + k.rest + blanks())
	in := sym.And(uint64(v) >= k.least, uint64(v) <= k.most)
	sym.Assert((err == nil) == in, "a number is accepted iff it is in range")
	if err == nil {
		sym.Assert(k.get(h) == v, "a number is the digits written")
	}
}

// H_P09_large: numbers around 2**31 and 2**63 with any last 2 (3) digits, and of 20 to 22 digits.
func H_P09_large() {
	k := numbers[sym.Choice(len(numbers))]
	tail := sym.StringIn(sym.Bound(2, 3), digits)
	head, base := "21474836", uint64(21474836)
	over := false
	switch sym.Choice(3) {
	case 1:
		head, base = "92233720368547758", 92233720368547758
	case 2:
		head, over = "10000000000000000000", true
	}
	if !over && sym.Thorough() { // one digit less before a longer tail
		head, base = head[:len(head)-1], base/10
	}
	lead := sym.Pick("", "0", "000")
	h, err := parse(k.name + ": " + lead + head + tail + k.rest)
	if over {
		sym.Assert(err != nil && h == nil, "a number that does not fit is refused")
		return
	}
	p := uint64(1)
	for range tail {
		p *= 10
	}
	v := base*p + uint64(value(tail))
	in := sym.And(v >= k.least, v <= k.most)
	sym.Assert((err == nil) == in, "a number is accepted iff it is in range")
	if err == nil {
		sym.Assert(k.get(h) == int(v), "a number is the digits written")
	}
}

// H_P09_other: any 1..2 (3) visible characters that are not all digits are no number.
func H_P09_other() {
	k := numbers[sym.Choice(len(numbers))]
	s := sym.String(1 + sym.Choice(sym.Bound(2, 3)))
	all := true
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] > ' ', s[i] < 0x7f))
		all = sym.And(all, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	if k.name == "Retry-After" {
		sym.Assume(s[len(s)-1] != ')') // a comment
	}
	if k.name == "CSeq" {
		sym.Assume(sym.Or(s[0] < '0', s[0] > '9')) // the method may follow at once
	}
	sym.Assume(!all)
	h, err := parse(k.name + ": " + s + k.rest)
	sym.Assert(err != nil && h == nil, "what is not a number is refused")
}

// H_P09_cseq: CSeq with 1..2 (3) digits and a method of 1..2 (3) token characters.
func H_P09_cseq() {
	s, v := number(sym.Bound(2, 3))
	m := token(sym.Bound(2, 3))
	h, err := parse("CSeq: " + s + sym.Pick(" ", "\t", "  ") + m + blanks())
	sym.Assert(err == nil, "a CSeq is accepted")
	c := h.(*header.CSeq)
	sym.Assert(c.GetSequenceNumber() == v, "a number is the digits written")
	sym.Assert(upper(c.GetMethod()) == upper(m), "a CSeq has its method")
}

// H_P09_rack: RAck with two numbers of 1..2 (3) digits and a method of 1..2 token characters.
func H_P09_rack() {
	r, rv := number(sym.Bound(2, 3))
	c, cv := number(sym.Bound(2, 3))
	m := token(2)
	h, err := parse("RAck: " + r + " " + blanks() + c + sym.Pick(" ", "\t") + m + blanks())
	sym.Assert((err == nil) == sym.And(rv > 0, cv > 0), "a RAck is accepted iff its numbers are positive")
	if err == nil {
		a := h.(*header.RAck)
		sym.Assert(a.GetRSeqNumber() == rv && a.GetCSeqNumber() == cv, "a number is the digits written")
		sym.Assert(a.GetMethod() == m, "a RAck has its method")
	}
}

// H_P09_mime: MIME-Version with two numbers of 1..3 (5) digits.
func H_P09_mime() {
	a, av := number(sym.Bound(3, 5))
	b, bv := number(sym.Bound(3, 5))
	h, err := parse("MIME-Version: " + a + "." + b + blanks())
	sym.Assert(err == nil, "a MIME-Version is accepted")
	v := h.(*header.MimeVersion)
	sym.Assert(v.GetMajorVersion() == av && v.GetMinorVersion() == bv, "a number is the digits written")
}

// H_P09_remark: Retry-After with a comment of any 2 (3) characters, nested or escaped.
func H_P09_remark() {
	s, v := number(1)
	comment := ""
	if sym.Bool() {
		comment = sym.Pick(" a", "b ", "a (b) c", " \\) ", "(\\()")
	} else {
		comment = visible(sym.Bound(2, 3))
		for i := 0; i < len(comment); i++ {
			c := comment[i]
			sym.Assume(c != '(' && c != ')' && c != '\\')
		}
	}
	text := sym.Pick("", ";x", ";duration=7")
	h, err := parse("Retry-After: " + s + blanks() + "(" + comment + ")" + blanks() + text)
	sym.Assert(err == nil, "a Retry-After is accepted")
	r := h.(*header.RetryAfter)
	sym.Assert(r.GetRetryAfter() == v && r.GetComment() == comment, "a Retry-After has its comment")
	sym.Assert((r.GetDuration() == 7) == (len(text) > 2) && r.HasParameter("x") == (len(text) == 2), "a Retry-After has its parameters")
}

// H_P09_retry: Retry-After with a comment of one character or none, a duration of 1..2 (3) digits or none and another
// parameter before, after or none.
func H_P09_retry() {
	s, v := number(2)
	text := "Retry-After: " + s + blanks()
	comment, x := "", ""
	d := 0
	if sym.Bool() {
		comment = sym.StringIn(1, alnum)
		text += "(" + comment + ")" + blanks()
	}
	k := sym.Choice(3)
	if k == 1 {
		x = token(1)
		text += ";" + blanks() + "x=" + x
	}
	hasD := sym.Bool()
	if hasD {
		var t string
		t, d = number(sym.Bound(2, 3))
		text += blanks() + ";" + blanks() + anyCase("duration") + sym.Pick("", " ") + "=" + blanks() + t
	}
	if k == 2 {
		x = token(1)
		text += blanks() + ";x=" + blanks() + x
	}
	h, err := parse(text + blanks())
	sym.Assert(err == nil, "a Retry-After is accepted")
	r := h.(*header.RetryAfter)
	sym.Assert(r.GetRetryAfter() == v && r.GetDuration() == d, "a number is the digits written")
	sym.Assert(r.GetComment() == comment && r.HasComment() == (comment != ""), "a Retry-After has its comment")
	sym.Assert(r.GetParameter("x") == x && r.HasParameter("x") == (x != "") && r.HasParameter("duration") == hasD, "a Retry-After has its parameters")
}

// H_P09_subscription: Subscription-State with a state of 1..2 characters and, in 2 orders, its known parameters in any
// case with values of 1..2 characters and one more.
func H_P09_subscription() {
	state := token(2)
	text := "Subscription-State: " + state
	reason, x := "", ""
	exp, retry := -1, -1
	order := sym.Bool()
	eq := sym.Pick("=", " =", "\t= ")
	for i := 0; i < 4; i++ {
		k := i
		if order {
			k = 3 - i
		}
		if sym.Bool() {
			continue
		}
		var t string
		text += sym.Pick("", " ") + ";" + sym.Pick("", "\t")
		switch k {
		case 0:
			reason = token(1)
			text += anyCase("reason") + eq + reason
		case 1:
			t, exp = number(2)
			text += anyCase("expires") + eq + t
		case 2:
			t, retry = number(2)
			text += anyCase("retry-after") + eq + t
		case 3:
			x = token(1)
			text += "x" + "=" + x
		}
	}
	h, err := parse(text)
	sym.Assert(err == nil, "a Subscription-State is accepted")
	s := h.(*header.SubscriptionState)
	sym.Assert(s.GetState() == state && s.GetReasonCode() == reason, "a Subscription-State has its state and reason")
	sym.Assert(s.GetExpires() == exp && s.GetRetryAfter() == retry, "a number is the digits written")
	sym.Assert(s.GetParameter("x") == x && s.HasParameter("x") == (x != ""), "a Subscription-State has its parameters")
}

// H_P09_signs: the numbers of Subscription-State and Warning with a sign or a letter are refused.
func H_P09_signs() {
	s := sym.Pick("+", "-", sym.StringIn(1, alpha)) + sym.StringIn(1+sym.Choice(3), digits)
	h, err := parse(sym.Pick("Warning: "+s+" h \"t\"", "Subscription-State: a;expires="+s, "Subscription-State: a;retry-after="+s, "Retry-After: 1;duration="+s, "Expires: "+s))
	sym.Assert(err != nil && h == nil, "what is not a number is refused")
}

// H_P09_timestamp: Timestamp of 1..2 (3) digits with 3 fractions or none, or 1 digit and a delay of 1..2 digits.
func H_P09_timestamp() {
	f, fs := float32(0), ""
	t, d := "", -1
	n := sym.Bound(2, 3)
	if sym.Bool() {
		n = 1
		t, d = number(2)
		t = " " + t
	} else {
		switch sym.Choice(4) {
		case 1:
			fs = ".0"
		case 2:
			fs, f = ".5", 0.5
		case 3:
			fs, f = ".125", 0.125
		}
	}
	s, v := number(n)
	h, err := parse("Timestamp: " + s + fs + t + blanks())
	sym.Assert(err == nil, "a Timestamp is accepted")
	ts := h.(*header.TimeStamp)
	sym.Assert(ts.GetTimeStamp() == float32(v)+f, "a number is the digits written")
	sym.Assert(ts.HasDelay() == (d != -1) && ts.GetDelay() == float32(d), "a number is the digits written")
}

// the parameters of the authentication headers: name, how it is written, its getter
type authParam struct {
	name   string
	quoted bool
	get    func(a authHeader) string
}

type authHeader interface {
	header.ParametersHeader
	GetScheme() string
	GetRealm() string
	GetNonce() string
	GetAlgorithm() string
	GetQop() string
	GetOpaque() string
	GetDomain() string
	IsStale() bool
	GetCNonce() string
	GetNonceCount() int
	GetResponse() string
	GetUsername() string
}

var authParams = []authParam{
	{"realm", true, func(a authHeader) string { return a.GetRealm() }},
	{"nonce", true, func(a authHeader) string { return a.GetNonce() }},
	{"opaque", true, func(a authHeader) string { return a.GetOpaque() }},
	{"domain", true, func(a authHeader) string { return a.GetDomain() }},
	{"username", true, func(a authHeader) string { return a.GetUsername() }},
	{"response", true, func(a authHeader) string { return a.GetResponse() }},
	{"cnonce", true, func(a authHeader) string { return a.GetCNonce() }},
	{"qop", true, func(a authHeader) string { return a.GetQop() }},
	{"qop", false, func(a authHeader) string { return a.GetQop() }},
	{"algorithm", false, func(a authHeader) string { return a.GetAlgorithm() }},
}

// auth parses an authentication line of any of the 4 headers.
func auth(k int, text string) authHeader {
	h, err := parse([]string{"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"}[k] + ": " + text)
	sym.Assert(err == nil, "an authentication header is accepted")
	switch h := h.(type) {
	case *header.Authorization:
		sym.Assert(k == 0, "an authentication header has its type")
		return h
	case *header.ProxyAuthorization:
		sym.Assert(k == 1, "an authentication header has its type")
		return h
	case *header.WWWAuthenticate:
		sym.Assert(k == 2, "an authentication header has its type")
		return h
	case *header.ProxyAuthenticate:
		sym.Assert(k == 3, "an authentication header has its type")
		return h
	}
	sym.Fail("an authentication header has its type")
	return nil
}

// H_P10_params: the 4 headers with a scheme of 1..2 token characters and any two different ones of 10 parameters, names
// in any case, quoted values of 0..2 (3) characters, tokens of 1..2.
func H_P10_params() {
	scheme := token(2)
	i := sym.Choice(len(authParams))
	j := sym.Choice(len(authParams))
	sym.Assume(authParams[i].name != authParams[j].name)
	text := scheme + sym.Pick(" ", "\t")
	var values [2]string
	for k, p := range []authParam{authParams[i], authParams[j]} {
		if k == 1 {
			text += blanks() + "," + sym.Pick("", " ")
		}
		text += anyCase(p.name) + sym.Pick("", " ") + "="
		if p.quoted {
			values[k] = quotable(sym.Bound(1, 2))
			text += "\"" + values[k] + "\""
		} else {
			values[k] = token(2)
			text += values[k]
		}
	}
	a := auth(sym.Choice(4), text)
	sym.Assert(a.GetScheme() == scheme, "an authentication header has its scheme")
	for n, p := range authParams {
		want := ""
		if p.name == authParams[i].name {
			want = values[0]
		} else if p.name == authParams[j].name {
			want = values[1]
		}
		sym.Assert(authParams[n].get(a) == want, "an authentication parameter has its value")
	}
	sym.Assert(!a.IsStale() && a.GetNonceCount() == 0, "what is not written is absent")
	sym.Assert(a.GetParameters().Len() == 2, "there are no other parameters")
}

// H_P10_scheme: the 4 headers with a scheme of 5 usual ones in any case or 1..3 token characters.
func H_P10_scheme() {
	s := ""
	if sym.Bool() {
		s = anyCase(sym.Pick("Digest", "Basic", "Bearer", "NTLM", "Digests"))
	} else {
		s = token(3)
	}
	a := auth(sym.Choice(4), blanks()+s+sym.Pick(" ", "\t", "  ")+"realm=\"r\"")
	sym.Assert(a.GetScheme() == s && a.GetRealm() == "r", "an authentication header has its scheme")
}

// H_P10_three: the 4 headers with 3..4 (5) different ones of 10 parameters in the order of a list or its reverse, each
// of any one character; then what is not separated by a comma is refused.
func H_P10_three() {
	n := 3 + sym.Choice(sym.Bound(2, 3))
	first := sym.Choice(len(authParams))
	back := sym.Bool()
	text := "Digest "
	want := map[string]string{}
	for i := 0; i < n; i++ {
		k := (first + i) % len(authParams)
		if back {
			k = (first + n - 1 - i) % len(authParams)
		}
		p := authParams[k]
		if _, ok := want[p.name]; ok {
			continue
		}
		if i > 0 {
			text += ", "
		}
		v := sym.StringIn(1, tokenChars)
		want[p.name] = v
		if p.quoted {
			v = "\"" + v + "\""
		}
		text += p.name + "=" + v
	}
	k := sym.Choice(4)
	a := auth(k, text)
	for _, p := range authParams {
		sym.Assert(p.get(a) == want[p.name], "an authentication parameter has its value")
	}
	sym.Assert(a.GetParameters().Len() == len(want), "there are no other parameters")
	if sym.Bool() {
		s := sym.StringIn(1, ";<>@[]?/:\\(")
		h, err := parse([]string{"Authorization", "Proxy-Authorization", "WWW-Authenticate", "Proxy-Authenticate"}[k] + ": " + text + sym.Pick("", " ") + s + sym.Pick("", "z", "z=y", " z=\"y\""))
		sym.Assert(err != nil && h == nil, "text that is no parameter is refused")
	}
}

// H_P10_digest: a digest with stale in any case, a nonce count of 8 hexadecimal digits in any case, a URI and an unknown
// parameter with a token or quoted value of 1..2 characters.
func H_P10_digest() {
	text := "Digest realm=\"r\""
	count, stale, x := uint64(0), false, ""
	uri := ""
	if sym.Bool() {
		stale = sym.Bool()
		if stale {
			text += ",stale=" + anyCase("true")
		} else {
			text += ",stale=" + anyCase("false")
		}
	}
	if sym.Bool() {
		s := sym.StringIn(8, "0123456789abcdefABCDEF")
		for i := 0; i < 8; i++ {
			count = count<<4 | uint64(nibble(s[i]))
		}
		text += ", nc=" + s
	}
	if sym.Bool() {
		uri = "sip:" + sym.StringIn(1, alnum) + "@h;lr"
		text += ", uri=\"" + uri + "\""
	}
	quoted := false
	if sym.Bool() {
		quoted = sym.Bool()
		if quoted {
			x = quotable(2)
			text += ",x=\"" + x + "\""
		} else {
			x = token(2)
			text += ",x=" + x
		}
	}
	a := auth(sym.Choice(4), text)
	sym.Assert(a.GetScheme() == "Digest" && a.GetRealm() == "r", "an authentication header has its scheme and realm")
	sym.Assert(a.IsStale() == stale, "stale is as written")
	sym.Assert(uint64(a.GetNonceCount()) == count, "a nonce count is the hexadecimal number written")
	sym.Assert(a.GetParameter("uri") == uri, "an authentication header has its URI")
	v := a.GetParameter("x")
	sym.Assert(v == x || quoted && v == "\""+x+"\"", "an authentication parameter has its value")
}

func nibble(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	if c >= 'A' {
		return c - 'A' + 10
	}
	return c - '0'
}

// H_P10_uri: the URI of an Authorization of 1..3 (5) alphanumeric characters is what is written.
func H_P10_uri() {
	u := "sip:" + sym.StringIn(1+sym.Choice(sym.Bound(3, 5)), alnum)
	h, err := parse("Authorization: Digest " + anyCase("uri") + "=\"" + u + "\"")
	sym.Assert(err == nil, "an authentication header is accepted")
	sym.Assert(h.(*header.Authorization).GetURI().String() == u, "an authentication header has its URI")
}

// H_P10_info: Authentication-Info with any two different ones of its 5 parameters.
func H_P10_info() {
	names := []string{"nextnonce", "cnonce", "rspauth", "qop", "nc"}
	i := sym.Choice(5)
	j := sym.Choice(5)
	sym.Assume(i != j)
	text := "Authentication-Info: "
	var want [5]string
	count := 0
	for k, p := range []int{i, j} {
		if k == 1 {
			text += blanks() + "," + blanks()
		}
		text += anyCase(names[p]) + "="
		switch p {
		case 3:
			want[p] = token(2)
			text += want[p]
		case 4:
			s := sym.StringIn(2, "0123456789abcdefABCDEF")
			count = int(nibble(s[0]))<<4 | int(nibble(s[1]))
			text += "000000" + s
		default:
			want[p] = quotable(sym.Bound(1, 2))
			text += "\"" + want[p] + "\""
		}
	}
	h, err := parse(text + blanks())
	sym.Assert(err == nil, "an Authentication-Info is accepted")
	a := h.(*header.AuthenticationInfo)
	sym.Assert(a.GetNextNonce() == want[0] && a.GetCNonce() == want[1] && a.GetResponse() == want[2], "an authentication parameter has its value")
	sym.Assert(a.GetQop() == want[3] && a.GetNonceCount() == count, "an authentication parameter has its value")
	sym.Assert(a.GetParameters().Len() == 2, "there are no other parameters")
}

// H_P10_challenges: a usual challenge with a realm of 0..2 characters.
func H_P10_challenges() {
	l1 := auth(2+sym.Choice(2), "Digest realm=\""+quotable(2)+"\",nonce=\"n\",opaque=\"\",algorithm=MD5,qop=\"auth,auth-int\"")
	sym.Assert(l1.GetQop() == "auth,auth-int" && l1.GetAlgorithm() == "MD5" && l1.GetOpaque() == "" && l1.HasParameter("opaque"), "an authentication parameter has its value")
}
