package message

import (
	"container/list"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
const tokenChars = alnum + "-.!%*_+`'~"

func token(n int) string { return sym.StringIn(1+sym.Choice(n), tokenChars) }

// one is any token character.
func one() string { return sym.StringIn(1, tokenChars) }

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if sym.And(c >= 'A', c <= 'Z') {
			b[i] = c + 32
		}
	}
	return string(b)
}

// item is the headers of one name, and the value of each.
type item struct {
	name   string
	values []string
}

// content is what a message should hold: the headers of each name.
type content []item

func (c content) get(name string) []string {
	for _, i := range c {
		if i.name == name {
			return i.values
		}
	}
	return nil
}

func (c content) without(names ...string) content {
	var r content
next:
	for _, i := range c {
		for _, n := range names {
			if i.name == n {
				continue next
			}
		}
		r = append(r, i)
	}
	return r
}

func (c content) with(name string, values ...string) content {
	var r content
	found := false
	for _, i := range c {
		if i.name == name {
			i.values = values
			found = true
		}
		r = append(r, i)
	}
	if !found {
		r = append(r, item{name, values})
	}
	return r
}

type headers interface {
	GetHeaderNames() *list.List
	GetHeaders(string) header.Lister
	GetHeader(string) header.Header
	HasHeader(string) bool
}

// holds asserts that a message has exactly the headers of c, those of one name in order.
func (c content) holds(m headers, what string) {
	n := 0
	for e := m.GetHeaderNames().Front(); e != nil; e = e.Next() {
		sym.Assert(c.get(e.Value.(string)) != nil, what)
		n++
	}
	sym.Assert(n == len(c), what)
	for _, i := range c {
		sym.Assert(m.HasHeader(i.name), what)
		l := m.GetHeaders(i.name)
		k := 0
		for e := l.Front(); e != nil; e = e.Next() {
			sym.Assert(k < len(i.values), what)
			sym.Assert(e.Value.(header.Header).String() == i.name+": "+i.values[k]+"\r\n", what)
			k++
		}
		sym.Assert(k == len(i.values), what)
		sym.Assert(m.GetHeader(i.name).String() == i.name+": "+i.values[0]+"\r\n", what)
	}
}

func uri(user string) *address.SipURIImpl {
	u := address.NewSipURIImpl()
	u.SetUser(user)
	u.SetHostString("h")
	return u
}

func addr(user string) *address.AddressImpl {
	a := address.NewAddressImpl()
	a.SetURI(uri(user))
	a.SetAddressType(address.NAME_ADDR)
	return a
}

func via(host, branch string) (*header.Via, string) {
	v := header.NewVia()
	v.SetTransport("UDP")
	v.SetHostFromString(host)
	s := "SIP/2.0/UDP " + host
	if branch != "" {
		v.SetBranch(branch)
		s += ";branch=" + branch
	}
	return v, s
}

func from(user, tag string) (*header.From, string) {
	f := header.NewFrom()
	f.SetAddress(addr(user))
	s := "<sip:" + user + "@h>"
	if tag != "" {
		f.SetTag(tag)
		s += ";tag=" + tag
	}
	return f, s
}

func to(user, tag string) (*header.To, string) {
	t := header.NewTo()
	t.SetAddress(addr(user))
	s := "<sip:" + user + "@h>"
	if tag != "" {
		t.SetTag(tag)
		s += ";tag=" + tag
	}
	return t, s
}

type dialog struct {
	variant int
	chars   string // of all values but the method

	content
	method             string
	n                  int
	viaBranch, secondV string
	fromUser, fromTag  string
	toUser, toTag      string
	callID             string
	body               string
	via, params        string // topmost Via without branch, and its other parameters
	fromText, toText   string // without tags
	target             string
}

// attach adds the headers of a message, plain or with parameters, ports, display names and big numbers, without the
// lack-th of them and with those of two extra kinds.
func attach(m interface {
	AddHeader(header.Header)
	AttachHeader(header.Header) error
	SetMessageContentFromString(string, string, string)
}, d *dialog, lack int, extra1, extra2 int) {
	v5 := d.variant
	one := func() string { return sym.StringIn(1, d.chars) }
	d.viaBranch, d.fromUser, d.fromTag = one(), one(), one()
	d.toUser, d.toTag, d.callID = one(), sym.StringIn([]int{0, 1, 1, 1, 0}[v5], d.chars), one()
	rich := v5 >= 3
	hops := "7"
	if rich {
		d.n = 2147483647
		d.callID += "@" + one()
		d.viaBranch = d.viaBranch[:v5-3]
		d.via, d.params, hops = "SIP/2.0/TCP a:5061", ";maddr="+one()+";x=2", "255"
	} else {
		d.n = 9 * sym.Choice(2)
		d.via = "SIP/2.0/UDP a"
	}
	c := content{{"Content-Length", []string{"0"}}}
	var hs []header.Header
	add := func(k int, h header.Header, name, value string) {
		if k != lack {
			hs = append(hs, h)
			c = c.with(name, append(append([]string{}, c.get(name)...), value)...)
		}
	}
	v, s := via("a", d.viaBranch)
	if rich {
		v.SetTransport("TCP")
		v.SetPort(5061)
		v.SetParameter("maddr", d.params[7:8])
		v.SetParameter("x", "2")
		s = d.via + d.params
		if d.viaBranch != "" {
			s = d.via + ";branch=" + d.viaBranch + d.params
		}
	}
	add(1, v, "Via", s)
	if v5 == 1 || v5 == 3 {
		d.secondV = one()
		v, s = via("b", d.secondV)
		add(1, v, "Via", s)
		if rich {
			v, s = via("c", "")
			add(1, v, "Via", s)
		}
	}
	f, s := from(d.fromUser, d.fromTag)
	d.fromText = "<sip:" + d.fromUser + "@h>"
	t, s2 := to(d.toUser, d.toTag)
	d.toText = "<sip:" + d.toUser + "@h>"
	if rich {
		x := one()
		f.GetAddress().SetDisplayName("N")
		f.SetParameter("x", x)
		d.fromText = "\"N\" " + d.fromText + ";x=" + x
		s = "\"N\" " + s + ";x=" + x
		t.GetAddress().GetURI().(*address.SipURIImpl).SetPort(5070)
		t.SetQuotedParameter("y", x)
		d.toText = "<sip:" + d.toUser + "@h:5070>;y=\"" + x + "\""
		s2 = "<sip:" + d.toUser + "@h:5070>"
		if d.toTag != "" {
			s2 += ";tag=" + d.toTag
		}
		s2 += ";y=\"" + x + "\""
	}
	add(2, f, "From", s)
	add(3, t, "To", s2)
	ci, _ := header.NewCallID(d.callID)
	add(4, ci, "Call-ID", d.callID)
	add(5, header.NewCSeq(d.n, d.method), "CSeq", strconv.Itoa(d.n)+" "+d.method)
	mf := header.NewMaxForwards()
	mf.SetMaxForwards(7)
	if v5 == 1 {
		mf.SetMaxForwards(0)
		hops = "0"
	}
	if rich {
		mf.SetMaxForwards(255)
	}
	add(6, mf, "Max-Forwards", hops)
	for _, k := range []int{extra1, extra2} {
		if h, i := extra(k, d.chars); h != nil {
			hs = append(hs, h...)
			c = append(c, i)
		}
	}
	for _, h := range hs {
		m.AttachHeader(h)
	}
	if v5 == 2 || v5 == 4 {
		n := 1
		if v5 == 2 {
			n = sym.Choice(2)
		}
		d.body = sym.String(n)
		m.SetMessageContentFromString("a", "b", d.body)
		c = c.with("Content-Type", "a/b").with("Content-Length", strconv.Itoa(n))
	}
	d.content = c
}

const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// vary is one of 5 shapes of messages: with one to three Vias, a body or none, tag or none, a method of 2, 3 or 6 letters.
func vary() *dialog {
	n := sym.Choice(5)
	return &dialog{variant: n, chars: tokenChars, method: sym.StringIn([]int{2, 6, 3, 3, 6}[n], upper), target: "sip:r@h"}
}

// request is a request with the usual headers but the lack-th of them, and up to two extra kinds.
func request(lack, extra1, extra2 int) (*message.SIPRequest, *dialog) {
	d := vary()
	return requestOf(d, lack, extra1, extra2), d
}

func requestOf(d *dialog, lack, extra1, extra2 int) *message.SIPRequest {
	m := message.NewSIPRequest()
	m.SetMethod(d.method)
	attach(m, d, lack, extra1, extra2)
	u := uri("r")
	if d.params != "" {
		d.target = "sip:r@h:5070;x=" + d.toUser
		u.SetPort(5070)
		u.SetParameter("x", d.toUser)
	}
	m.SetRequestURI(u)
	return m
}

// response is a response with the usual headers but the lack-th of them, and up to two extra kinds.
func response(lack, extra1, extra2 int) (*message.SIPResponse, *dialog) {
	d := vary()
	m := message.NewSIPResponse()
	code := sym.Range(100, 699)
	m.SetStatusCode(code)
	m.SetReasonPhrase("OK")
	attach(m, d, lack, extra1, extra2)
	return m, d
}

func has(s, sub string) bool { return strings.Contains(s, sub) }
