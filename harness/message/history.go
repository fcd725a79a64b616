package message

import (
	"container/list"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"

	"verif/harness/sym"
)

var names = []string{"Via", "Contact", "Subject", "X-y", "From", "Content-Length", "Max-Forwards", "Call-ID", "Record-Route"}

// single is a header of the k-th name with a value of any one character.
func single(k int) (header.Header, string) {
	s := one()
	switch k {
	case 0:
		return via("a", s)
	case 8:
		return address1(header.NewRecordRoute(), s)
	case 1:
		c := header.NewContact()
		c.SetAddress(addr(s))
		return c, "<sip:" + s + "@h>"
	case 2:
		x := header.NewSubject()
		s = s[:sym.Choice(2)]
		x.SetSubject(s)
		return x, s
	case 3:
		x := header.NewExtension("X-y")
		x.SetValue(s)
		return x, s
	case 4:
		return from(s, "t")
	case 5:
		n := sym.Choice(3)
		return header.NewContentLengthFromInt(n), []string{"0", "1", "2"}[n]
	case 6:
		x := header.NewMaxForwards()
		n := sym.Choice(2)
		x.SetMaxForwards(n)
		return x, []string{"0", "1"}[n]
	}
	x, _ := header.NewCallID(s)
	return x, s
}

// many is a list of n headers of the k-th name.
func many(k, n int) (header.SIPHeaderLister, []string) {
	var l header.SIPHeaderLister
	switch k {
	case 0:
		l = header.NewViaList()
	case 1:
		l = header.NewContactList()
	default:
		l = header.NewExtensionHeaderList("X-y")
	}
	var v []string
	for ; n > 0; n-- {
		h, s := single(k)
		l.PushBack(h)
		v = append(v, s)
	}
	return l, v
}

func isList(k int) bool { return k == 0 || k == 1 || k == 3 || k == 8 }

func mixed(s string) string {
	switch sym.Choice(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return lower(s)
	}
	return s
}

// same asserts what a message holds and its encoding.
func same(m *message.SIPMessage, c content, body string) {
	what := "a message has the headers attached and not removed"
	c.holds(m, what)
	lines := map[string]string{}
	for _, i := range c {
		if i.name == "X-y" {
			for _, v := range i.values {
				lines[i.name] += i.name + ": " + v + "\r\n"
			}
		} else {
			lines[i.name] = i.name + ": " + strings.Join(i.values, ",") + "\r\n"
		}
	}
	s, e := "", m.GetHeaderNames().Front()
	for _, i := range c {
		sym.Assert(e.Value.(string) == i.name, "the names of the headers are in order")
		e = e.Next()
		if i.name != "Content-Length" {
			s += lines[i.name]
		}
	}
	sym.Assert(m.String() == s+lines["Content-Length"]+"\r\n"+body, "a message is encoded as its headers")
	for k, n := range names {
		n = mixedOnce(k, n)
		v := c.get(names[k])
		if k == 8 && v == nil {
			continue
		}
		sym.Assert(m.HasHeader(n) == (v != nil), what)
		sym.Assert((m.GetHeaderList(n) == nil) == (v == nil), what)
		if v != nil {
			sym.Assert(m.GetHeaderList(n).Len() == len(v), what)
			sym.Assert(m.GetHeader(n).String() == names[k]+": "+v[0]+"\r\n", what)
		} else {
			sym.Assert(m.GetHeader(n) == nil && m.GetHeaders(n).Len() == 0, what)
		}
	}
	is := func(n string, present bool, get func() string) {
		v := c.get(n)
		sym.Assert(present == (v != nil), "the getters of a message agree")
		if v != nil {
			sym.Assert(get() == n+": "+v[0]+"\r\n", "the getters of a message agree")
		}
	}
	is("From", m.GetFrom() != nil, func() string { return m.GetFrom().String() })
	is("Content-Length", m.GetContentLength() != nil, func() string { return m.GetContentLength().String() })
	is("Max-Forwards", m.GetMaxForwards() != nil, func() string { return m.GetMaxForwards().String() })
	is("Call-ID", m.GetCallId() != nil, func() string { return m.GetCallId().String() })
	is("Via", m.GetTopmostVia() != nil, func() string { return m.GetTopmostVia().String() })
	sym.Assert((m.GetViaHeaders() != nil) == (c.get("Via") != nil) && (m.GetContactHeaders() != nil) == (c.get("Contact") != nil), "the getters of a message agree")
	if v := c.get("Call-ID"); v != nil {
		sym.Assert(m.GetCallIdentifier() == v[0], "the getters of a message agree")
	}
}

// mixedOnce is the name in capital, small or mixed letters, by its place.
func mixedOnce(k int, n string) string {
	switch k % 3 {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	}
	return n
}

// H_M03_kinds: one to three headers of each of 45 kinds and of a second one attached, added, attached at the top or set,
// asked for, removed one by one from either end, or all, or set to another, on a message with a Subject and with or without
// Record-Route, Contact, Require and Via headers.
func H_M03_kinds() {
	m := message.NewSIPMessage()
	c := content{{"Content-Length", []string{"0"}}}
	k := 1 + sym.Choice(len(every)-1)
	if k != 10 {
		x := header.NewSubject()
		x.SetSubject("s")
		m.AttachHeader(x)
		c = c.with("Subject", "s")
	}
	if sym.Bool() {
		for _, j := range []int{1, 3, 4} {
			if j != k {
				h, v := every[j].one("o")
				m.AttachHeader(h)
				c = c.with(every[j].name, v)
			}
		}
		h, v := via("o", "")
		m.AttachHeader(h)
		c = c.with("Via", v)
	}
	hs, i := extra(k, tokenChars)
	way := sym.Choice(6)
	var v []string
	for j, h := range hs {
		s := i.values[j]
		switch way {
		case 0:
			m.AttachHeader(h)
		case 1:
			m.AddHeader(h)
		case 2:
			m.AttachHeader2(h, false)
		case 3:
			m.AttachHeader3(h, false, true)
		case 4:
			m.AttachHeader2(h, true)
		case 5:
			m.SetHeader(h)
		}
		switch {
		case way >= 4 && every[k].many:
			v = []string{s}
		case way == 3:
			v = append([]string{s}, v...)
		default:
			v = append(v, s)
		}
	}
	c = c.with(i.name, v...)
	what := "a message has the headers attached and not removed"
	c.holds(m, what)
	sym.Assert(m.HasHeader(lower(i.name)) && m.GetHeaderList(strings.ToUpper(i.name)).Len() == len(v), what)
	switch sym.Choice(3) {
	case 0:
		for len(v) > 0 {
			if sym.Bool() {
				m.RemoveHeader2(mixed(i.name), true)
				v = v[1:]
			} else {
				m.RemoveHeader2(mixed(i.name), false)
				v = v[:len(v)-1]
			}
			if len(v) > 0 {
				c = c.with(i.name, v...)
				c.holds(m, what)
			}
		}
		c = c.without(i.name)
	case 1:
		m.RemoveHeader(mixed(i.name))
		c = c.without(i.name)
	case 2:
		h, s := every[k].one(one())
		m.SetHeader(h)
		c = c.with(i.name, s)
	}
	c.holds(m, what)
	sym.Assert(m.HasHeader(i.name) == (c.get(i.name) != nil), what)
}

// H_M03_history: 2 operations out of 11 on a message, empty or with From, Subject, Record-Route and two Vias and no Content-Length:
// attaching, adding, setting, attaching lists of 0..2 elements at either end, the same list twice, or a list of headers and
// lists, setting or removing a body, removing a header or its first or last element, for 8 kinds of headers with any value
// of one character.
func H_M03_history() { history(2, 9, 0, 1, 2, 3, 4, 5, 6, 7) }

// H_M03_longer: 3 operations out of 9 for Via, Subject and Content-Length (thorough: also Contact, extension and From headers).
func H_M03_longer() {
	if sym.Thorough() {
		history(3, 7, 0, 1, 2, 3, 4, 5)
	} else {
		history(3, 7, 0, 2, 5)
	}
}

func history(n, ops int, ks ...int) {
	m := message.NewSIPMessage()
	c := content{{"Content-Length", []string{"0"}}}
	body := ""
	sym.StepLimit(3000000)
	if ops > 7 && sym.Bool() {
		m.RemoveHeader("Content-Length")
		c = nil
		for _, k := range []int{4, 2, 8, 0, 0} {
			h, v := single(k)
			m.AttachHeader(h)
			c = c.with(names[k], append(append([]string{}, c.get(names[k])...), v)...)
		}
	}
	for i := n; i > 0; i-- {
		k := ks[sym.Choice(len(ks))]
		n := names[k]
		join := func(n string, v []string, top bool) {
			old := c.get(n)
			if top {
				c = c.with(n, append(append([]string{}, v...), old...)...)
			} else {
				c = c.with(n, append(append([]string{}, old...), v...)...)
			}
		}
		attached := func(k int, v string, top bool) {
			switch n := names[k]; {
			case isList(k):
				join(n, []string{v}, top)
			case c.get(n) == nil || k == 5:
				c = c.with(n, v)
			}
		}
		switch sym.Choice(ops) {
		case 0, 1:
			h, v := single(k)
			if sym.Bool() {
				m.AddHeader(h)
				attached(k, v, k == 0)
			} else {
				sym.Assert(m.AttachHeader(h) == nil, "a header is attached")
				attached(k, v, false)
			}
		case 2:
			h, v := single(k)
			sym.Assert(m.SetHeader(h) == nil, "a header is set")
			c = c.without(n).with(n, v)
		case 3:
			if !isList(k) {
				k, n = 1, "Contact"
			}
			top := sym.Bool()
			h, v := many(k, sym.Choice(3))
			sym.Assert(m.AttachHeader3(h, false, top) == nil, "a list is attached")
			if len(v) > 0 {
				join(n, v, top)
				if ops > 7 && sym.Bool() {
					sym.Assert(m.AttachHeader3(h, false, top) == nil, "a list is attached")
					join(n, v, top)
				}
			}
		case 4:
			if !isList(k) {
				k, n = 0, "Via"
			}
			h, v := many(k, sym.Choice(3))
			if k == 0 && len(v) > 0 && sym.Bool() {
				m.SetVia(h.(*header.ViaList))
			} else {
				m.SetHeaderFromSIPHeaderList(h)
			}
			if len(v) > 0 {
				c = c.without(n).with(n, v...)
			}
		case 5:
			m.RemoveHeader(mixed(n))
			c = c.without(n)
		case 6:
			top := sym.Bool()
			m.RemoveHeader2(mixed(n), top)
			old := c.get(n)
			if len(old) > 1 && top {
				c = c.with(n, old[1:]...)
			} else if len(old) > 1 {
				c = c.with(n, old[:len(old)-1]...)
			} else {
				c = c.without(n)
			}
		case 7:
			l := list.New()
			h, v := single(k)
			l.PushBack(h)
			attached(k, v, false)
			hl, vs := many(0, 2)
			l.PushBack(hl)
			join("Via", vs, false)
			h, v = single(k)
			l.PushBack(h)
			attached(k, v, false)
			m.SetHeaders(l)
		case 8:
			if sym.Bool() {
				body = sym.String(2)
				m.SetMessageContent(body)
				c = c.with("Content-Length", "2")
			} else {
				body = ""
				m.RemoveContent()
				c = c.with("Content-Length", "0")
			}
		}
		same(m, c, body)
	}
}
