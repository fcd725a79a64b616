package core

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"

	"verif/harness/sym"
)

func isLabel(c byte) bool {
	return isDig(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-'
}

func isRef(c byte) bool {
	return isDig(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' || c == '.' || c == ':' || c == '['
}

// hostLen is the length of the host at the start of s, or -1.
func hostLen(s string) int {
	if s != "" && s[0] == '[' {
		n := run(s, isRef)
		if n < len(s) && s[n] == ']' {
			return n + 1
		}
		return -1
	}
	n := run(s, func(c byte) bool { return isLabel(c) || c == '.' })
	if n == 0 {
		return -1
	}
	return n
}

// H_C03_parse: host and port from any text of 0..6 (thorough 8) bytes: accepted exactly by the grammar, with the
// values at their place, the text after them untouched, and the encoding reads back to the same host and port.
func H_C03_parse() {
	n := sym.Choice(sym.Bound(7, 9))
	s := sym.String(n)
	p := core.NewHostNameParser(s)
	hp, err := p.GetHostPort()
	h := hostLen(s)
	if h < 0 {
		sym.Assert(err != nil, "no host")
		return
	}
	if h < n && s[h] == ':' {
		d := run(s[h+1:], isDig)
		sym.Assert((err == nil) == (d > 0), "a colon is followed by a port")
		if err != nil {
			return
		}
		w := 0
		for i := 0; i < d; i++ {
			w = w*10 + int(s[h+1+i]-'0')
		}
		sym.Assert(hp.HasPort() && hp.GetPort() == w, "port value")
		sym.Assert(p.GetLexer().MarkInputPosition() == h+1+d, "position after the port")
	} else {
		sym.Assert(err == nil && !hp.HasPort(), "no port")
		sym.Assert(p.GetLexer().MarkInputPosition() == h, "position after the host")
	}
	sym.Assert(hp.GetHost().GetHostName() == s[:h], "host name")
	e := hp.String()
	want := s[:h]
	if hp.HasPort() {
		want += ":" + strconv.Itoa(hp.GetPort())
	}
	sym.Assert(e == want, "encoding is the host and the port")
	hp2, err := core.NewHostNameParser(e).GetHostPort()
	sym.Assert(err == nil, "the encoding parses")
	sym.Assert(hp2.GetHost().GetHostName() == s[:h] && hp2.GetPort() == hp.GetPort() && hp2.String() == e, "and reads back")
}

// H_C03_host: host objects from any text of 1..5 (thorough 7) bytes: names keep their text, texts with a colon are IPv6
// addresses and are encoded in brackets exactly once, setters keep the trimmed text (names in lower case).
func H_C03_host() {
	s := sym.String(1 + sym.Choice(sym.Bound(5, 7)))
	v6 := false
	ascii := true
	for i := 0; i < len(s); i++ {
		v6 = sym.Or(v6, s[i] == ':')
		ascii = sym.And(ascii, s[i] < 0x80)
	}
	h := core.NewHost(s)
	sym.Assert(h.GetHostName() == s && h.GetAddress() == s, "the text given")
	want := s
	if v6 && !(s[0] == '[' && s[len(s)-1] == ']') {
		want = "[" + s + "]"
	}
	sym.Assert(h.String() == want, "brackets around IPv6 addresses")
	if v6 {
		sym.Assert(h.IsIPAddress() && !h.IsHostName(), "an IPv6 address is an address")
	}
	sym.Assume(ascii)
	a, b := 0, len(s)
	for a < b && (s[a] == ' ' || s[a] >= 9 && s[a] <= 13) {
		a++
	}
	for b > a && (s[b-1] == ' ' || s[b-1] >= 9 && s[b-1] <= 13) {
		b--
	}
	g := core.NewHost("x")
	if sym.Bool() {
		g.SetHostAddress(s)
		sym.Assert(g.GetAddress() == s[a:b] && g.IsIPAddress(), "address set")
	} else {
		g.SetHostName(s)
		w := []byte(s[a:b])
		for i := range w {
			if w[i] >= 'A' && w[i] <= 'Z' {
				w[i] += 32
			}
		}
		sym.Assert(g.GetHostName() == string(w) && g.IsHostName() == !v6, "name set in lower case")
	}
	c := g.Clone().(*core.Host)
	before := g.String()
	sym.Assert(c.String() == before && c.IsHostName() == g.IsHostName(), "a clone is equal")
	g.SetHostName("changed")
	sym.Assert(c.String() == before, "a clone is independent")
}

// H_C03_lookup: 3 (thorough 4) changes of a host among 5 addresses and names: the IP address shown is that of the last change.
func H_C03_lookup() {
	ips := []string{"1.2.3.4", "1.2.3.5", "::1", "2001:db8::7", "10.0.0.255"}
	cur := ips[sym.Choice(5)]
	h := core.NewHost(cur)
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(5) {
		case 0:
			cur = ips[sym.Choice(5)]
			h.SetHostAddress(cur)
		case 1:
			cur = ips[sym.Choice(5)]
			h.SetAddress(cur)
		case 2:
			cur = ips[sym.Choice(5)]
			h.SetHostName(cur)
		case 3:
			h = h.Clone().(*core.Host)
		case 4:
			ip := h.GetInetAddress()
			sym.Assert(ip != nil && ip.String() == cur, "the address of the last change")
		}
	}
	sym.Assert(h.GetInetAddress().String() == cur && h.GetIpAddress() == cur, "the address shown last")
	hp := core.NewHostPort()
	sym.Assert(hp.GetInetAddress() == nil, "no host, no address")
	hp.SetHost(h)
	sym.Assert(hp.GetInetAddress().String() == cur && hp.GetHost() == h, "the address of the host")
}

// H_C03_hostport: setting and removing the port, encoding, and cloning, any port value.
func H_C03_hostport() {
	hp := core.NewHostPort()
	sym.Assert(hp.String() == "" && !hp.HasPort(), "empty")
	p := sym.Range(0, 65535)
	hp.SetPort(p)
	sym.Assert(hp.HasPort() && hp.GetPort() == p && hp.String() == "", "port without host")
	hp.SetHost(core.NewHost("a.b"))
	sym.Assert(hp.String() == "a.b:"+strconv.Itoa(p), "host and port")
	c := hp.Clone().(*core.HostPort)
	hp.RemovePort()
	sym.Assert(!hp.HasPort() && hp.String() == "a.b", "port removed")
	hp.GetHost().SetHostName("z")
	sym.Assert(c.String() == "a.b:"+strconv.Itoa(p) && c.GetPort() == p, "clone is independent")
}

type pair struct {
	n string
	v interface{}
	q bool
}

func (x pair) val() string {
	if x.v == nil {
		return ""
	}
	return x.v.(string)
}

func (x pair) str() string {
	q := ""
	if x.q {
		q = "\""
	}
	if x.v == nil {
		return x.n
	}
	if x.n == "" {
		return q + x.v.(string) + q
	}
	return x.n + "=" + q + x.v.(string) + q
}

// H_C04_pair: text of one pair: any name and value of 0..2 bytes, absent value, quotes, separator.
func H_C04_pair() {
	x := pair{n: sym.String(sym.Choice(3))}
	if sym.Bool() {
		x.v = sym.String(sym.Choice(3))
	}
	nv := core.NewNameValue(x.n, x.v)
	x.q = sym.Bool()
	if x.q {
		nv.SetQuotedValue()
	}
	sym.Assert(nv.GetName() == x.n && nv.GetValue() == x.v && nv.IsValueQuoted() == x.q, "pair values")
	sym.Assert(nv.String() == x.str(), "pair text")
	c := nv.Clone().(*core.NameValue)
	nv.SetName("new")
	nv.SetValue("other")
	sym.Assert(c.String() == x.str() && c.IsValueQuoted() == x.q, "clone is independent")
	nv.SetSeparator(":")
	q := ""
	if x.q {
		q = "\""
	}
	sym.Assert(nv.String() == "new:"+q+"other"+q, "separator")
}

func name1() string {
	c := sym.Byte()
	sym.Assume(c < 128)
	return string([]byte{c})
}

// H_C04_history: 4 (thorough 5) operations with names of one ASCII character and values of one byte on a list, and separator ; or ,
// against an ordered reference list: add, set, delete, concatenate at either end, clone.
func H_C04_history() {
	l := core.NewNameValueList("x")
	sep := ";"
	if sym.Choice(2) == 1 {
		sep = ","
		l.SetSeparator(sep)
	}
	var ref []pair
	text := func(r []pair) string {
		s := ""
		for i, x := range r {
			if i > 0 {
				s += sep
			}
			s += x.str()
		}
		return s
	}
	find := func(n string) int {
		for i := range ref {
			if strings.EqualFold(ref[i].n, n) {
				return i
			}
		}
		return -1
	}
	check := func() {
		sym.Assert(l.Len() == len(ref), "number of pairs")
		sym.Assert(l.String() == text(ref), "pairs in order")
		n := name1()
		i := find(n)
		sym.Assert(l.HasNameValue(n) == (i >= 0), "name present exactly when added")
		if i >= 0 {
			sym.Assert(l.GetValue(n) == ref[i].v && l.GetParameter(n) == ref[i].val(), "value of the first pair of a name")
		} else {
			sym.Assert(l.GetValue(n) == nil && l.GetParameter(n) == "" && l.GetNameValue(n) == nil, "no value")
		}
		names := l.GetNames()
		sym.Assert(names.Len() == len(ref), "names")
		j := 0
		for e := names.Front(); e != nil; e = e.Next() {
			sym.Assert(e.Value == ref[j].n, "names in order")
			j++
		}
	}
	k := sym.Bound(4, 5)
	for s := 0; s < k; s++ {
		switch sym.Choice(5) {
		case 0:
			x := pair{n: name1(), v: sym.String(1)}
			if i := sym.Choice(3); i < 2 {
				if i == 1 {
					x.v = nil
				}
				l.AddNameAndValue(x.n, x.v)
			} else {
				nv := core.NewNameValue(x.n, x.v)
				nv.SetQuotedValue()
				x.q = true
				l.AddNameValue(nv)
			}
			ref = append(ref, x)
		case 1:
			x := pair{n: name1(), v: sym.String(1)}
			l.SetNameAndValue(x.n, x.v)
			var r []pair
			for _, y := range ref {
				if !strings.EqualFold(y.n, x.n) {
					r = append(r, y)
				}
			}
			ref = append(r, x)
		case 2:
			n := name1()
			i := find(n)
			sym.Assert(l.Delete(n) == (i >= 0), "deleted exactly when present")
			if i >= 0 {
				ref = append(append([]pair(nil), ref[:i]...), ref[i+1:]...)
			}
		case 3:
			m := core.NewNameValueList("y")
			add := []pair{{"p", "1", false}, {"q", "2", false}}
			for _, x := range add {
				m.AddNameAndValue(x.n, x.v)
			}
			top := sym.Bool()
			l.Concatenate(m, top)
			if top {
				ref = append(add, ref...)
			} else {
				ref = append(ref, add...)
			}
			sym.Assert(m.Len() == 2, "the other list is unchanged")
		case 4:
			c := l.Clone().(*core.NameValueList)
			was := text(ref)
			grow := sym.Bool()
			sym.Assert(c.String() == was && c.Len() == len(ref), "a clone is equal")
			spoil := func(y *core.NameValueList) {
				for e := y.Front(); e != nil; e = e.Next() {
					e.Value.(*core.NameValue).SetValue("changed")
				}
				y.AddNameAndValue("k", "v")
				y.SetSeparator("/")
			}
			if grow {
				l = c
				break
			}
			if sym.Bool() {
				spoil(c)
				sym.Assert(l.String() == was, "changing a clone leaves the original")
			} else {
				spoil(l)
				sym.Assert(c.String() == was, "changing the original leaves its clone")
				l = c
			}
		}
	}
	check()
}
