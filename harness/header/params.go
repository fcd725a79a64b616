package header

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

type parameters interface {
	header.Header
	GetParameter(name string) string
	HasParameter(name string) bool
	SetParameter(name, value string) error
	RemoveParameter(name string)
	HasParameters() bool
	RemoveParameters()
	SetQuotedParameter(name, value string)
	GetParameters() *core.NameValueList
}

func sipURI() *address.SipURIImpl {
	u := address.NewSipURIImpl()
	u.SetUser("a")
	u.SetHostString("b")
	return u
}

func addr() *address.AddressImpl {
	a := address.NewAddressImpl()
	a.SetURI(sipURI())
	return a
}

const withParameters = 18

// withParams is a header of any kind that has parameters, and its encoding without any.
func withParams(k int) (parameters, string) {
	switch k {
	case 0:
		h := header.NewVia()
		h.SetHostFromString("h")
		return h, "Via: SIP/2.0/UDP h"
	case 1:
		h := header.NewFrom()
		h.SetAddress(addr())
		return h, "From: <sip:a@b>"
	case 2:
		h := header.NewTo()
		h.SetAddress(addr())
		return h, "To: <sip:a@b>"
	case 3:
		h := header.NewContact()
		h.SetAddress(addr())
		return h, "Contact: <sip:a@b>"
	case 4:
		h := header.NewRoute()
		h.SetAddress(addr())
		return h, "Route: <sip:a@b>"
	case 5:
		h := header.NewRecordRoute()
		h.SetAddress(addr())
		return h, "Record-Route: <sip:a@b>"
	case 6:
		h := header.NewReplyTo()
		h.SetAddress(addr())
		return h, "Reply-To: <sip:a@b>"
	case 7:
		h := header.NewReferTo()
		h.SetAddress(addr())
		return h, "Refer-To: <sip:a@b>"
	case 8:
		h := header.NewAccept()
		h.SetContentType("a")
		h.SetContentSubType("b")
		return h, "Accept: a/b"
	case 9:
		h := header.NewAcceptEncoding()
		h.SetEncoding("a")
		return h, "Accept-Encoding: a"
	case 10:
		h := header.NewAcceptLanguage()
		h.SetLanguageRange("a")
		return h, "Accept-Language: a"
	case 11:
		return header.NewContentTypeFromString("a", "b"), "Content-Type: a/b"
	case 12:
		h := header.NewContentDisposition()
		h.SetDispositionType("a")
		return h, "Content-Disposition: a"
	case 13:
		h := header.NewEvent()
		h.SetEventType("a")
		return h, "Event: a"
	case 14:
		h := header.NewCallInfo()
		h.SetInfo(sipURI())
		return h, "Call-Info: <sip:a@b>"
	case 15:
		h := header.NewReason()
		h.SetProtocol("a")
		return h, "Reason: a"
	case 16:
		h := header.NewRetryAfter()
		h.SetRetryAfter(5)
		return h, "Retry-After: 5"
	case 17:
		h := header.NewSubscriptionState()
		h.SetState("a")
		return h, "Subscription-State: a"
	}
	return nil, ""
}

type nv struct {
	name, value string
	quoted      bool
}

// history does n operations on the parameters of h and of a list, and checks that they agree after each.
func history(h parameters, text string, names []string, n int) {
	var ps []nv
	find := func(name string) int {
		for i, p := range ps {
			if p.name == name {
				return i
			}
		}
		return -1
	}
	for ; n > 0; n-- {
		name := names[sym.Choice(len(names))]
		i := find(name)
		switch sym.Choice(4) {
		case 0:
			v := sym.StringIn(sym.Choice(2), tokens)
			sym.Assert(h.SetParameter(name, v) == nil, "a parameter is set")
			if i < 0 {
				ps = append(ps, nv{name, v, false})
			} else {
				ps[i].value = v
			}
		case 1:
			v := sym.StringIn(sym.Choice(2), tokens+" ;,=<>")
			h.SetQuotedParameter(name, v)
			if i < 0 {
				ps = append(ps, nv{name, v, true})
			} else {
				ps[i].value, ps[i].quoted = v, true
			}
		case 2:
			h.RemoveParameter(name)
			if i >= 0 {
				ps = append(ps[:i:i], ps[i+1:]...)
			}
		case 3:
			h.RemoveParameters()
			ps = nil
		}
		sym.Assert(h.HasParameters() == (len(ps) > 0), "a header has parameters iff there are some")
		want := text
		for _, p := range ps {
			want += ";" + p.name + "="
			if p.quoted {
				want += "\"" + p.value + "\""
			} else {
				want += p.value
			}
		}
		sym.Assert(h.String() == want+"\r\n", "a header is encoded with its parameters")
		for _, name := range names {
			i := find(name)
			sym.Assert(h.HasParameter(name) == (i >= 0), "a parameter is there iff it was set")
			if i >= 0 {
				sym.Assert(h.GetParameter(name) == ps[i].value, "a parameter has the value set last")
			} else {
				sym.Assert(h.GetParameter(name) == "", "a parameter removed has no value")
			}
		}
	}
}

// H_H02_kinds: any 3 (4) operations (set, set quoted, remove, remove all) with 2 names on each of 18 kinds of header.
func H_H02_kinds() {
	h, text := withParams(sym.Choice(withParameters))
	history(h, text, []string{"x", "y"}, sym.Bound(3, 4))
}

// H_H02_history: any 4 (5) operations with 3 names on a From header.
func H_H02_history() {
	h, text := withParams(1)
	history(h, text, []string{"x", "y", "xy"}, sym.Bound(4, 5))
}

// H_H02_names: any two names of 1..2 characters that differ in more than case set and one removed, on any kind of header.
func H_H02_names() {
	h, text := withParams(sym.Choice(withParameters))
	a, b := token(2), token(2)
	sym.Assume(!strings.EqualFold(a, b))
	v, w := token(2), token(2)
	h.SetParameter(a, v)
	h.SetParameter(b, w)
	sym.Assert(h.GetParameter(a) == v && h.GetParameter(b) == w, "a parameter has the value set last")
	sym.Assert(h.String() == text+";"+a+"="+v+";"+b+"="+w+"\r\n", "a header is encoded with its parameters")
	h.RemoveParameter(a)
	sym.Assert(!h.HasParameter(a) && h.GetParameter(b) == w, "only the parameter named is removed")
	sym.Assert(h.String() == text+";"+b+"="+w+"\r\n", "a header is encoded with its parameters")
}

// H_H05_via: any 4 (5) of 17 operations on a Via: transport, host, port, comment, branch, received, maddr and ttl set or
// removed, bad values refused, cloned, on a Via with a host or whose host is set last; any token characters, ports and time to live.
func H_H05_via() {
	h := header.NewVia()
	late := sym.Bool() // the host is set last
	if !late {
		h.SetHostFromString("h")
	}
	transport, host, comment, branch, received, maddr := "UDP", "h", "", "", "", ""
	port, ttl := -1, -1
	var order []string // of the parameters
	present := func(name string) {
		for _, n := range order {
			if n == name {
				return
			}
		}
		order = append(order, name)
	}
	absent := func(name string) {
		for i, n := range order {
			if n == name {
				order = append(order[:i:i], order[i+1:]...)
				return
			}
		}
	}
	for n := sym.Bound(4, 5); n > 0; n-- {
		switch sym.Choice(12) {
		case 0:
			transport = token(2)
			sym.Assert(h.SetTransport(transport) == nil, "a field is set")
		case 1:
			host = sym.Pick("10.1.2.3", "x.org", "[::1]")
			h.SetHostFromString(host)
			late = false
		case 2:
			port = int(sym.Range(1, 65535))
			h.SetPort(port)
		case 3:
			h.RemovePort()
			port = -1
		case 4:
			comment = sym.StringIn(1, alnum)
			h.SetComment(comment)
		case 5:
			h.RemoveComment()
			comment = ""
		case 6:
			branch = token(1)
			sym.Assert(h.SetBranch(branch) == nil, "a field is set")
			present("branch")
		case 7:
			received = sym.Pick("1.2.3.4", "::1")
			sym.Assert(h.SetReceived(received) == nil, "a field is set")
			present("received")
		case 8:
			maddr = sym.Pick("1.2.3.4", "x.org")
			sym.Assert(h.SetMAddr(maddr) == nil, "a field is set")
			present("maddr")
		case 9:
			ttl = sym.Range(0, 255)
			sym.Assert(h.SetTTL(ttl) == nil, "a field is set")
			present("ttl")
		case 10:
			switch sym.Choice(4) {
			case 0:
				h.RemoveParameter("branch")
				branch = ""
				absent("branch")
			case 1:
				h.RemoveParameter("ttl")
				ttl = -1
				absent("ttl")
			case 2:
				sym.Assert(h.SetTransport("") != nil && h.SetBranch("") != nil && h.SetTTL(256) != nil, "a bad field is refused")
			case 3:
				h.RemoveParameters()
				branch, received, maddr, ttl, order = "", "", "", -1, nil
			}
		case 11:
			h = h.Clone().(*header.Via)
		}
	}
	if late {
		sym.Assert(h.GetHost() == "" && h.GetPort() == port && h.HasPort() == (port != -1), "a Via without host")
		h.SetHostFromString(host)
	}
	want := "Via: SIP/2.0/" + upper(transport) + " " + host
	if port != -1 {
		want += ":" + strconv.Itoa(port)
	}
	if comment != "" {
		want += " (" + comment + ")"
	}
	for _, n := range order {
		want += ";" + n + "=" + map[string]string{"branch": branch, "received": received, "maddr": maddr, "ttl": strconv.Itoa(ttl)}[n]
	}
	sym.Assert(h.String() == want+"\r\n", "a Via is encoded with what was set last")
	sym.Assert(h.GetTransport() == transport && h.GetHost() == host && h.GetComment() == comment, "a field is what was set last")
	sym.Assert(h.GetPort() == port && h.HasPort() == (port != -1), "a port is what was set last")
	sym.Assert(h.GetBranch() == branch && h.GetReceived() == received && h.GetMAddr() == maddr && h.GetTTL() == ttl, "a parameter is what was set last")
}
