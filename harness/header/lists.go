package header

import (
	"container/list"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

const listKinds = 24

func user(s string) *address.AddressImpl {
	u := address.NewSipURIImpl()
	u.SetUser(s)
	u.SetHostString("h")
	a := address.NewAddressImpl()
	a.SetURI(u)
	return a
}

// listOf is an empty list of the k-th kind, its name, and how to make an element of s, and its value; lines tells
// whether each element stands on its own line.
func listOf(k int) (l header.SIPHeaderLister, name string, elem func(s string) (header.Header, string), lines bool) {
	addressed := func(h interface {
		header.Header
		SetAddress(address.Address)
	}, s string) (header.Header, string) {
		h.SetAddress(user(s))
		return h, "<sip:" + s + "@h>"
	}
	switch k {
	case 0:
		return header.NewViaList(), "Via", func(s string) (header.Header, string) {
			h := header.NewVia()
			h.SetHostFromString(s)
			return h, "SIP/2.0/UDP " + s
		}, false
	case 1:
		return header.NewContactList(), "Contact", func(s string) (header.Header, string) { return addressed(header.NewContact(), s) }, false
	case 2:
		return header.NewRouteList(), "Route", func(s string) (header.Header, string) { return addressed(header.NewRoute(), s) }, false
	case 3:
		return header.NewRecordRouteList(), "Record-Route", func(s string) (header.Header, string) { return addressed(header.NewRecordRoute(), s) }, false
	case 4:
		return header.NewAcceptList(), "Accept", func(s string) (header.Header, string) {
			h := header.NewAccept()
			h.SetContentType(s)
			h.SetContentSubType("*")
			return h, s + "/*"
		}, false
	case 5:
		return header.NewAcceptEncodingList(), "Accept-Encoding", func(s string) (header.Header, string) {
			h := header.NewAcceptEncoding()
			h.SetEncoding(s)
			return h, s
		}, false
	case 6:
		return header.NewAcceptLanguageList(), "Accept-Language", func(s string) (header.Header, string) {
			h := header.NewAcceptLanguage()
			h.SetLanguageRange(s)
			return h, s
		}, false
	case 7:
		return header.NewAlertInfoList(), "Alert-Info", func(s string) (header.Header, string) {
			h := header.NewAlertInfo()
			h.SetAlertInfo(user(s).GetURI())
			return h, "<sip:" + s + "@h>"
		}, false
	case 8:
		return header.NewCallInfoList(), "Call-Info", func(s string) (header.Header, string) {
			h := header.NewCallInfo()
			h.SetInfo(user(s).GetURI())
			return h, "<sip:" + s + "@h>"
		}, false
	case 9:
		return header.NewErrorInfoList(), "Error-Info", func(s string) (header.Header, string) {
			h := header.NewErrorInfo()
			h.SetErrorInfo(user(s).GetURI())
			return h, "<sip:" + s + "@h>"
		}, false
	case 10:
		return header.NewAllowEventsList(), "Allow-Events", func(s string) (header.Header, string) {
			h := header.NewAllowEvents()
			h.SetEventType(s)
			return h, s
		}, false
	case 11:
		return header.NewAllowList(), "Allow", func(s string) (header.Header, string) {
			h := header.NewAllow()
			h.SetMethod(s)
			return h, s
		}, false
	case 12:
		return header.NewContentEncodingList(), "Content-Encoding", func(s string) (header.Header, string) {
			h := header.NewContentEncoding()
			h.SetEncoding(s)
			return h, s
		}, false
	case 13:
		return header.NewContentLanguageList(), "Content-Language", func(s string) (header.Header, string) {
			h := header.NewContentLanguage()
			h.SetLanguageTag(s)
			return h, s
		}, false
	case 14:
		return header.NewInReplyToList(), "In-Reply-To", func(s string) (header.Header, string) {
			h := header.NewInReplyTo()
			h.SetCallId(s)
			return h, s
		}, false
	case 15:
		return header.NewProxyRequireList(), "Proxy-Require", func(s string) (header.Header, string) {
			h := header.NewProxyRequire()
			h.SetOptionTag(s)
			return h, s
		}, false
	case 16:
		return header.NewRequireList(), "Require", func(s string) (header.Header, string) {
			h := header.NewRequire()
			h.SetOptionTag(s)
			return h, s
		}, false
	case 17:
		return header.NewSupportedList(), "Supported", func(s string) (header.Header, string) {
			h := header.NewSupported()
			h.SetOptionTag(s)
			return h, s
		}, false
	case 18:
		return header.NewUnsupportedList(), "Unsupported", func(s string) (header.Header, string) {
			h := header.NewUnsupported()
			h.SetOptionTag(s)
			return h, s
		}, false
	case 19:
		return header.NewReasonList(), "Reason", func(s string) (header.Header, string) {
			h := header.NewReason()
			h.SetProtocol(s)
			return h, s
		}, false
	case 20:
		return header.NewWarningList(), "Warning", func(s string) (header.Header, string) {
			h := header.NewWarning()
			h.SetCode(301)
			h.SetAgent("a")
			h.SetText(s)
			return h, "301 a \"" + s + "\""
		}, false
	case 21:
		return header.NewWWWAuthenticateList(), "WWW-Authenticate", func(s string) (header.Header, string) {
			h := header.NewWWWAuthenticate()
			h.SetRealm(s)
			return h, "Digest realm=\"" + s + "\""
		}, true
	case 22:
		return header.NewProxyAuthenticateList(), "Proxy-Authenticate", func(s string) (header.Header, string) {
			h := header.NewProxyAuthenticate()
			h.SetNonce(s)
			return h, "Digest nonce=\"" + s + "\""
		}, true
	}
	return header.NewExtensionHeaderList("X-Y"), "X-Y", func(s string) (header.Header, string) {
		h := header.NewExtension("X-Y")
		h.SetValue(s)
		return h, s
	}, true
}

type item struct {
	h    header.Header
	body string
}

// H_H04_lists: 3 (4) operations on each of 24 kinds of lists: elements of any alphanumeric character, or of an empty value where the value is one text, added at either end
// or removed, another list of 0..2 elements or the list itself joined at either end, clones.
func H_H04_lists() {
	k := sym.Choice(listKinds)
	l, name, elem, lines := listOf(k)
	_, empty := elem("")
	plain := empty == "" // an element may have an empty value
	var ref []item
	fresh := func() item {
		if plain && sym.Bool() {
			h, b := elem("")
			return item{h, b}
		}
		h, b := elem(sym.StringIn(1, alnum))
		return item{h, b}
	}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		switch sym.Choice(6) {
		case 0:
			x := fresh()
			l.PushBack(x.h)
			ref = append(ref, x)
		case 1:
			x := fresh()
			l.PushFront(x.h)
			ref = append([]item{x}, ref...)
		case 2:
			if len(ref) > 0 {
				if sym.Bool() {
					l.Remove(l.Front())
					ref = ref[1:]
				} else {
					l.Remove(l.Back())
					ref = ref[: len(ref)-1 : len(ref)-1]
				}
			}
		case 3:
			m, _, _, _ := listOf(k)
			var add []item
			for j := sym.Choice(3); j > 0; j-- {
				x := fresh()
				m.PushBack(x.h)
				add = append(add, x)
			}
			top := sym.Bool()
			l.Concatenate(m, top)
			sym.Assert(m.Len() == len(add), "the other list stays as it was")
			if top {
				ref = append(add, ref...)
			} else {
				ref = append(ref[:len(ref):len(ref)], add...)
			}
		case 4:
			l.Concatenate(l, sym.Bool())
			ref = append(ref[:len(ref):len(ref)], ref...)
		case 5:
			c := l.Clone().(header.SIPHeaderLister)
			sym.Assert(c.String() == l.String() && c.Len() == l.Len() && c.GetName() == name, "a clone is the same")
			if len(ref) > 0 {
				l.Remove(l.Back())
				sym.Assert(c.Len() == len(ref), "a clone does not change with its original")
			}
			for e, j := c.Front(), 0; e != nil; e, j = e.Next(), j+1 {
				sym.Assert(e.Value != interface{}(ref[j].h), "the elements of a clone are clones")
				ref[j] = item{e.Value.(header.Header), ref[j].body}
			}
			l = c
		}
	}
	body, text := "", ""
	var each []string
	for i, x := range ref {
		if i > 0 {
			body += ","
		}
		body += x.body
		text += name + ": " + x.body + "\r\n"
		each = append(each, name+": "+x.body+"\r\n")
	}
	sym.Assert(l.Len() == len(ref), "a list has its elements")
	for e, j := l.Front(), 0; e != nil; e, j = e.Next(), j+1 {
		sym.Assert(e.Value.(header.Header).EncodeBody() == ref[j].body, "the elements of a list are in order")
	}
	sym.Assert(l.GetName() == name && l.EncodeBody() == body && l.GetValue() == body, "the value of a list is its elements joined")
	if len(ref) > 0 {
		if !lines {
			text = name + ": " + body + "\r\n"
		}
		sym.Assert(l.String() == text, "a list is encoded with its elements in order")
	}
	same(l.GetHeadersAsEncodedStrings(), each)
}

func same(l *list.List, want []string) {
	sym.Assert(l.Len() == len(want), "there are as many as elements")
	for e, i := l.Front(), 0; e != nil; e, i = e.Next(), i+1 {
		sym.Assert(e.Value.(string) == want[i], "each is encoded in order")
	}
}

// H_H04_methods: SetMethods and GetMethods of Allow and Allow-Events with 0..3 (4) methods of 1..2 characters; contacts
// of a Contact list; first and last of an Accept-Language list.
func H_H04_methods() {
	n := sym.Choice(sym.Bound(4, 5))
	ms := list.New()
	var want []string
	for i := 0; i < n; i++ {
		m := token(2)
		ms.PushBack(m)
		want = append(want, m)
	}
	switch sym.Choice(4) {
	case 0:
		l := header.NewAllowList()
		sym.Assert(l.SetMethods(ms) == nil, "methods are set")
		same(l.GetMethods(), want)
		ms.PushBack("")
		sym.Assert(l.SetMethods(ms) != nil, "an empty method is refused")
	case 1:
		l := header.NewAllowEventsList()
		sym.Assert(l.SetMethods(ms) == nil, "methods are set")
		same(l.GetMethods(), want)
		ms.PushBack("")
		sym.Assert(l.SetMethods(ms) != nil, "an empty event type is refused")
	case 2:
		l := header.NewContactList()
		var cs []*header.Contact
		for range want {
			c := header.NewContact()
			l.AddContact(c)
			cs = append(cs, c)
		}
		got := l.GetContacts()
		sym.Assert(len(got) == n, "there are as many as elements")
		for i := range got {
			sym.Assert(got[i] == header.ContactHeader(cs[i]), "contacts are in order")
		}
	case 3:
		l := header.NewAcceptLanguageList()
		for _, s := range want {
			h := header.NewAcceptLanguage()
			h.SetLanguageRange(s)
			l.PushBack(h)
		}
		if n > 0 {
			sym.Assert(l.GetFirst().EncodeBody() == want[0] && l.GetLast().EncodeBody() == want[n-1], "first and last")
		} else {
			sym.Assert(l.GetFirst().EncodeBody() == "" && l.GetLast().EncodeBody() == "", "none is first or last")
		}
	}
}
