package message

import (
	"time"

	"github.com/use-go/gosips/sip/header"

	"verif/harness/sym"
)

// kind is a kind of headers: how one is made of a text, whether a message keeps several of them, and whether it belongs
// in requests or responses only.
type kind struct {
	name      string
	one       func(s string) (header.Header, string)
	many      bool
	req, resp bool
}

func address1(h interface {
	header.Header
	header.AddressHeader
}, s string) (header.Header, string) {
	h.SetAddress(addr(s))
	return h, "<sip:" + s + "@h>"
}

func realm(h header.AuthorizationHeader, s string) (header.Header, string) {
	h.SetScheme("Digest")
	h.SetRealm(s)
	return h.(header.Header), "Digest realm=\"" + s + "\""
}

// every are the kinds of headers; the first are those that are treated specially in derived messages.
var every = []kind{
	{"", nil, false, false, false},
	{"Record-Route", func(s string) (header.Header, string) { return address1(header.NewRecordRoute(), s) }, true, false, false},
	{"Route", func(s string) (header.Header, string) { return address1(header.NewRoute(), s) }, true, true, false},
	{"Contact", func(s string) (header.Header, string) { return address1(header.NewContact(), s) }, true, false, false},
	{"Require", func(s string) (header.Header, string) { h := header.NewRequire(); h.SetOptionTag(s); return h, s }, true, false, false},
	{"Proxy-Require", func(s string) (header.Header, string) { h := header.NewProxyRequire(); h.SetOptionTag(s); return h, s }, true, true, false},
	{"Authorization", func(s string) (header.Header, string) { return realm(header.NewAuthorization(), s) }, false, true, false},
	{"Proxy-Authorization", func(s string) (header.Header, string) { return realm(header.NewProxyAuthorization(), s) }, false, true, false},
	{"Timestamp", func(s string) (header.Header, string) {
		h := header.NewTimeStamp()
		h.SetTimeStamp(54.25)
		if sym.Bool() {
			h.SetDelay(0.5)
			return h, "54.25 0.5"
		}
		return h, "54.25"
	}, false, false, false},
	{"X-y", func(s string) (header.Header, string) { h := header.NewExtension("X-y"); h.SetValue(s); return h, s }, true, false, false},
	{"Subject", func(s string) (header.Header, string) { h := header.NewSubject(); h.SetSubject(s); return h, s }, false, true, false},
	{"Server", func(s string) (header.Header, string) { h := header.NewServer(); h.AddProductToken(s); return h, s }, false, false, true},
	{"Unsupported", func(s string) (header.Header, string) { h := header.NewUnsupported(); h.SetOptionTag(s); return h, s }, true, false, true},
	{"WWW-Authenticate", func(s string) (header.Header, string) { return realm(header.NewWWWAuthenticate(), s) }, true, false, true},
	{"Expires", func(s string) (header.Header, string) { h := header.NewExpires(); h.SetExpires(7); return h, "7" }, false, false, false},
	{"Retry-After", func(s string) (header.Header, string) { h := header.NewRetryAfter(); h.SetRetryAfter(7); return h, "7" }, false, false, true},
	// The others.
	{"Alert-Info", func(s string) (header.Header, string) {
		h := header.NewAlertInfo()
		h.SetAlertInfo(uri(s))
		return h, "<sip:" + s + "@h>"
	}, true, true, false},
	{"In-Reply-To", func(s string) (header.Header, string) { h := header.NewInReplyTo(); h.SetCallId(s); return h, s }, true, true, false},
	{"Priority", func(s string) (header.Header, string) { h := header.NewPriority(); h.SetPriority(s); return h, s }, false, true, false},
	{"Error-Info", func(s string) (header.Header, string) {
		h := header.NewErrorInfo()
		h.SetErrorInfo(uri(s))
		return h, "<sip:" + s + "@h>"
	}, true, false, true},
	{"Proxy-Authenticate", func(s string) (header.Header, string) { return realm(header.NewProxyAuthenticate(), s) }, true, false, true},
	{"Warning", func(s string) (header.Header, string) {
		h := header.NewWarning()
		h.SetCode(307)
		h.SetAgent("h")
		h.SetText(s)
		return h, "307 h \"" + s + "\""
	}, true, false, true},
	{"Accept", func(s string) (header.Header, string) {
		h := header.NewAccept()
		h.SetContentType(s)
		h.SetContentSubType("b")
		return h, s + "/b"
	}, true, false, false},
	{"Accept-Encoding", func(s string) (header.Header, string) { h := header.NewAcceptEncoding(); h.SetEncoding(s); return h, s }, true, false, false},
	{"Accept-Language", func(s string) (header.Header, string) {
		h := header.NewAcceptLanguage()
		h.SetLanguageRange(s)
		return h, s
	}, true, false, false},
	{"Allow", func(s string) (header.Header, string) { h := header.NewAllow(); h.SetMethod("M"); return h, "M" }, true, false, false},
	{"Allow-Events", func(s string) (header.Header, string) { h := header.NewAllowEvents(); h.SetEventType(s); return h, s }, true, false, false},
	{"Call-Info", func(s string) (header.Header, string) {
		h := header.NewCallInfo()
		h.SetInfo(uri(s))
		return h, "<sip:" + s + "@h>"
	}, true, false, false},
	{"Content-Encoding", func(s string) (header.Header, string) {
		h := header.NewContentEncoding()
		h.SetEncoding(s)
		return h, s
	}, true, false, false},
	{"Content-Language", func(s string) (header.Header, string) {
		h := header.NewContentLanguage()
		h.SetLanguageTag(s)
		return h, s
	}, true, false, false},
	{"Content-Disposition", func(s string) (header.Header, string) {
		h := header.NewContentDisposition()
		h.SetDispositionType(s)
		return h, s
	}, false, false, false},
	{"Reason", func(s string) (header.Header, string) { h := header.NewReason(); h.SetProtocol(s); return h, s }, true, false, false},
	{"Supported", func(s string) (header.Header, string) { h := header.NewSupported(); h.SetOptionTag(s); return h, s }, true, false, false},
	{"Date", func(s string) (header.Header, string) {
		h := header.NewDate()
		d := time.Unix(1289690940, 0)
		h.SetDate(&d)
		return h, "Sat, 13 Nov 2010 23:29:00 GMT"
	}, false, false, false},
	{"Event", func(s string) (header.Header, string) { h := header.NewEvent(); h.SetEventType(s); return h, s }, false, false, false},
	{"Min-Expires", func(s string) (header.Header, string) { h := header.NewMinExpires(); h.SetExpires(7); return h, "7" }, false, false, false},
	{"MIME-Version", func(s string) (header.Header, string) {
		h := header.NewMimeVersion()
		h.SetMajorVersion(1)
		h.SetMinorVersion(2)
		return h, "1.2"
	}, false, false, false},
	{"Organization", func(s string) (header.Header, string) {
		h := header.NewOrganization()
		h.SetOrganization(s)
		return h, s
	}, false, false, false},
	{"RAck", func(s string) (header.Header, string) {
		h := header.NewRAck()
		h.SetRSeqNumber(7)
		h.SetCSeqNumber(8)
		h.SetMethod("M")
		return h, "7 8 M"
	}, false, false, false},
	{"RSeq", func(s string) (header.Header, string) { h := header.NewRSeq(); h.SetSequenceNumber(7); return h, "7" }, false, false, false},
	{"Refer-To", func(s string) (header.Header, string) { return address1(header.NewReferTo(), s) }, false, false, false},
	{"Reply-To", func(s string) (header.Header, string) { return address1(header.NewReplyTo(), s) }, false, false, false},
	{"Subscription-State", func(s string) (header.Header, string) { h := header.NewSubscriptionState(); h.SetState(s); return h, s }, false, false, false},
	{"User-Agent", func(s string) (header.Header, string) { h := header.NewUserAgent(); h.AddProductToken(s); return h, s }, false, false, false},
	{"Authentication-Info", func(s string) (header.Header, string) {
		h := header.NewAuthenticationInfo()
		h.SetNextNonce(s)
		return h, "nextnonce=\"" + s + "\""
	}, false, false, false},
}

// special is the number of the kinds treated specially in derived messages, with none.
const special = 16

// extra is one to three more headers of the k-th kind, or none (0).
func extra(k int, chars string) (hs []header.Header, i item) {
	if k == 0 {
		return
	}
	t := every[k]
	i.name = t.name
	n := 1
	if t.many && sym.Bool() {
		n = 2 + sym.Choice(2)
	}
	for ; n > 0; n-- {
		h, s := t.one(sym.StringIn(1, chars))
		hs = append(hs, h)
		i.values = append(i.values, s)
	}
	return
}

// pair is two extra headers: every one alone and each special one with its successor (thorough: every pair of special ones).
func pair() (int, int) {
	a := sym.Choice(len(every))
	if a >= special {
		return a, 0
	}
	if sym.Thorough() {
		b := sym.Choice(special)
		sym.Assume(a == 0 && b == 0 || a < b)
		return a, b
	}
	if a > 0 && sym.Bool() {
		return a, a%(special-1) + 1
	}
	return a, 0
}
