package rtp

import (
	"net"

	"github.com/use-go/gosips/rtp"

	"verif/harness/sym"
)

type settings struct {
	proto                  rtp.TransmissionProtocol
	bind                   net.IP
	ifidx                  uint32
	portbase               uint16
	ttl                    uint8
	local                  []net.IP
	rtps, rtpr, rtcs, rtcr int
}

// H_R09_params: 3 (thorough 4) settings of transmission parameters with any values: every getter shows the value set
// last, or its default.
func H_R09_params() {
	p := rtp.NewTransmissionParams()
	w := settings{portbase: 5000, ttl: 1, rtps: 32768, rtpr: 32768, rtcs: 32768, rtcr: 32768}
	sym.Assert(rtp.TRANS_DEFAULTPORTBASE == 5000 && rtp.TRANS_RTPRECEIVEBUFFER == 32768, "defaults")
	for i := sym.Bound(3, 4); i > 0; i-- {
		switch sym.Choice(11) {
		case 0:
			w.proto = rtp.TransmissionProtocol(sym.Byte())
			p.SetTransmissionProtocol(w.proto)
		case 1:
			w.bind = net.IP(sym.Bytes(4))
			p.SetBindIP(w.bind)
		case 2:
			w.ifidx = sym.U32()
			p.SetMulticastInterfaceIndex(w.ifidx)
		case 3:
			w.portbase = sym.U16()
			p.SetPortbase(w.portbase)
		case 4:
			w.ttl = sym.Byte()
			p.SetMulticastTTL(w.ttl)
		case 5:
			w.local = []net.IP{net.IP(sym.Bytes(4)), net.IP(sym.Bytes(16))}[:sym.Choice(3)]
			p.SetLocalIPList(w.local)
		case 6:
			w.rtps = int(sym.I32())
			p.SetRTPSendBuffer(w.rtps)
		case 7:
			w.rtpr = int(sym.I32())
			p.SetRTPReceiveBuffer(w.rtpr)
		case 8:
			w.rtcs = int(sym.I32())
			p.SetRTCPSendBuffer(w.rtcs)
		case 9:
			w.rtcr = int(sym.I32())
			p.SetRTCPReceiveBuffer(w.rtcr)
		case 10:
			p.SetBindIP(nil)
			w.bind = nil
		}
	}
	sym.Assert(p.GetTransmissionProtocol() == w.proto && p.GetMulticastInterfaceIndex() == w.ifidx && p.GetPortbase() == w.portbase && p.GetMulticastTTL() == w.ttl, "protocol, interface, port and time to live")
	sym.Assert(p.GetRTPSendBuffer() == w.rtps && p.GetRTPReceiveBuffer() == w.rtpr, "RTP buffers")
	sym.Assert(p.GetRTCPSendBuffer() == w.rtcs && p.GetRTCPReceiveBuffer() == w.rtcr, "RTCP buffers")
	sym.Assert(string(p.GetBindIP()) == string(w.bind) && (p.GetBindIP() == nil) == (w.bind == nil), "bind address")
	sameIPs(p.GetLocalIPList(), w.local)
}

func sameIPs(l, want []net.IP) {
	sym.Assert(len(l) == len(want), "number of local addresses")
	for i := range want {
		sym.Assert(string(l[i]) == string(want[i]), "local addresses in order")
	}
}

// v4 tells whether an address is an IPv4 address, in 4 bytes or in the 16 bytes that net.ParseIP gives.
func v4(ip net.IP) bool {
	if len(ip) == 4 {
		return true
	}
	ok := sym.And(ip[10] == 0xff, ip[11] == 0xff)
	for i := 0; i < 10; i++ {
		ok = sym.And(ok, ip[i] == 0)
	}
	return ok
}

// anyIP is any address of 4 or 16 bytes.
func anyIP() net.IP {
	switch sym.Choice(3) {
	case 0:
		return net.IP(sym.Bytes(4))
	case 1:
		return net.IP(sym.Bytes(16))
	}
	b := sym.Bytes(4)
	return net.IPv4(b[0], b[1], b[2], b[3])
}

// H_R09_info: the description of a transmission over 1..3 local addresses of either kind.
func H_R09_info() {
	l := []net.IP{anyIP(), net.IP(sym.Bytes(16)), net.IP(sym.Bytes(4))}[:1+sym.Choice(3)]
	a, b := int(sym.I32()), int(sym.I32())
	t := rtp.NewTransmissionInfo(l, a, b)
	sym.Assert(t.GetRTPSocket() == a && t.GetRTCPSocket() == b, "sockets")
	sameIPs(t.GetLocalIPList(), l)
	if v4(l[0]) {
		sym.Assert(t.GetTransmissionProtocol() == rtp.IPv4UDPProto, "IPv4")
	} else {
		sym.Assert(t.GetTransmissionProtocol() == rtp.IPv6UDPProto, "IPv6")
	}
}

// H_R09_type: the type of addresses with any IP of 4 or 16 bytes or any host of 0..2 bytes, after up to 2 changes.
func H_R09_type() {
	if sym.Bool() {
		s, p := sym.String(sym.Choice(3)), sym.U16()
		a := rtp.NewHostAddress("x", 1)
		if sym.Bool() {
			a = rtp.NewHostAddress(s, p)
		} else {
			a.SetHost(s)
			a.SetPort(p)
		}
		sym.Assert(a.GetAddressType() == rtp.HostAddressType && a.GetHost() == s && a.GetPort() == p, "host address")
		return
	}
	ip, p := anyIP(), sym.U16()
	a := rtp.NewIPAddress(ip, p)
	if sym.Bool() {
		ip = anyIP()
		a.SetIP(ip)
		p = sym.U16()
		a.SetPort(p)
	}
	sym.Assert(string(a.GetIP()) == string(ip) && a.GetPort() == p, "IP and port")
	if v4(ip) {
		sym.Assert(a.GetAddressType() == rtp.IPv4AddressType, "IPv4")
	} else {
		sym.Assert(a.GetAddressType() == rtp.IPv6AddressType, "IPv6")
	}
	sym.Assert(a.Clone().GetAddressType() == a.GetAddressType(), "type of a clone")
}

// H_R09_text: the text of host addresses of 0..2 bytes and of 5 IP addresses, with 4 ports.
func H_R09_text() {
	i := sym.Choice(4)
	p, P := []uint16{0, 9, 5060, 65535}[i], []string{"0", "9", "5060", "65535"}[i]
	if sym.Bool() {
		s := sym.String(sym.Choice(3))
		sym.Assert(rtp.NewHostAddress(s, p).String() == s+":"+P, "text of a host address")
		return
	}
	s := sym.Pick("0.0.0.0", "10.0.0.1", "255.255.255.255", "192.168.1.20", "1.2.3.4")
	ip := net.ParseIP(s)
	if sym.Bool() {
		ip = ip.To4()
	}
	sym.Assert(rtp.NewIPAddress(ip, p).String() == s+":"+P, "text of an IP address")
}

// H_R09_raw: received packets of 0..4 (8) bytes from any address at any time, and their data cleared.
func H_R09_raw() {
	b := sym.Bytes(sym.Choice(sym.Bound(5, 9)))
	t := anyTime()
	a := someAddr(3)
	is := sym.Bool()
	p := rtp.NewRawPacket(b, a, t, is)
	sym.Assert(string(p.GetData()) == string(b) && p.GetDataLength() == len(b), "data")
	sym.Assert(p.GetReceiveTime() == t && p.GetSenderAddress() == a && p.IsRTP() == is, "time, sender and kind")
	p.ZeroData()
	sym.Assert(p.GetData() == nil && p.GetDataLength() == 0, "no data")
	sym.Assert(p.GetReceiveTime() == t && p.GetSenderAddress() == a && p.IsRTP() == is, "time, sender and kind are kept")
}

// H_R09_time: the receive time of a parsed packet is the one of the raw packet, and its own.
func H_R09_time() {
	q := rtp.NewPacket(0, nil, 1, 2, 3, false, 0, nil, false, 0, 0, nil)
	t := anyTime()
	was := t.Clone()
	p, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(q.GetPacket(), nil, t, true))
	sym.Assert(err == nil && same(p.GetReceiveTime(), was), "receive time")
	t.Add(rtp.NewRTPTimeFromFloat64(1))
	sym.Assert(same(p.GetReceiveTime(), was), "a change of the raw packet's time does not show")
}
