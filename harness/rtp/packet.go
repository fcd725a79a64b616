package rtp

import (
	"github.com/use-go/gosips/rtp"

	"verif/harness/sym"
)

func be16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }
func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

type built struct {
	pt     uint8
	seq    uint16
	ts     uint32
	ssrc   uint32
	marker bool
	csrcs  []uint32
	ext    bool
	extid  uint16
	words  []uint32
	pay    []byte
}

func someSpec() *built {
	s := &built{}
	s.pt = sym.Byte()
	s.seq = sym.U16()
	s.ts = sym.U32()
	s.ssrc = sym.U32()
	s.marker = sym.Bool()
	nc := sym.Choice(16)
	for i := 0; i < nc; i++ {
		s.csrcs = append(s.csrcs, sym.U32())
	}
	s.ext = sym.Choice(2) == 1
	if s.ext {
		s.extid = sym.U16()
		nw := sym.Choice(sym.Bound(3, 6))
		for i := 0; i < nw; i++ {
			s.words = append(s.words, sym.U32())
		}
	}
	s.pay = sym.Bytes(sym.Choice(sym.Bound(4, 9)))
	return s
}

func (s *built) build() *rtp.RTPPacket {
	return rtp.NewPacket(s.pt, s.pay, s.seq, s.ts, s.ssrc, s.marker, uint8(len(s.csrcs)), s.csrcs, s.ext, s.extid, uint16(len(s.words)), s.words)
}

// check compares every accessor of p with the specification.
func (s *built) check(p *rtp.RTPPacket, when string) {
	sym.Assert(p.GetPayloadType() == s.pt, when+": payload type")
	sym.Assert(p.GetSequenceNumber() == s.seq, when+": sequence number")
	sym.Assert(p.GetTimestamp() == s.ts, when+": timestamp")
	sym.Assert(p.GetSSRC() == s.ssrc, when+": SSRC")
	sym.Assert(p.HasMarker() == s.marker, when+": marker")
	sym.Assert(int(p.GetCSRCCount()) == len(s.csrcs), when+": CSRC count")
	for i := range s.csrcs {
		sym.Assert(p.GetCSRC(uint8(i)) == s.csrcs[i], when+": CSRC value")
	}
	sym.Assert(p.GetCSRC(uint8(len(s.csrcs))) == 0, when+": CSRC beyond the count")
	sym.Assert(p.HasExtension() == s.ext, when+": extension flag")
	if s.ext {
		sym.Assert(p.GetExtensionID() == s.extid, when+": extension id")
		sym.Assert(int(p.GetExtensionLength()) == len(s.words), when+": extension length")
		d := p.GetExtensionData()
		sym.Assert(len(d) == len(s.words), when+": extension data length")
		for i := range s.words {
			sym.Assert(d[i] == s.words[i], when+": extension data")
		}
	}
	pl := p.GetPayload()
	sym.Assert(len(pl) == len(s.pay), when+": payload length")
	for i := range s.pay {
		sym.Assert(pl[i] == s.pay[i], when+": payload byte")
	}
}

// H_R01_roundtrip: any payload type, marker, sequence number, timestamp, SSRC; 0..15 CSRCs;
// no extension or one of 0..2 (thorough 5) words; payload of 0..3 (8) bytes; all contents symbolic.
func H_R01_roundtrip() {
	s := someSpec()
	ok := s.pt < 128 && s.pt != 72 && s.pt != 73
	p := s.build()
	sym.Assert((p != nil) == ok, "packet built exactly for payload types below 128 other than 72 and 73")
	if p == nil {
		return
	}
	s.check(p, "after build")
	cs, ws, pay := s.csrcs, s.words, s.pay
	s.csrcs, s.words, s.pay = append([]uint32(nil), s.csrcs...), append([]uint32(nil), s.words...), append([]byte(nil), s.pay...)
	spoilWords(cs)
	spoilWords(ws)
	spoil(pay)
	s.check(p, "after what was given is changed")
	raw := rtp.NewRawPacket(p.GetPacket(), rtp.NewHostAddress("h", 1), rtp.NewRTPTimeFromFloat64(1), true)
	q, err := rtp.NewRTPPacketFromRawPacket(raw)
	sym.Assert(err == nil, "built packet parses")
	if err != nil {
		return
	}
	s.check(q, "after parse")
	b, c := p.GetPacket(), q.GetPacket()
	sym.Assert(len(b) == len(c), "packet length kept")
	for i := range b {
		sym.Assert(b[i] == c[i], "packet bytes kept")
	}
	sym.ObserveInt("len", len(b))
}

// H_R01_counts: declared CSRC and extension counts may differ from the slices given:
// the builder reports an error and never reads past them.
func H_R01_counts() {
	n := uint8(sym.Range(0, 255))
	cs := make([]uint32, sym.Choice(4))
	ext := sym.Bool()
	el := sym.U16()
	sym.Assume(el < 8)
	words := make([]uint32, sym.Choice(3))
	p := &rtp.RTPPacket{}
	err := p.BuildPacket(1, nil, 1, 2, 3, false, n, cs, ext, 7, el, words)
	good := n <= 15 && int(n) <= len(cs) && (!ext || int(el) <= len(words))
	sym.Assert((err == nil) == good, "build succeeds exactly when the counts fit")
	if err == nil {
		sym.Assert(p.GetCSRCCount() == n, "CSRC count kept")
		sym.Assert(p.HasExtension() == ext, "extension flag kept")
	}
}

// H_R02_layout: the built bytes follow the RFC 3550 layout field by field.
func H_R02_layout() {
	s := someSpec()
	sym.Assume(s.pt < 128 && s.pt != 72 && s.pt != 73)
	p := s.build()
	sym.Assert(p != nil, "built")
	b := p.GetPacket()
	want := 12 + 4*len(s.csrcs) + len(s.pay)
	if s.ext {
		want += 4 + 4*len(s.words)
	}
	sym.Assert(len(b) == want, "packet length")
	sym.Assert(b[0]>>6 == 2, "version 2")
	sym.Assert(b[0]&0x20 == 0, "no padding")
	sym.Assert((b[0]&0x10 != 0) == s.ext, "X bit")
	sym.Assert(int(b[0]&0x0f) == len(s.csrcs), "CC field")
	sym.Assert((b[1]&0x80 != 0) == s.marker, "M bit")
	sym.Assert(b[1]&0x7f == s.pt, "PT field")
	sym.Assert(be16(b[2:]) == s.seq, "sequence number field")
	sym.Assert(be32(b[4:]) == s.ts, "timestamp field")
	sym.Assert(be32(b[8:]) == s.ssrc, "SSRC field")
	o := 12
	for i := range s.csrcs {
		sym.Assert(be32(b[o:]) == s.csrcs[i], "CSRC list in order")
		o += 4
	}
	if s.ext {
		sym.Assert(be16(b[o:]) == s.extid, "extension id field")
		sym.Assert(int(be16(b[o+2:])) == len(s.words), "extension length field")
		o += 4
		for i := range s.words {
			sym.Assert(be32(b[o:]) == s.words[i], "extension words in order")
			o += 4
		}
	}
	for i := range s.pay {
		sym.Assert(b[o+i] == s.pay[i], "payload follows the headers")
	}
	sym.ObserveInt("b0", int(b[0]))
}

// H_R02_longext: extensions of 255, 256, 16383, 16384, 16385, 32768 and 65535 words, beyond what a byte or a 16-bit
// offset counts; symbolic first and last words.
func H_R02_longext() {
	sym.StepLimit(40000000)
	n := []int{255, 256, 16383, 16384, 16385, 32768, 65535}[sym.Choice(7)]
	w := make([]uint32, n)
	w[0] = sym.U32()
	w[n-1] = sym.U32()
	p := rtp.NewPacket(5, []byte{1, 2}, 1, 2, 3, false, 0, nil, true, 9, uint16(n), w)
	sym.Assert(p != nil, "built")
	b := p.GetPacket()
	sym.Assert(len(b) == 12+4+4*n+2, "length")
	sym.Assert(be16(b[12:]) == 9 && be16(b[14:]) == uint16(n), "extension id and length")
	sym.Assert(be32(b[16:]) == w[0], "first word")
	sym.Assert(be32(b[16+4*(n-1):]) == w[n-1], "last word")
	q, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(b, nil, rtp.NewRTPTimeFromFloat64(1), true))
	sym.Assert(err == nil, "parses")
	d := q.GetExtensionData()
	sym.Assert(len(d) == n && d[0] == w[0] && d[n-1] == w[n-1], "extension words read back")
	sym.Assert(len(q.GetPayload()) == 2 && q.GetPayload()[1] == 2, "payload read back")
}

func spoilWords(w []uint32) {
	for i := range w {
		w[i] = ^w[i]
	}
}

// spoil changes every byte of a buffer that the packet made from it must not share.
func spoil(b []byte) {
	for i := range b {
		b[i] ^= 0xff
	}
}

// H_R03_parse: any byte string of 0,1,11..18,20,21,24 bytes (thorough 0..36,40,44), and of 71..73,76
// (thorough 71..77,80) bytes with at most one of padding and extension: the parser accepts it exactly when it is a
// well-formed RTP packet, and then every accessor shows the bytes at their RFC 3550 place.
func H_R03_parse() {
	lens := []int{0, 1, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 24, 71, 72, 73, 76}
	if sym.Thorough() {
		lens = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 44, 71, 72, 73, 74, 75, 76, 77, 80}
	}
	n := lens[sym.Choice(len(lens))]
	b := sym.Bytes(n)
	if n > 70 {
		sym.Assume(b[0]&0x30 != 0x30)
	}
	isrtp := sym.Bool()
	data := append([]byte(nil), b...)
	q, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(data, nil, rtp.NewRTPTimeFromFloat64(1), isrtp))
	sym.Assert((q == nil) == (err != nil), "a packet or an error")
	spoil(data)
	if n < 12 || !isrtp {
		sym.Assert(err != nil, "too short or not received as RTP")
		return
	}
	good := b[0]>>6 == 2
	cc := sym.ConcretizeInt(int(b[0] & 15))
	off := 12 + 4*cc
	if off > n {
		sym.Assert(err != nil, "CSRC list beyond the packet")
		return
	}
	if b[1] == 200 || b[1] == 201 {
		good = false
	}
	x := b[0]&0x10 != 0
	el := 0
	if x {
		if off+4 > n {
			sym.Assert(err != nil, "extension header beyond the packet")
			return
		}
		l := int(be16(b[off+2:]))
		if off+4+4*l > n {
			sym.Assert(err != nil, "extension beyond the packet")
			return
		}
		el = sym.ConcretizeInt(l)
	}
	poff := off
	if x {
		poff += 4 + 4*el
	}
	pad := 0
	if b[0]&0x20 != 0 {
		pd := int(b[n-1])
		if poff+pd > n {
			sym.Assert(err != nil, "padding beyond the payload")
			return
		}
		pad = sym.ConcretizeInt(pd)
	}
	sym.Assert((err == nil) == good, "accepted exactly when version is 2 and the type is not RTCP")
	if err != nil {
		return
	}
	sym.ObserveInt("pt", int(q.GetPayloadType()))
	sym.ObserveInt("cc", int(q.GetCSRCCount()))
	sym.Assert(q.GetPayloadType() == b[1]&0x7f, "payload type")
	sym.Assert(q.HasMarker() == (b[1] >= 128), "marker")
	sym.Assert(q.GetSequenceNumber() == be16(b[2:]), "sequence number")
	sym.Assert(q.GetTimestamp() == be32(b[4:]), "timestamp")
	sym.Assert(q.GetSSRC() == be32(b[8:]), "SSRC")
	sym.Assert(int(q.GetCSRCCount()) == cc, "CSRC count")
	for i := 0; i < cc; i++ {
		sym.Assert(q.GetCSRC(uint8(i)) == be32(b[12+4*i:]), "CSRC value")
	}
	sym.Assert(q.HasExtension() == x, "extension flag")
	if x {
		sym.Assert(q.GetExtensionID() == be16(b[off:]), "extension id")
		sym.Assert(int(q.GetExtensionLength()) == el, "extension length")
		d := q.GetExtensionData()
		sym.Assert(len(d) == el, "extension words")
		for i := 0; i < el; i++ {
			sym.Assert(d[i] == be32(b[off+4+4*i:]), "extension word")
		}
	} else {
		sym.Assert(q.GetExtensionID() == 0 && q.GetExtensionLength() == 0 && len(q.GetExtensionData()) == 0, "no extension data without the X bit")
	}
	pl := q.GetPayload()
	sym.Assert(len(pl) == n-pad-poff, "payload length without headers and padding")
	for i := range pl {
		sym.Assert(pl[i] == b[poff+i], "payload bytes")
	}
	pk := q.GetPacket()
	sym.Assert(len(pk) == n, "raw packet kept")
	for i := range pk {
		sym.Assert(pk[i] == b[i], "raw packet bytes")
	}
}

// H_R03_header: the header and extension parsers on any short byte string.
func H_R03_header() {
	n := sym.Choice(sym.Bound(21, 33))
	b := sym.Bytes(n)
	h, err := rtp.NewRTPHeaderFromBytes(b)
	if err == nil {
		e := h.Encode()
		sym.Assert(len(e) <= n && len(e) == 12+4*int(b[0]&15), "header length")
		for i := range e {
			sym.Assert(e[i] == b[i], "re-encoding a parsed header gives the same bytes")
		}
	} else {
		sym.Assert(n < 12 || n < 12+4*int(b[0]&15), "only truncated headers are rejected")
	}
	x := rtp.NewRTPExtensionFromBytes(b)
	if x != nil {
		e := x.Encode()
		sym.Assert(len(e) <= n && len(e) == 4+4*int(be16(b[2:])), "extension length")
		for i := range e {
			sym.Assert(e[i] == b[i], "re-encoding a parsed extension gives the same bytes")
		}
	} else {
		sym.Assert(n < 4 || n < 4+4*int(be16(b[2:])), "only truncated extensions are rejected")
	}
}

// H_R04_app: any APP packet of 0..24 (thorough 40) bytes, with up to 2 bytes after it, whose buffer changes afterwards.
func H_R04_app() {
	n := sym.Choice(sym.Bound(25, 41))
	b := sym.Bytes(n)
	data := append([]byte(nil), b...)
	if n%4 == 0 && sym.Choice(2) == 1 {
		data = append(data, 4, sym.Byte())
	}
	p := rtp.NewRTCPAPPPacket(data, n)
	spoil(data)
	checkCommon(&p.RTCPPacket, b, rtp.APP)
	good := n > 0
	pad := 0
	if n > 0 && b[0]&0x20 != 0 {
		pd := int(b[n-1])
		if pd&3 != 0 || pd >= n {
			good = false
		} else {
			pad = pd
		}
	}
	if n-pad < 12 {
		good = false
	}
	sym.Assert(p.IsKnownFormat() == good, "known format exactly for well-formed packets")
	sym.ObserveBool("known", p.IsKnownFormat())
	if !good {
		sym.Assert(p.GetSSRC() == 0 && p.GetSubType() == 0 && p.GetName() == nil && p.GetAPPData() == nil && p.GetAPPDataLength() == 0, "nothing reported for an unknown format")
		return
	}
	sym.Assert(p.GetSubType() == b[0]&0x1f, "subtype")
	sym.Assert(p.GetSSRC() == be32(b[4:]), "SSRC")
	nm := p.GetName()
	sym.Assert(len(nm) == 4, "name has four bytes")
	for i := range nm {
		sym.Assert(nm[i] == b[8+i], "name")
	}
	sym.Assert(p.GetAPPDataLength() == n-12-pad, "data length excludes header and padding")
	d := p.GetAPPData()
	sym.Assert(len(d) == p.GetAPPDataLength(), "data has the reported length")
	for i := range d {
		sym.Assert(d[i] == b[12+i], "data")
	}
}

func checkCommon(p *rtp.RTCPPacket, b []byte, t rtp.RTCPPacketType) {
	sym.Assert(p.GetPacketType() == t, "packet type")
	sym.Assert(p.GetPacketLength() == len(b), "packet length")
	d := p.GetPacketData()
	sym.Assert(len(d) == len(b), "packet data length")
	for i := range d {
		sym.Assert(d[i] == b[i], "packet data")
	}
}

// H_R04_bye: any BYE packet of 0..24 (thorough 40) bytes, with up to 2 bytes after it, whose buffer changes afterwards.
func H_R04_bye() {
	n := sym.Choice(sym.Bound(25, 41))
	b := sym.Bytes(n)
	data := append([]byte(nil), b...)
	if n%4 == 0 && sym.Choice(2) == 1 {
		data = append(data, 4, sym.Byte())
	}
	p := rtp.NewRTCPBYEPacket(data, n)
	spoil(data)
	checkCommon(&p.RTCPPacket, b, rtp.BYE)
	good := n > 0
	pad := 0
	sc := 0
	if n > 0 {
		sc = sym.ConcretizeInt(int(b[0] & 0x1f))
	}
	if n > 0 && b[0]&0x20 != 0 {
		pd := int(b[n-1])
		if pd&3 != 0 || pd >= n {
			good = false
		} else {
			pad = sym.ConcretizeInt(pd)
		}
	}
	so := 4 + 4*sc
	reason := false
	if good {
		if so > n-pad {
			good = false
		} else if so < n-pad {
			reason = true
			if int(b[so]) > n-pad-so-1 {
				good = false
			}
		}
	}
	sym.Assert(p.IsKnownFormat() == good, "known format exactly for well-formed packets")
	sym.ObserveBool("known", p.IsKnownFormat())
	if !good {
		sym.Assert(p.GetSSRCCount() == 0 && p.GetSSRC(0) == 0 && !p.HasReasonForLeaving() && p.GetReasonLength() == 0 && p.GetReasonData() == nil, "nothing reported for an unknown format")
		return
	}
	sym.Assert(p.GetSSRCCount() == sc, "SSRC count")
	for i := 0; i < sc; i++ {
		sym.Assert(p.GetSSRC(i) == be32(b[4+4*i:]), "SSRC value")
	}
	sym.Assert(p.HasReasonForLeaving() == reason, "reason present")
	if !reason {
		sym.Assert(p.GetReasonLength() == 0 && p.GetReasonData() == nil, "no reason")
		return
	}
	rl := sym.ConcretizeInt(int(b[so]))
	sym.Assert(p.GetReasonLength() == rl, "reason length")
	d := p.GetReasonData()
	sym.Assert(len(d) == rl, "reason has its announced length")
	for i := range d {
		sym.Assert(d[i] == b[so+1+i], "reason text")
	}
}

// H_R04_generic: the generic RTCP packet keeps a private copy of the data and its type.
func H_R04_generic() {
	n := sym.Choice(9)
	b := sym.Bytes(n)
	m := sym.Choice(n + 1)
	t := rtp.RTCPPacketType(sym.Choice(7))
	p := rtp.NewRTCPPacket(t, b, m)
	keep := append([]byte(nil), b...)
	if n > 0 {
		b[0] = sym.Byte()
	}
	checkCommon(p, keep[:m], t)
	sym.Assert(!p.IsKnownFormat(), "format unknown")
}
