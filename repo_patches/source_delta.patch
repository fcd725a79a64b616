From a04c8ce5e6a480a99d0eded3d70129cd45228bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 001/101] fix: read all four bits of the RTP CSRC count

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 62559179207b5f5f764818dc5b04dc5bd32eedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 002/101] fix: write every byte of each CSRC when encoding an
 RTP header

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From bc0069fc696bee20e730447aaf80428a3777779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 003/101] fix: allocate the RTP header extension before parsing
 its words

---
 rtp/rtp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..a76c5e5 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,6 +231,7 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
+	this.data = make([]uint32, this.length)
 	for i := uint16(0); i < this.length; i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
-- 
2.43.0


From cdd03d1a2a5ac25508331203bda8778d51865265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 004/101] fix: do not overflow 16 bits in the offsets of long
 RTP extensions

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index a76c5e5..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -232,7 +232,7 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 	}
 
 	this.data = make([]uint32, this.length)
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -244,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From bba85b3bb3de91a86cb491fe94b4403d2591a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 005/101] fix: keep the payload of a parsed RTP packet

---
 rtp/rtppacket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..dbdd962 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -88,6 +88,9 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 		return errors.New("invalid payload length.")
 	}
 
+	rp.payload = make([]byte, payloadlength)
+	copy(rp.payload, rp.packet[payloadoffset:payloadoffset+payloadlength])
+
 	return nil
 }
 
-- 
2.43.0


From 352a0c555a9ec6f1cbd4dbfce566a8a9efca652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 006/101] fix: report CSRC and extension counts beyond the
 given data instead of panicking

---
 rtp/rtppacket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index dbdd962..166ab2f 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -154,6 +154,12 @@ func (rp *RTPPacket) BuildPacket(payloadtype uint8,
 	if payloadtype == 72 || payloadtype == 73 { // could cause confusion with rtcp types
 		return errors.New("ERR_RTP_PACKET_BADPAYLOADTYPE")
 	}
+	if int(numcsrcs) > len(csrcs) {
+		return errors.New("ERR_RTP_PACKET_MISSINGCSRCS")
+	}
+	if gotextension && int(extensionlen) > len(extensiondata) {
+		return errors.New("ERR_RTP_PACKET_MISSINGEXTENSIONDATA")
+	}
 
 	var packetlength, packetoffset int
 	packetlength = SIZEOF_RTPHEADER
-- 
2.43.0


From daed28e9f0a5327087e3ced54843a82da58840c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 007/101] fix: extension getters return nothing on RTP packets
 without an extension

---
 rtp/rtppacket.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index 166ab2f..ee2c997 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -290,16 +290,25 @@ func (rp *RTPPacket) GetPayload() []byte {
 
 /** If a header extension is present, rp function returns the extension identifier. */
 func (rp *RTPPacket) GetExtensionID() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.id
 }
 
 /** Returns the length of the header extension data. */
 func (rp *RTPPacket) GetExtensionLength() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.length
 }
 
 /** Returns the header extension data. */
 func (rp *RTPPacket) GetExtensionData() []uint32 {
+	if rp.extension == nil {
+		return nil
+	}
 	return rp.extension.data
 }
 
-- 
2.43.0


From 4cdbc1daf97ea6a408b0429c742879e4a2148388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 008/101] fix: an empty APP or BYE packet is of unknown format,
 not a panic

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..7180518 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen == 0 {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..ab1e39d 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if datalen == 0 {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
-- 
2.43.0


From 6e84f3c6e56347ff97c31c1f6901467c25ed9071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 009/101] fix: limit the APP packet name to four bytes and its
 data to the part before the padding

---
 rtp/rtcpapppacket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 7180518..ecafd38 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
-- 
2.43.0


From 6f947017cdd178fb928f3a9c9b4203e0806fc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 010/101] fix: limit the BYE reason to its announced length

---
 rtp/rtcpbyepacket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index ab1e39d..8fd2647 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -116,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From 28a9ed73bebe15b010fe008057034ab67b5d2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 011/101] fix: a new IPv6 host is of the IPv6 address type

---
 core/Host.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..2c97c14 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,9 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else {
+		host.addressType = IPV4ADDRESS
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
-- 
2.43.0


From 63306e263b0b8902f807c2d62a0b557486bbc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 012/101] fix: concatenate the name-value pairs of a list, not
 its list elements

---
 core/NameValueList.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..4ff09a3 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -47,17 +47,9 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	}
 
 	if !topFlag {
-		//nameValueList.PushBackList(nvl)
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
-		}
+		nameValueList.PushBackList(&nvl.List)
 	} else {
-		//nameValueList.PushFrontList(nvl)
-		// add given items to the end of the list.
-		first := nameValueList.Front()
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
-		}
+		nameValueList.PushFrontList(&nvl.List)
 	}
 }
 
-- 
2.43.0


From b71235039cfb7e5de1f4c1a5ba9ed6e5b1c88134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 013/101] fix: the clone of a name-value list keeps its pairs

---
 core/NameValueList.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 4ff09a3..bcc99a3 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -247,11 +247,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From f3744dd9cceebcc663978548f0fc19deea19ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 014/101] fix: setting a name-value pair replaces every pair of
 that name

---
 core/NameValueList.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index bcc99a3..3a6c2d2 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -129,7 +129,8 @@ func (nameValueList *NameValueList) AddNameAndValue(name string, value interface
 * Set a namevalue object in nameValueList list.
  */
 func (nameValueList *NameValueList) SetNameValue(nv *NameValue) {
-	nameValueList.Delete(nv.name)
+	for nameValueList.Delete(nv.name) {
+	}
 	nameValueList.AddNameValue(nv)
 }
 
-- 
2.43.0


From 235c2501219cac41585a2feed74bd4b2592e631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 015/101] fix: peeking a token at the end of the input reports
 the error

---
 core/CoreLexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..694c294 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,7 +175,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
+			var nextChar byte
+			nextChar, err = coreLexer.GetNextChar()
 			if err != nil {
 				break
 			}
-- 
2.43.0


From 387f8d94c4a5be7d255e9e43feefa34633246a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 016/101] fix: the value of a single-character token is that
 one byte

---
 core/CoreLexer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 694c294..1d8a2c0 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -180,7 +180,7 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 			if err != nil {
 				break
 			}
-			tok.tokenValue += string(nextChar)
+			tok.tokenValue = coreLexer.CharAsString(nextChar)
 			if coreLexer.IsAlpha(nextChar) {
 				tok.tokenType = CORELEXER_ALPHA
 			} else if coreLexer.IsDigit(nextChar) {
@@ -234,7 +234,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 				return nil, errors.New("ParseException: Expecting DIGIT")
 			}
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(next)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else if tok == CORELEXER_ALPHA {
@@ -242,7 +242,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 				return nil, errors.New("ParseException: Expecting ALPHA")
 			}
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(next)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		}
@@ -255,7 +255,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 		}
 		if next == ch {
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(ch)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(ch)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else {
-- 
2.43.0


From 29e6c0273fe6a1adbc06dbd10e72f6754e9d0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 017/101] fix: accept an empty parameter value, as encoded, and
 refuse an unterminated quoted one

---
 core/CoreParser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..91ff6db 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,9 +53,11 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
-		} else {
+		} else if coreParser.lexer.StartsId() {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 86a477ec67b87afc853c18c0b0a192caab94da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:30 +0000
Subject: [PATCH 018/101] fix: SIP URI accessors work without user information
 or authority

---
 sip/address/SipURIImpl.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..a63b731 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,8 +174,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
+	user := this.GetUser()
+	host := this.GetHost()
+	if user == "" {
+		return host
+	}
 	return user + core.SIPSeparatorNames_AT + host
 }
 
@@ -184,12 +187,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -318,6 +318,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -410,7 +413,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +446,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -761,6 +768,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
-- 
2.43.0


From ca5e1991cc256126f4c4dd932f2a2ef3e84f1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:31 +0000
Subject: [PATCH 019/101] fix: SIP URI parameter getters return nothing for
 absent parameters instead of panicking

---
 sip/address/SipURIImpl.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index a63b731..cfea633 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -219,7 +219,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +251,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -351,7 +351,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -684,11 +684,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -755,7 +751,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
-- 
2.43.0


From 54f7591c5115c8d74a8b6d5a6a13d5b1b908bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:33 +0000
Subject: [PATCH 020/101] fix: store the ttl URI parameter as text, as parsed,
 instead of panicking

---
 sip/address/SipURIImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index cfea633..3fe83d1 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -739,7 +739,9 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
 func (this *SipURIImpl) GetTTLParam() int {
 	ttl := this.uriParms.GetValue("ttl")
 	if ttl != nil {
-		return ttl.(int)
+		if n, err := strconv.Atoi(ttl.(string)); err == nil {
+			return n
+		}
 	}
 	return -1
 }
@@ -909,7 +911,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From e790cac879345c733f951f5730737419c67ac453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:56 +0000
Subject: [PATCH 021/101] fix: store the maddr URI parameter as text instead of
 panicking

---
 sip/address/SipURIImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 3fe83d1..fe6608f 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -515,9 +515,9 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
 	host := &core.Host{}
 	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.String())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.String())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
-- 
2.43.0


From 8585d8ea4c79ce6d736e5567a15fd13797b18e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 022/101] fix: SIP URI parameters without a value, such as lr,
 are present

---
 sip/address/SipURIImpl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index fe6608f..d0746b5 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -458,7 +458,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.HasParameter(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
@@ -573,7 +573,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -824,7 +824,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.HasLrParam() {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From 1528f5856855104d6914d22ca26baf63a953b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 023/101] fix: setting a SIP URI parameter replaces the
 previous value

---
 sip/address/SipURIImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index d0746b5..087744d 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -496,7 +496,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Set the qheaders member
@@ -537,7 +537,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
-- 
2.43.0


From 99d647fe040d3ffaa2b63a9a93010c5f3195468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 024/101] fix: URI headers stay separated by & after the
 headers were cleared

---
 sip/address/SipURIImpl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 087744d..7332ef6 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -398,6 +399,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
-- 
2.43.0


From 34a339dcdd598c5eca17df75e109b80f2b86b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:02 +0000
Subject: [PATCH 025/101] fix: the user@host:port of an address is that of its
 SIP URI, without scheme and parameters

---
 sip/address/AddressImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..88de689 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -92,7 +92,7 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
 	}
 	return this.address.String()
 }
-- 
2.43.0


From 64cfcce817223f332602948f6724fb3783dd8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 026/101] fix: address accessors work without a SIP URI host
 and IsSIPAddress tells SIP URIs

---
 sip/address/AddressImpl.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 88de689..d675bb8 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -94,6 +94,9 @@ func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
 		return sipuri.GetUserAtHostPort()
 	}
+	if this.address == nil {
+		return ""
+	}
 	return this.address.String()
 }
 
@@ -103,7 +106,7 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetHost().GetHostName(), nil
+		return sipuri.GetHost(), nil
 	}
 
 	return "", errors.New("RuntimeException: address is not a SipURIImpl")
@@ -241,8 +244,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
-	return ok
+	return this.address != nil && this.address.IsSipURI()
 }
 
 /** Returns the URI address of this Address. The type of URI can be
-- 
2.43.0


From f694fb40f0d879eb76cda9534c6f0f81cbbc952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 027/101] fix: telephone number getters and setters work for
 any parameters present

---
 sip/address/TelURLImpl.go     |  1 +
 sip/address/TelphoneNumber.go | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..d6e2dec 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,7 +57,7 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From fc953966d138c63b4393794d61274aff1e2dc124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 028/101] fix: find the userinfo of a SIP URI in the URI only
 and refuse a bad host

---
 sip/parser/URLParser.go | 61 ++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..471f1dd 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
-	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -407,39 +406,36 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	this.GetLexer().Match(':')
 	retval.SetScheme(core.SIPTransportNames_SIP)
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
-		retval.SetHostPort(hp)
-	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
-			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
+	// [ user [ ":" password ] "@" ] hostPort
+	start := this.GetLexer().MarkInputPosition()
+	var user, password string
+	if user, ParseException = this.User(); ParseException != nil {
+		return nil, ParseException
+	}
+	la, _ := this.GetLexer().LookAheadK(0)
+	if la == ':' {
+		this.GetLexer().ConsumeK(1)
+		if password, ParseException = this.Password(); ParseException != nil {
+			return nil, ParseException
 		}
+		la, _ = this.GetLexer().LookAheadK(0)
 	}
+	if la == '@' {
+		if user == "" {
+			return nil, this.CreateParseException("user expected")
+		}
+		this.GetLexer().ConsumeK(1)
+		retval.SetUser(user)
+		retval.SetUserPassword(password)
+	} else {
+		this.GetLexer().RewindInputPosition(start)
+	}
+	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
+	var hp *core.HostPort
+	if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
+		return nil, ParseException
+	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
@@ -562,6 +558,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From 70ad0496fb6ae01f91aba24c377688db10a6d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 029/101] fix: URI headers need a name and '=' and stop at a
 bad escape

---
 sip/parser/URLParser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 471f1dd..456778a 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -452,9 +452,12 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
 			} else {
 				this.GetLexer().ConsumeK(1)
@@ -477,9 +480,19 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	var name, value string
+	if name, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
+	if name == "" {
+		return nil, this.CreateParseException("header name expected")
+	}
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
+	if value, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -493,11 +506,14 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 			la == '[' || la == ']' || la == '/' || la == '$' ||
 			la == '_' || la == '-' || la == '"' || la == '!' ||
 			la == '~' || la == '*' || la == '.' || la == '(' ||
-			la == ')' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
+			la == ')' || la == '\'' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			str, err := this.Escaped()
+			if err != nil {
+				return "", err
+			}
 			retval.WriteString(str)
 		} else {
 			break
-- 
2.43.0


From f4006d1c83f0ef41dd4884b306550bf909c391e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 030/101] fix: a URI parameter needs a name

---
 sip/parser/URLParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 456778a..6927e66 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -104,6 +104,9 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	if pname, ParseException = this.ParamNameOrValue(); ParseException != nil {
 		return nil, ParseException
 	}
+	if pname == "" {
+		return nil, this.CreateParseException("parameter name expected")
+	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
 		this.GetLexer().ConsumeK(1)
-- 
2.43.0


From a9e5b11f7257f86c5f0c6072477c556af4944517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 031/101] fix: URI parsing ends with an error at the end of the
 text instead of crashing or looping

---
 sip/parser/URLParser.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 6927e66..b8f08af 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -198,7 +198,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -231,7 +231,10 @@ func (this *URLParser) UricString() string {
  */
 func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	var retval address.URI
-	vect, _ := this.GetLexer().PeekNextTokenK(2)
+	vect, err := this.GetLexer().PeekNextTokenK(2)
+	if err != nil {
+		return nil, err
+	}
 	t1 := vect[0]
 	t2 := vect[1]
 
@@ -253,7 +256,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("Expecting a scheme")
+		}
+		retval = uri
 	}
 
 	return retval, nil
@@ -471,9 +478,9 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 }
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
-	tokens, _ := this.GetLexer().PeekNextTokenK(1)
-	if len(tokens) == 0 {
-		return "", nil
+	tokens, err := this.GetLexer().PeekNextTokenK(1)
+	if err != nil {
+		return "", err
 	}
 	scheme := tokens[0].GetTokenValue()
 	return scheme, nil
@@ -541,7 +548,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
-- 
2.43.0


From 6d227dda65021d158934ca3b5e2eb13067c2b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 032/101] fix: '=' is a reserved character of URIs

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index b8f08af..84a2659 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -47,6 +47,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == '?' ||
 		next == ':' ||
 		next == '@' ||
+		next == '=' ||
 		next == '&' ||
 		next == '+' ||
 		next == '$' ||
@@ -125,6 +126,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == '?' ||
 		next == ':' ||
 		next == '@' ||
+		next == '=' ||
 		next == '&' ||
 		next == '+' ||
 		next == '$' ||
-- 
2.43.0


From d2449442d1e0a2b97f3757a34d5731e0438ca4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 033/101] fix: telephone URLs report errors and read all their
 parameters

---
 sip/parser/URLParser.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 84a2659..1d32c26 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -286,6 +286,9 @@ func (this *URLParser) Base_phone_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexpected " + string(w))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
@@ -309,6 +312,9 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexepcted " + string(la))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
@@ -323,14 +329,17 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		tn, ParseException = this.Global_phone_number()
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		tn, ParseException = this.Local_phone_number()
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
 	return tn, nil
 }
@@ -340,13 +349,19 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn.SetGlobal(true)
 
 	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	var b string
+	if b, ParseException = this.Base_phone_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -356,14 +371,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	var b string
+	if b, ParseException = this.Local_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
-		tok, _ := this.GetLexer().PeekNextToken()
-		switch tok.GetTokenType() {
-		case TokenTypes_SEMICOLON:
+		tok, _ := this.GetLexer().LookAheadK(0)
+		switch tok {
+		case ';':
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -381,6 +402,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
-- 
2.43.0


From b721d378d73ccb595b760456895b8f7192b502d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 034/101] fix: a name-addr needs both angle brackets

---
 sip/parser/AddressParser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..b9fb593 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -58,7 +58,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -75,7 +77,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +88,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
-- 
2.43.0


From eeaccc188870e4f334cd960174ff082cac715861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 035/101] fix: display names keep their quoted text and may not
 have stray quotes

---
 sip/parser/AddressParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index b9fb593..7a4b29f 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -75,8 +75,12 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			if strings.ContainsAny(name, "\"\\") {
+				return nil, this.CreateParseException("bad display name")
+			}
+			name = strings.TrimSpace(name)
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
+		addr.SetDisplayName(name)
 		if _, ParseException = lexer.Match('<'); ParseException != nil {
 			return nil, ParseException
 		}
-- 
2.43.0


From 4b57f8678dc99fdfec1d6b9033614049d6c73c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 036/101] fix: header parameters may end with the text

---
 sip/parser/ParametersParser.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..a00a2f5 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -38,9 +38,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 	lexer := this.GetLexer()
 
 	lexer.SPorHT()
-	if ch, ParseException = lexer.LookAheadK(0); ParseException != nil {
-		return ParseException
-	}
+	ch, _ = lexer.LookAheadK(0)
 
 	for ch == ';' {
 		lexer.ConsumeK(1)
@@ -60,9 +58,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		// eat white space
 		lexer.SPorHT()
 
-		if ch, ParseException = lexer.LookAheadK(0); ParseException != nil {
-			return ParseException
-		}
+		ch, _ = lexer.LookAheadK(0)
 	}
 	return nil
 }
-- 
2.43.0


From 7aaa322bae5626ba10b147de8ea697c76150e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 037/101] fix: a message's headers end at the first empty line
 and must be terminated

---
 sip/parser/StringMsgParser.go | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..1656234 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -181,32 +181,21 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 		return nil, nil
 	}
 
-	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
-			}
+	// Find the end of the SIP message: the first empty line.
+	f := -1
+	for k := s; k < len(msgBuffer) && f == -1; k++ {
+		if msgBuffer[k] != '\n' {
+			continue
 		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
-			return nil, errors.New("ParseException: Message not terminated")
+		if k+1 < len(msgBuffer) && msgBuffer[k+1] == '\n' {
+			f = k + 2
+		} else if k+2 < len(msgBuffer) && msgBuffer[k+1] == '\r' && msgBuffer[k+2] == '\n' {
+			f = k + 3
 		}
 	}
+	if f == -1 {
+		return nil, errors.New("ParseException: Message not terminated")
+	}
 
 	// Encode the body as a UTF-8 string.
 	var messageString string
-- 
2.43.0


From ef3cdef7d18a6491b0fc2f85296aee844e6c8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 038/101] fix: headers after a line of white space are parsed
 and every carriage return is removed

---
 sip/parser/StringMsgParser.go | 57 +++++------------------------------
 1 file changed, 8 insertions(+), 49 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 1656234..5cd5820 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -202,65 +202,24 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	messageString = string(msgBuffer[s:f]) //, "UTF-8");
 
 	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
 	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
-
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
-	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
-		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
+	message1 := strings.Replace(messageString, "\r", "", -1)
 
 	// Handle continuations - look for a space or a tab at the start
 	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
-			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
-			}
+	var cooked_message bytes.Buffer
+	for k := 0; k < len(message1); k++ {
+		if message1[k] == '\n' && k+1 < len(message1) &&
+			(message1[k+1] == ' ' || message1[k+1] == '\t') {
+			k++
 		} else {
-			cooked_message1.WriteByte(message1[k])
+			cooked_message.WriteByte(message1[k])
 		}
-		k++
 	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
 
 	// Separate the string out into substrings for
 	// error reporting.
-	this.currentMessage = cooked_message1.String()
+	this.currentMessage = cooked_message.String()
 
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
-- 
2.43.0


From 77c64c37d2205aabf90b6e8858d452e28af7509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:03 +0000
Subject: [PATCH 039/101] fix: ignoring a bad header leaves it out, and a URL
 that is no SIP URL is an error

---
 sip/parser/StringMsgParser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 5cd5820..148b13c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -335,6 +335,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -346,6 +347,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -419,7 +421,14 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
 	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	retval, ok := sipuri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: " + url + " is not a SIP URL")
+	}
+	return retval, nil
 }
 
 /**
-- 
2.43.0


From e7b6f9016d294f2523ad1157de899aff720044fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 040/101] fix: ParseUrl and ParseSIPHeader return what was
 parsed instead of crashing

---
 sip/parser/StringMsgParser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 148b13c..0705f62 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -439,7 +439,13 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
 	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	if retval, ok := guri.(*address.URIImpl); ok {
+		return retval, nil
+	}
+	return address.NewURIImpl(guri.String()), nil
 }
 
 /**
@@ -448,7 +454,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
@@ -457,7 +463,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
@@ -465,7 +471,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 			nmessage += " "
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage += h[i : i+1]
 		}
 	}
 
@@ -476,8 +482,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 0bd1ee5bc0bf3d41476e75eacddad1005ef9fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 041/101] fix: header parsers know the header names and refuse
 lines without the expected text

---
 sip/parser/AcceptEncodingParser.go     | 28 +++++++++++----
 sip/parser/AcceptLanguageParser.go     | 28 +++++++++++----
 sip/parser/AcceptParser.go             | 40 +++++++++++++++------
 sip/parser/AlertInfoParser.go          | 24 +++++++++----
 sip/parser/AllowEventsParser.go        | 20 ++++++++---
 sip/parser/AllowParser.go              | 20 ++++++++---
 sip/parser/AuthenticationInfoParser.go | 12 +++++--
 sip/parser/AuthorizationParser.go      |  4 ++-
 sip/parser/CSeqParser.go               | 12 +++++--
 sip/parser/CallIdParser.go             |  8 +++--
 sip/parser/CallInfoParser.go           | 32 ++++++++++++-----
 sip/parser/ChallengeParser.go          |  8 +++--
 sip/parser/ContactParser.go            | 12 +++++--
 sip/parser/ContentDispositionParser.go | 12 +++++--
 sip/parser/ContentEncodingParser.go    | 16 ++++++---
 sip/parser/ContentLanguageParser.go    | 16 ++++++---
 sip/parser/ContentLengthParser.go      |  8 +++--
 sip/parser/ContentTypeParser.go        | 20 ++++++++---
 sip/parser/DateParser.go               |  4 ++-
 sip/parser/ErrorInfoParser.go          | 24 +++++++++----
 sip/parser/EventParser.go              | 12 +++++--
 sip/parser/ExpiresParser.go            | 12 +++++--
 sip/parser/FromParser.go               |  8 +++--
 sip/parser/HeaderParser.go             | 19 ++++++----
 sip/parser/InReplyToParser.go          | 32 ++++++++++++-----
 sip/parser/MaxForwardsParser.go        |  8 +++--
 sip/parser/MimeVersionParser.go        | 12 +++++--
 sip/parser/MinExpiresParser.go         |  8 +++--
 sip/parser/OrganizationParser.go       |  4 ++-
 sip/parser/PriorityParser.go           | 12 +++++--
 sip/parser/ProxyAuthenticateParser.go  |  4 ++-
 sip/parser/ProxyAuthorizationParser.go |  4 ++-
 sip/parser/ProxyRequireParser.go       | 16 ++++++---
 sip/parser/RAckParser.go               | 12 +++++--
 sip/parser/RSeqParser.go               |  8 +++--
 sip/parser/ReasonParser.go             | 12 +++++--
 sip/parser/RecordRouteParser.go        | 16 ++++++---
 sip/parser/ReferToParser.go            |  8 +++--
 sip/parser/ReplyToParser.go            |  4 ++-
 sip/parser/RequestLineParser.go        |  4 ++-
 sip/parser/RequireParser.go            | 16 ++++++---
 sip/parser/RetryAfterParser.go         | 24 +++++++++----
 sip/parser/RouteParser.go              | 16 ++++++---
 sip/parser/ServerParser.go             |  4 ++-
 sip/parser/SubjectParser.go            |  4 ++-
 sip/parser/SubscriptionStateParser.go  | 48 +++++++++++++++++++-------
 sip/parser/SupportedParser.go          | 16 ++++++---
 sip/parser/TimeStampParser.go          | 12 +++++--
 sip/parser/ToParser.go                 |  8 +++--
 sip/parser/UnsupportedParser.go        | 16 ++++++---
 sip/parser/UserAgentParser.go          |  4 ++-
 sip/parser/WWWAuthenticateParser.go    |  4 ++-
 sip/parser/WarningParser.go            | 24 +++++++++----
 53 files changed, 567 insertions(+), 192 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..4e743bd 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -62,7 +62,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -72,19 +74,29 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, ParseException = lexer.Match(';'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +111,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, ParseException = lexer.Match(','); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..016a372 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -56,25 +56,37 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, ParseException = lexer.Match(';'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +103,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..4c22943 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -47,39 +47,59 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	accept := header.NewAccept()
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..65b01d5 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -50,20 +50,26 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALERT_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ALERT_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +78,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..1b577db 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -40,13 +40,17 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW_EVENTS)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW_EVENTS); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEvents := header.NewAllowEvents()
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -54,11 +58,15 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
@@ -66,7 +74,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..fa62e32 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -40,24 +40,32 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allow := header.NewAllow()
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
@@ -65,7 +73,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..ed7bcfb 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -39,7 +39,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	var ch byte
 	var nv *core.NameValue
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_AUTHENTICATION_INFO)
+	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	authenticationInfo := header.NewAuthenticationInfo()
 	authenticationInfo.SetHeaderName(core.SIPHeaderNames_AUTHENTICATION_INFO)
@@ -53,7 +55,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
@@ -64,7 +68,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index ef04392..038cecc 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -34,7 +34,9 @@ func NewAuthorizationParserFromLexer(lexer core.Lexer) *AuthorizationParser {
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	auth := header.NewAuthorization()
 	ParseException = this.ChallengeParser.Parse(auth)
 	return auth, ParseException
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..a74894c 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -29,9 +29,13 @@ func NewCSeqParserFromLexer(lexer core.Lexer) *CSeqParser {
 
 func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CSEQ)
+	if _, ParseException = lexer.Match(TokenTypes_CSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	var number int
@@ -45,7 +49,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..9b1c8fa 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -44,9 +44,13 @@ func NewCallIDParserFromLexer(lexer core.Lexer) *CallIDParser {
  */
 func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CALL_ID)
+	if _, ParseException = lexer.Match(TokenTypes_CALL_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	rest := strings.TrimSpace(lexer.GetRest())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..68412e2 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -42,42 +42,58 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CALL_INFO)
+	if ParseException = this.HeaderName(TokenTypes_CALL_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..fd00ced 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..0cc344c 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -31,11 +31,15 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	// past the header name and the colon.
 	lexer := this.GetLexer()
 	var la byte
-	this.HeaderName(TokenTypes_CONTACT)
+	if ParseException = this.HeaderName(TokenTypes_CONTACT); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		contact := header.NewContact()
 		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+			if _, ParseException = lexer.Match('*'); ParseException != nil {
+				return nil, ParseException
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -51,7 +55,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..68e25fc 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -36,13 +36,17 @@ func NewContentDispositionParserFromLexer(lexer core.Lexer) *ContentDispositionP
  */
 func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_DISPOSITION)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_DISPOSITION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	cd := header.NewContentDisposition()
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
@@ -52,7 +56,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..09489a9 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -39,14 +39,18 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..7d92952 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -39,14 +39,18 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..6207c1f 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -27,7 +27,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	var number int
 	contentLength := header.NewContentLength()
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LENGTH)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LENGTH); ParseException != nil {
+		return nil, ParseException
+	}
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -35,6 +37,8 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..1ac6ab2 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -27,24 +27,34 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	contentType := header.NewContentType()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_TYPE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_TYPE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..abcda2e 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -36,7 +36,9 @@ func NewDateParserFromLexer(lexer core.Lexer) *DateParser {
  */
 func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_DATE)
+	if ParseException = this.HeaderName(TokenTypes_DATE); ParseException != nil {
+		return nil, ParseException
+	}
 	var t time.Time
 	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..18c3b9b 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -44,20 +44,26 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ERROR_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ERROR_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +72,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..16c2ee6 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -36,11 +36,15 @@ func NewEventParserFromLexer(lexer core.Lexer) *EventParser {
  */
 func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_EVENT)
+	if ParseException = this.HeaderName(TokenTypes_EVENT); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
@@ -50,7 +54,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..bf65df5 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -37,12 +37,18 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	expires := header.NewExpires()
 
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_EXPIRES)
+	if _, ParseException = lexer.Match(TokenTypes_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..05ab4cb 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -30,13 +30,17 @@ func NewFromParserFromLexer(lexer core.Lexer) *FromParser {
 
 func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
-	this.HeaderName(TokenTypes_FROM)
+	if ParseException = this.HeaderName(TokenTypes_FROM); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := from.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..f571d79 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -25,7 +25,7 @@ func NewHeaderParser(header string) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
@@ -34,19 +34,19 @@ func NewHeaderParserFromLexer(lexer core.Lexer) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
 
 func (this *HeaderParser) super(header string) {
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 func (this *HeaderParser) superFromLexer(lexer core.Lexer) {
 	this.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 /** Parse the SIP header from the buffer and return a parsed
@@ -70,9 +70,14 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 
 /** Parse the header name until the colon  and chew WS after that.
  */
-func (this *HeaderParser) HeaderName(tok int) {
-	this.GetLexer().Match(tok)
+func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
+	if _, ParseException = this.GetLexer().Match(tok); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
+	return nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..8a9fd13 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -38,17 +38,25 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_IN_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_IN_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -61,16 +69,24 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match('@'); ParseException != nil {
+					return nil, ParseException
+				}
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..42d8d5b 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -28,7 +28,9 @@ func (this *MaxForwardsParser) super(hname string) {
 
 func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error) {
 	contentLength := header.NewMaxForwards()
-	this.HeaderName(TokenTypes_MAX_FORWARDS)
+	if ParseException = this.HeaderName(TokenTypes_MAX_FORWARDS); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer := this.GetLexer()
 
 	var number int
@@ -39,7 +41,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..5e950e2 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -37,7 +37,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	mimeVersion := header.NewMimeVersion()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIME_VERSION)
+	if ParseException = this.HeaderName(TokenTypes_MIME_VERSION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	mimeVersion.SetHeaderName(core.SIPHeaderNames_MIME_VERSION)
 
@@ -46,7 +48,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if _, ParseException = lexer.Match('.'); ParseException != nil {
+		return nil, ParseException
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -54,7 +58,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..2f14e22 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -37,7 +37,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	minExpires := header.NewMinExpires()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIN_EXPIRES)
+	if ParseException = this.HeaderName(TokenTypes_MIN_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 
 	minExpires.SetHeaderName(core.SIPHeaderNames_MIN_EXPIRES)
 
@@ -50,7 +52,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/OrganizationParser.go b/sip/parser/OrganizationParser.go
index bf0403b..0cda863 100644
--- a/sip/parser/OrganizationParser.go
+++ b/sip/parser/OrganizationParser.go
@@ -38,7 +38,9 @@ func (this *OrganizationParser) Parse() (sh header.Header, ParseException error)
 	organization := header.NewOrganization()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ORGANIZATION)
+	if ParseException = this.HeaderName(TokenTypes_ORGANIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	organization.SetHeaderName(core.SIPHeaderNames_ORGANIZATION)
 
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..56ec415 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -37,18 +37,24 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority := header.NewPriority()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PRIORITY)
+	if ParseException = this.HeaderName(TokenTypes_PRIORITY); ParseException != nil {
+		return nil, ParseException
+	}
 
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index cf27453..d47b616 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthenticateParserFromLexer(lexer core.Lexer) *ProxyAuthenticatePar
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
 	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
 	return proxyAuthenticate, ParseException
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index 88fc298..e5592ac 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthorizationParserFromLexer(lexer core.Lexer) *ProxyAuthorizationP
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuth := header.NewProxyAuthorization()
 	ParseException = this.ChallengeParser.Parse(proxyAuth)
 	return proxyAuth, ParseException
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..43e83bc 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -38,14 +38,18 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PROXY_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..00288ca 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -37,7 +37,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	rack := header.NewRAck()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RACK)
+	if ParseException = this.HeaderName(TokenTypes_RACK); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rack.SetHeaderName(core.SIPHeaderNames_RACK)
 
@@ -52,12 +54,16 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	rack.SetCSeqNumber(number)
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..656fc0f 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -37,7 +37,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq := header.NewRSeq()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RSEQ)
+	if ParseException = this.HeaderName(TokenTypes_RSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rseq.SetHeaderName(core.SIPHeaderNames_RSEQ)
 
@@ -48,7 +50,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq.SetSequenceNumber(number)
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..6bd2be9 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -38,11 +38,15 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REASON)
+	if ParseException = this.HeaderName(TokenTypes_REASON); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
@@ -52,7 +56,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..9c52b4b 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -35,17 +35,25 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_RECORD_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_RECORD_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..a81ac34 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -28,11 +28,15 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REFER_TO)
+	if ParseException = this.HeaderName(TokenTypes_REFER_TO); ParseException != nil {
+		return nil, ParseException
+	}
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..4d238e0 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -37,7 +37,9 @@ func NewReplyToParserFromLexer(lexer core.Lexer) *ReplyToParser {
 func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	replyTo := header.NewReplyTo()
 
-	this.HeaderName(TokenTypes_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..ed1c3f0 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retval, nil
 }
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..97a18c7 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -38,14 +38,18 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..40933b3 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -38,7 +38,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RETRY_AFTER)
+	if ParseException = this.HeaderName(TokenTypes_RETRY_AFTER); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// mandatory delatseconds:
 	var ds int
@@ -55,13 +57,19 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
@@ -71,9 +79,13 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			retryAfter.SetDuration(duration)
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..b523a2b 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -36,17 +36,25 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..7dcac9a 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -40,7 +40,9 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SERVER)
+	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/SubjectParser.go b/sip/parser/SubjectParser.go
index b160f0f..aca0684 100644
--- a/sip/parser/SubjectParser.go
+++ b/sip/parser/SubjectParser.go
@@ -38,7 +38,9 @@ func (this *SubjectParser) Parse() (sh header.Header, ParseException error) {
 	subject := header.NewSubject()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBJECT)
+	if ParseException = this.HeaderName(TokenTypes_SUBJECT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..5ae27e1 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -40,32 +40,48 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBSCRIPTION_STATE)
+	if ParseException = this.HeaderName(TokenTypes_SUBSCRIPTION_STATE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -75,9 +91,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetExpires(expires)
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -87,9 +107,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetRetryAfter(retryAfter)
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..e6e491b 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -38,7 +38,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_SUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..04137ed 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -41,7 +41,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_TIMESTAMP)
+	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
+		return nil, ParseException
+	}
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
@@ -52,7 +54,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	var ts float64
 	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
+		if _, ParseException = lexer.Match('.'); ParseException != nil {
+			return nil, ParseException
+		}
 
 		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
@@ -73,7 +77,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
+			if _, ParseException = lexer.Match('.'); ParseException != nil {
+				return nil, ParseException
+			}
 			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..ab82e89 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -28,13 +28,17 @@ func NewToParserFromLexer(lexer core.Lexer) *ToParser {
 
 func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
-	this.HeaderName(TokenTypes_TO)
+	if ParseException = this.HeaderName(TokenTypes_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := to.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..e49b8ca 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -38,7 +38,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_UNSUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_UNSUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..0147937 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -41,7 +41,9 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_USER_AGENT)
+	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index d9e0327..429a1cc 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewWWWAuthenticateParserFromLexer(lexer core.Lexer) *WWWAuthenticateParser
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_WWW_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_WWW_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
 	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
 	return wwwAuthenticate, ParseException
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..25dd982 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -39,14 +39,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_WARNING)
+	if ParseException = this.HeaderName(TokenTypes_WARNING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +64,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -76,13 +82,17 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
@@ -93,7 +103,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From 293188d8c7cde19c2fcfcd67d9cdf519b69c5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 042/101] fix: compact names of Refer-To, Event and
 Allow-Events, and Supported is not Accept

---
 core/ParameterNames.go      | 2 ++
 sip/parser/ParserFactory.go | 2 ++
 sip/parser/SIPLexer.go      | 2 ++
 sip/parser/SIPParser.go     | 2 +-
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ParameterNames.go b/core/ParameterNames.go
index 0833e80..0f88288 100644
--- a/core/ParameterNames.go
+++ b/core/ParameterNames.go
@@ -87,6 +87,8 @@ const SIPHeaderNames_S = "S"
 const SIPHeaderNames_T = "T"
 const SIPHeaderNames_V = "V"
 const SIPHeaderNames_R = "R"
+const SIPHeaderNames_O = "O"
+const SIPHeaderNames_U = "U"
 
 const SIPMethodNames_INVITE = "INVITE"
 const SIPMethodNames_ACK = "ACK"
diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..819b50b 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -147,6 +147,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAcceptParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	default:
 		// Just generate a generic SIPHeader. We define
 		// parsers only for the above.
diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..1487caa 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -132,6 +132,8 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_T), TokenTypes_TO)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_V), TokenTypes_VIA)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_R), TokenTypes_REFER_TO)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_O), TokenTypes_EVENT)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_U), TokenTypes_ALLOW_EVENTS)
 		} else if lexerName == "status_lineLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
 		} else if lexerName == "request_lineLexer" {
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..4bff96a 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -38,7 +38,7 @@ const TokenTypes_RETRY_AFTER = TokenTypes_START + 25
 const TokenTypes_PROXY_REQUIRE = TokenTypes_START + 26
 const TokenTypes_CONTENT_LANGUAGE = TokenTypes_START + 27
 const TokenTypes_UNSUPPORTED = TokenTypes_START + 28
-const TokenTypes_SUPPORTED = TokenTypes_START + 20
+const TokenTypes_SUPPORTED = TokenTypes_START + 29
 const TokenTypes_WARNING = TokenTypes_START + 30
 const TokenTypes_MAX_FORWARDS = TokenTypes_START + 31
 const TokenTypes_DATE = TokenTypes_START + 32
-- 
2.43.0


From df648bab2eb761f35af6fdc42b6b58aa39dedd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 043/101] fix: a method of a CSeq may be named like a header

---
 sip/parser/CSeqParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index a74894c..77afd72 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -44,6 +44,7 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	lexer.SPorHT()
+	lexer.SelectLexer("method_keywordLexer")
 	if method, ParseException = this.Method(); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 4b40c5544d19fe88f5efaf7f2830b5ac9dcc3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 044/101] fix: nothing may follow a header's value and list
 elements are separated by commas

---
 sip/parser/AcceptEncodingParser.go    | 3 +++
 sip/parser/AcceptLanguageParser.go    | 5 +++--
 sip/parser/AcceptParser.go            | 4 ++++
 sip/parser/AlertInfoParser.go         | 5 ++++-
 sip/parser/CallInfoParser.go          | 5 ++++-
 sip/parser/ContentEncodingParser.go   | 5 ++++-
 sip/parser/ContentLanguageParser.go   | 5 ++++-
 sip/parser/ErrorInfoParser.go         | 5 ++++-
 sip/parser/InReplyToParser.go         | 7 ++++++-
 sip/parser/ProxyRequireParser.go      | 5 ++++-
 sip/parser/ReasonParser.go            | 4 ++--
 sip/parser/ReplyToParser.go           | 9 +++++++--
 sip/parser/RequireParser.go           | 5 ++++-
 sip/parser/RetryAfterParser.go        | 4 ++++
 sip/parser/SubscriptionStateParser.go | 5 +++++
 sip/parser/SupportedParser.go         | 5 ++++-
 sip/parser/TimeStampParser.go         | 5 +++++
 sip/parser/UnsupportedParser.go       | 5 ++++-
 sip/parser/WarningParser.go           | 5 ++++-
 19 files changed, 79 insertions(+), 17 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 4e743bd..61737ec 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -79,6 +79,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
+				lexer.SPorHT()
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
@@ -115,6 +116,8 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				lexer.SPorHT()
+			} else if ch != '\n' {
+				return nil, this.CreateParseException("unexpected char")
 			}
 
 		}
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 016a372..b76b140 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -69,6 +69,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
+			lexer.SPorHT()
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
@@ -107,8 +108,8 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
 	}
 
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 4c22943..77bae8d 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -103,5 +103,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		acceptList.PushBack(accept)
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return acceptList, nil
 }
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 65b01d5..6479d53 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -54,7 +54,7 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
@@ -103,6 +103,9 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 			alertInfoList.PushBack(alertInfo)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return alertInfoList, nil
 }
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 68412e2..406ddf0 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -46,7 +46,7 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
@@ -97,6 +97,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			callInfoList.PushBack(callInfo)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return callInfoList, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 09489a9..1630c3d 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -43,7 +43,7 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
@@ -74,6 +74,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			contentEncodingList.PushBack(cl)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentEncodingList, nil
 }
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index 7d92952..0f57b7d 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -43,7 +43,7 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
@@ -75,6 +75,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			contentLanguageList.PushBack(cl)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLanguageList, nil
 }
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 18c3b9b..173d103 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -48,7 +48,7 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
@@ -99,6 +99,9 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 			errorInfoList.PushBack(errorInfo)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return errorInfoList, nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 8a9fd13..0b5def5 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -42,7 +42,7 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
@@ -94,9 +94,14 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 				inReplyTo.SetCallId(token.GetTokenValue())
 			}
 
+			lexer.SPorHT()
+
 			inReplyToList.PushBack(inReplyTo)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return inReplyToList, nil
 }
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 43e83bc..050f70e 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -42,7 +42,7 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
@@ -76,6 +76,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		}
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return proxyRequireList, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 6bd2be9..339551b 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -60,8 +60,8 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
 
 	}
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index 4d238e0..608b7e9 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -43,7 +43,12 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
-	return replyTo, ParseException
+	return replyTo, nil
 }
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index 97a18c7..692bb5d 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -42,7 +42,7 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
@@ -76,6 +76,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return requireList, nil
 }
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 40933b3..6c66474 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -93,5 +93,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return retryAfter, nil
 }
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 5ae27e1..e70cb7d 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -52,6 +52,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
+	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
@@ -122,5 +123,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		lexer.SPorHT()
 	}
 
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return subscriptionState, nil
 }
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index e6e491b..fab5d72 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -42,7 +42,7 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		lexer.SPorHT()
 		supported := header.NewSupported()
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
@@ -76,6 +76,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 			supportedList.PushBack(supported)
 		}
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return supportedList, nil
 }
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 04137ed..e7c615f 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -93,5 +93,10 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		timeStamp.SetDelay(float32(ts))
 	}
 
+	lexer.SPorHT()
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return timeStamp, nil
 }
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index e49b8ca..be2609b 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -42,7 +42,7 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		lexer.SPorHT()
 		unsupported := header.NewUnsupported()
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
@@ -77,6 +77,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		}
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return unsupportedList, nil
 }
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 25dd982..0df40a0 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -43,7 +43,7 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
@@ -121,6 +121,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return warningList, nil
 }
-- 
2.43.0


From 22ddfe0fd6940a7802214432f501d322dd7a03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 045/101] fix: header parsers report values their headers
 refuse, and timestamps keep the zeros after the dot

---
 sip/header/RetryAfterImpl.go           |  4 +-
 sip/header/SubscriptionStateImpl.go    |  8 +--
 sip/parser/AcceptEncodingParser.go     |  4 +-
 sip/parser/AllowEventsParser.go        |  8 ++-
 sip/parser/AllowParser.go              |  8 ++-
 sip/parser/AuthenticationInfoParser.go |  8 ++-
 sip/parser/ContentDispositionParser.go |  4 +-
 sip/parser/ContentEncodingParser.go    |  8 ++-
 sip/parser/EventParser.go              |  4 +-
 sip/parser/ExpiresParser.go            |  4 +-
 sip/parser/MimeVersionParser.go        |  8 ++-
 sip/parser/MinExpiresParser.go         |  4 +-
 sip/parser/RAckParser.go               | 12 +++-
 sip/parser/RSeqParser.go               |  4 +-
 sip/parser/ReasonParser.go             |  4 +-
 sip/parser/RetryAfterParser.go         | 21 +++++--
 sip/parser/SubscriptionStateParser.go  | 20 +++++--
 sip/parser/TimeStampParser.go          | 77 +++++++++++++++-----------
 sip/parser/WarningParser.go            | 20 +++++--
 19 files changed, 155 insertions(+), 75 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index 5a379f6..cbf70a2 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -36,8 +36,8 @@ func NewSubscriptionState() *SubscriptionState {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetExpires(expires int) (InvalidArgumentException error) {
-	if expires <= 0 {
-		return errors.New("InvalidArgumentException: the expires parameter is <=0")
+	if expires < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is <0")
 	}
 	this.expires = expires
 	return nil
@@ -61,8 +61,8 @@ func (this *SubscriptionState) GetExpires() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetRetryAfter(retryAfter int) (InvalidArgumentException error) {
-	if retryAfter <= 0 {
-		return errors.New("InvalidArgumentException: the retryAfter parameter is <=0")
+	if retryAfter < 0 {
+		return errors.New("InvalidArgumentException: the retryAfter parameter is <0")
 	}
 	this.retryAfter = retryAfter
 	return nil
diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 61737ec..8daa7ed 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -78,7 +78,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				value := lexer.GetNextToken()
-				acceptEncoding.SetEncoding(value.GetTokenValue())
+				if ParseException = acceptEncoding.SetEncoding(value.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index 1b577db..8b31670 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -52,7 +52,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	allowEvents.SetEventType(token.GetTokenValue())
+	if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEventsList.PushBack(allowEvents)
 	lexer.SPorHT()
@@ -68,7 +70,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		allowEvents.SetEventType(token.GetTokenValue())
+		if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowEventsList.PushBack(allowEvents)
 		lexer.SPorHT()
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index fa62e32..c2e9772 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -52,7 +52,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	allow.SetMethod(token.GetTokenValue())
+	if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
@@ -67,7 +69,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		allow.SetMethod(token.GetTokenValue())
+		if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowList.PushBack(allow)
 		lexer.SPorHT()
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index ed7bcfb..dd3ee9d 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -51,7 +51,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -63,7 +65,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 68e25fc..e9e9ccf 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -49,7 +49,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	token := lexer.GetNextToken()
-	cd.SetDispositionType(token.GetTokenValue())
+	if ParseException = cd.SetDispositionType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if ParseException = this.ParametersParser.Parse(cd); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 1630c3d..6bea859 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -53,7 +53,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		}
 
 		token := lexer.GetNextToken()
-		cl.SetEncoding(token.GetTokenValue())
+		if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 		contentEncodingList.PushBack(cl)
@@ -69,7 +71,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
-			cl.SetEncoding(token.GetTokenValue())
+			if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index 16c2ee6..d1798d3 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -48,7 +48,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
-	event.SetEventType(value)
+	if ParseException = event.SetEventType(value); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(event); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index bf65df5..f940f17 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -53,6 +53,8 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
-	expires.SetExpires(int(delta))
+	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
+		return nil, ParseException
+	}
 	return expires, ParseException
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 5e950e2..5d0e7f6 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -47,14 +47,18 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	if majorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMajorVersion(majorVersion)
+	if ParseException = mimeVersion.SetMajorVersion(majorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 	if _, ParseException = lexer.Match('.'); ParseException != nil {
 		return nil, ParseException
 	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMinorVersion(minorVersion)
+	if ParseException = mimeVersion.SetMinorVersion(minorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 2f14e22..396c0a9 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -48,7 +48,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	minExpires.SetExpires(number)
+	if ParseException = minExpires.SetExpires(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index 00288ca..478006a 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -47,18 +47,24 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetRSeqNumber(number)
+	if ParseException = rack.SetRSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetCSeqNumber(number)
+	if ParseException = rack.SetCSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	rack.SetMethod(token.GetTokenValue())
+	if ParseException = rack.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index 656fc0f..ecd4888 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -47,7 +47,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rseq.SetSequenceNumber(number)
+	if ParseException = rseq.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 339551b..39c0acd 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -50,7 +50,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
-		reason.SetProtocol(value)
+		if ParseException = reason.SetProtocol(value); ParseException != nil {
+			return nil, ParseException
+		}
 		if ParseException = this.ParametersParser.Parse(reason); ParseException != nil {
 			return nil, ParseException
 		}
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 6c66474..c5dfbc0 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -47,12 +47,19 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	if ds, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	retryAfter.SetRetryAfter(ds)
+	if ParseException = retryAfter.SetRetryAfter(ds); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
-		retryAfter.SetComment(comment)
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
+		if comment != "" {
+			retryAfter.SetComment(comment)
+		}
 	}
 	lexer.SPorHT()
 
@@ -76,7 +83,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			if duration, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
+			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
@@ -88,7 +97,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+			if ParseException = retryAfter.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index e70cb7d..e2b66a8 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -51,7 +51,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	subscriptionState.SetState(token.GetTokenValue())
+	if ParseException = subscriptionState.SetState(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
@@ -74,7 +76,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
+			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "expires" {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -90,7 +94,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetExpires(expires)
+			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "retry-after" {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -106,7 +112,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
+			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -117,7 +125,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
+			if ParseException = subscriptionState.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index e7c615f..8cc9b05 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -38,7 +38,7 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
+	var ts float32
 
 	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
@@ -48,49 +48,23 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	if ts, ParseException = this.decimal(); ParseException != nil {
 		return nil, ParseException
 	}
 
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		if _, ParseException = lexer.Match('.'); ParseException != nil {
-			return nil, ParseException
-		}
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
+	if ParseException = timeStamp.SetTimeStamp(ts); ParseException != nil {
+		return nil, ParseException
 	}
 
-	timeStamp.SetTimeStamp(float32(ts))
-
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+		if ts, ParseException = this.decimal(); ParseException != nil {
 			return nil, ParseException
 		}
 
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			if _, ParseException = lexer.Match('.'); ParseException != nil {
-				return nil, ParseException
-			}
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
+		if ParseException = timeStamp.SetDelay(ts); ParseException != nil {
+			return nil, ParseException
 		}
-
-		timeStamp.SetDelay(float32(ts))
 	}
 
 	lexer.SPorHT()
@@ -100,3 +74,40 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	return timeStamp, nil
 }
+
+// decimal reads digits that may be followed by a dot and more digits.
+func (this *TimeStampParser) decimal() (number float32, ParseException error) {
+	lexer := this.GetLexer()
+	start := lexer.GetPtr()
+	if ParseException = this.digits(); ParseException != nil {
+		return 0, ParseException
+	}
+	if ch, _ := lexer.LookAheadK(0); ch == '.' {
+		lexer.ConsumeK(1)
+		if ParseException = this.digits(); ParseException != nil {
+			return 0, ParseException
+		}
+	}
+	value, ParseException := strconv.ParseFloat(lexer.GetBuffer()[start:lexer.GetPtr()], 32)
+	if ParseException != nil {
+		return 0, ParseException
+	}
+	return float32(value), nil
+}
+
+// digits skips at least one digit.
+func (this *TimeStampParser) digits() (ParseException error) {
+	lexer := this.GetLexer()
+	ch, ParseException := lexer.LookAheadK(0)
+	if ParseException != nil {
+		return ParseException
+	}
+	if !lexer.IsDigit(ch) {
+		return this.CreateParseException("unexpected token \"" + string(ch) + "\"")
+	}
+	for ParseException == nil && lexer.IsDigit(ch) {
+		lexer.ConsumeK(1)
+		ch, ParseException = lexer.LookAheadK(0)
+	}
+	return nil
+}
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 0df40a0..efa6f82 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -68,7 +68,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -76,7 +78,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		if text, ParseException = lexer.QuotedString(); ParseException != nil {
 			return nil, ParseException
 		}
-		warning.SetText(text)
+		if text != "" {
+			warning.SetText(text)
+		}
 		lexer.SPorHT()
 
 		warningList.PushBack(warning)
@@ -98,7 +102,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
@@ -107,14 +113,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			// Parsing the text
 			if text, ParseException = lexer.QuotedString(); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetText(text)
+			if text != "" {
+				warning.SetText(text)
+			}
 			lexer.SPorHT()
 
 			warningList.PushBack(warning)
-- 
2.43.0


From 7ea404cdea5d17bb98a3b9e6eb4156f25a7aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 046/101] fix: the Via parser reports bad text, ends at the end
 of the text and takes comments before parameters

---
 sip/parser/ViaParser.go | 146 ++++++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 67 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..d942e2a 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,30 +32,36 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
-
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
+	// The protocol Name
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
 	}
-
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
-	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
+	// the protocol version
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
 	}
-
 	lexer.SPorHT()
-
-	// We consume the "/"
-	lexer.Match('/')
-	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	// consume the "/"
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-
+	// We allow any transport
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	transport := lexer.GetNextToken()
 	lexer.SPorHT()
 
@@ -77,48 +83,29 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// Ignore blanks
 	lexer.SPorHT()
 
-	var la byte
-	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
-		lexer.SPorHT()
-
-		var nameValue *core.NameValue
-		if nameValue, ParseException = this.NameValue(); ParseException != nil {
-			return ParseException
-		}
-
-		name := nameValue.GetName()
-		nameValue.SetName(strings.ToLower(name))
-		v.SetParameterFromNameValue(nameValue)
-		lexer.SPorHT()
-	}
-
-	if la, _ = lexer.LookAheadK(0); la == '(' {
-		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
-
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
+	// parameters and a comment, in either order
+	for {
+		la, _ := lexer.LookAheadK(0)
+		if la == ';' {
+			lexer.ConsumeK(1)
+			lexer.SPorHT()
+			var nameValue *core.NameValue
+			if nameValue, ParseException = this.NameValue(); ParseException != nil {
+				return ParseException
+			}
+			// make sure that the name is in lower case.
+			nameValue.SetName(strings.ToLower(nameValue.GetName()))
+			v.SetParameterFromNameValue(nameValue)
+		} else if la == '(' && !v.HasComment() {
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return ParseException
 			}
+			v.SetComment(comment)
+		} else {
+			break
 		}
-		v.SetComment(comment.String())
+		lexer.SPorHT()
 	}
 
 	return nil
@@ -130,7 +117,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -146,7 +135,10 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			str = this.received()
+			if str == "" {
+				return nil, this.CreateParseException("received without an address")
+			}
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
@@ -154,7 +146,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -175,10 +169,14 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	viaList := header.NewViaList()
 
 	// The first via header.
-	lexer.Match(TokenTypes_VIA)
-	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
-	lexer.SPorHT()   // ingore blanks.
+	if _, ParseException = lexer.Match(TokenTypes_VIA); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT() // ignore blanks
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT() // ingore blanks.
 
 	for {
 		v := header.NewVia()
@@ -187,15 +185,29 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		}
 		viaList.PushBack(v)
 		lexer.SPorHT() // eat whitespace.
-		if la, _ := lexer.LookAheadK(0); la == ',' {
-			lexer.ConsumeK(1) // Consume the comma
-			lexer.SPorHT()    // Ignore space after.
-		}
-		if la, _ := lexer.LookAheadK(0); la == '\n' {
+		if la, _ := lexer.LookAheadK(0); la != ',' {
 			break
 		}
+		lexer.ConsumeK(1) // Consume the comma
+		lexer.SPorHT()    // Ignore space after.
+	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
 	}
-	lexer.Match('\n')
-
 	return viaList, nil
 }
+
+// received reads the value of a received parameter, which may be an IPv6
+// address and is no token then.
+func (this *ViaParser) received() string {
+	lexer := this.GetLexer()
+	var value bytes.Buffer
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || strings.IndexByte(";, \t(\n", ch) != -1 {
+			return value.String()
+		}
+		value.WriteByte(ch)
+		lexer.ConsumeK(1)
+	}
+}
-- 
2.43.0


From efdd698352f469f87a6f10406b3133899f04caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 047/101] fix: User-Agent and Server headers keep their text
 and stay on one line

---
 sip/parser/HeaderParser.go    | 34 ++++++++++++++++++++++++++++++++++
 sip/parser/ServerParser.go    | 31 +++++--------------------------
 sip/parser/UserAgentParser.go | 31 +++++--------------------------
 3 files changed, 44 insertions(+), 52 deletions(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index f571d79..73e7876 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -81,3 +81,37 @@ func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
 	this.GetLexer().SPorHT()
 	return nil
 }
+
+// ProductTokens parses what is left of the line as a list of products and
+// comments. A slash ends a product token unless it belongs to a comment.
+func (this *HeaderParser) ProductTokens() (products []string, ParseException error) {
+	line := strings.TrimSpace(this.GetLexer().GetLine())
+	if line == "" {
+		return nil, this.CreateParseException("empty header")
+	}
+	start, comments := 0, 0
+	for i := 0; i < len(line); i++ {
+		switch line[i] {
+		case '(':
+			comments++
+		case ')':
+			comments--
+		case '\\':
+			if comments > 0 {
+				i++
+			}
+		case '/':
+			if comments == 0 {
+				products = append(products, line[start:i])
+				start = i + 1
+			}
+		}
+		if comments < 0 {
+			return nil, this.CreateParseException("unexpected )")
+		}
+	}
+	if comments > 0 {
+		return nil, this.CreateParseException("unterminated comment")
+	}
+	return append(products, line[start:]), nil
+}
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 7dcac9a..8d35c6a 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -1,10 +1,8 @@
 package parser
 
 import (
-	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strings"
 )
 
 /** SIPParser for Server header.
@@ -38,34 +36,15 @@ func NewServerParserFromLexer(lexer core.Lexer) *ServerParser {
 func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	server := header.NewServer()
 
-	var ch byte
-	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
 		return nil, ParseException
 	}
-	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
-		return nil, errors.New("empty header")
+	var products []string
+	if products, ParseException = this.ProductTokens(); ParseException != nil {
+		return nil, ParseException
 	}
-
-	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(tok)
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	for _, product := range products {
+		server.AddProductToken(product)
 	}
 
 	return server, nil
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index 0147937..d14130c 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -1,10 +1,8 @@
 package parser
 
 import (
-	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strings"
 )
 
 /** SIPParser for UserAgent header.
@@ -39,34 +37,15 @@ func NewUserAgentParserFromLexer(lexer core.Lexer) *UserAgentParser {
 func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	userAgent := header.NewUserAgent()
 
-	var ch byte
-	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
 		return nil, ParseException
 	}
-	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
-		return nil, errors.New("empty header")
+	var products []string
+	if products, ParseException = this.ProductTokens(); ParseException != nil {
+		return nil, ParseException
 	}
-
-	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	for _, product := range products {
+		userAgent.AddProductToken(product)
 	}
 
 	return userAgent, nil
-- 
2.43.0


From 1fdf26ed98b009c7cf139282917d9a571a2c5068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:08 +0000
Subject: [PATCH 048/101] fix: a bad Call-ID parses to no header and SIP/2.0
 needs its slash

---
 sip/parser/CallIdParser.go | 3 +++
 sip/parser/SIPParser.go    | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index 9b1c8fa..1abac65 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -55,6 +55,9 @@ func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	rest := strings.TrimSpace(lexer.GetRest())
 
 	callID, ParseException := header.NewCallID(rest)
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
 	return callID, ParseException
 }
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 4bff96a..0e9cbec 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -152,7 +152,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, ParseException = this.GetLexer().Match('/'); ParseException != nil {
+		return "", this.CreateParseException("Expecting SIP/2.0")
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
-- 
2.43.0


From e69ba69f09d1f5d607512f39c7f289afdc9984e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 049/101] fix: a bad first line handed to the listener does not
 become the message's line

---
 sip/parser/StringMsgParser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 0705f62..8ebd564 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -307,7 +307,9 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		if rl != nil {
+			sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		}
 	} else {
 		sipmsg = message.NewSIPResponse()
 		var sl *header.StatusLine
@@ -320,7 +322,9 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		if sl != nil {
+			sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		}
 	}
 
 	for i := 1; i < len(this.messageHeaders); i++ {
-- 
2.43.0


From 994ceb55a69931ec1d0186cb9a970481a1b9da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 050/101] fix: authentication headers that do not parse give no
 header

---
 sip/parser/AuthorizationParser.go      | 6 ++++--
 sip/parser/ProxyAuthenticateParser.go  | 6 ++++--
 sip/parser/ProxyAuthorizationParser.go | 6 ++++--
 sip/parser/WWWAuthenticateParser.go    | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index 038cecc..c60a0d7 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -38,6 +38,8 @@ func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	auth := header.NewAuthorization()
-	ParseException = this.ChallengeParser.Parse(auth)
-	return auth, ParseException
+	if ParseException = this.ChallengeParser.Parse(auth); ParseException != nil {
+		return nil, ParseException
+	}
+	return auth, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index d47b616..b89d09d 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -38,6 +38,8 @@ func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
-	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
-	return proxyAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuthenticate, nil
 }
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index e5592ac..358b72f 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -38,6 +38,8 @@ func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException
 		return nil, ParseException
 	}
 	proxyAuth := header.NewProxyAuthorization()
-	ParseException = this.ChallengeParser.Parse(proxyAuth)
-	return proxyAuth, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuth); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuth, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index 429a1cc..ed3c14e 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -38,6 +38,8 @@ func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
-	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
-	return wwwAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(wwwAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return wwwAuthenticate, nil
 }
-- 
2.43.0


From b0bd327d8a280c39af1cda013a4e4124c98f12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 051/101] fix: authentication parameters keep the quotes they
 need and are found by their name in any case

---
 sip/header/AuthenticationImpl.go       |  3 ++-
 sip/header/AuthenticationInfoImpl.go   |  3 ++-
 sip/parser/AuthenticationInfoParser.go |  4 ++--
 sip/parser/ChallengeParser.go          | 22 ++++++++++++++++++++--
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..f7cafc7 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -43,7 +43,8 @@ func (this *Authentication) SetParameter(name, value string) error {
 	if name == "" {
 		return errors.New("NullPointerException: null name")
 	}
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
+	name = strings.ToLower(name)
+	nv := this.parameters.GetNameValue(name)
 	if nv == nil {
 		nv = core.NewNameValue(name, value)
 		if strings.ToLower(name) == (ParameterNames_QOP) ||
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..8bd81b0 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -189,7 +189,8 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		return errors.New("NullPointerException: null name")
 	}
 
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
+	name = strings.ToLower(name)
+	nv := this.parameters.GetNameValue(name)
 	if nv == nil {
 		nv = core.NewNameValue(name, value)
 		if strings.ToLower(name) == (ParameterNames_QOP) ||
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index dd3ee9d..51323f1 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -51,7 +51,7 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+	if ParseException = setAuthParameter(authenticationInfo, nv); ParseException != nil {
 		return nil, ParseException
 	}
 
@@ -65,7 +65,7 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		if ParseException = setAuthParameter(authenticationInfo, nv); ParseException != nil {
 			return nil, ParseException
 		}
 
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index fd00ced..e25d42c 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strings"
 )
 
 /** SIPParser for the challenge portion of the authentication header.
@@ -46,8 +47,25 @@ func (this *ChallengeParser) ParseParameter(h header.AuthorizationHeader) (Parse
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return ParseException
 	}
-	ParseException = h.SetParameter(nv.GetName(), nv.GetValue().(string))
-	return ParseException
+	return setAuthParameter(h, nv)
+}
+
+/** Set a parameter as it was read, in quotes if it was quoted and is no token.
+ */
+func setAuthParameter(h header.ParametersHeader, nv *core.NameValue) (ParseException error) {
+	value := nv.GetValue().(string)
+	if ParseException = h.SetParameter(nv.GetName(), value); ParseException != nil {
+		return ParseException
+	}
+	if nv.IsValueQuoted() && !isToken(value) {
+		h.SetQuotedParameter(strings.ToLower(nv.GetName()), value)
+	}
+	return nil
+}
+
+func isToken(s string) bool {
+	lexer := NewSIPLexer("charLexer", s)
+	return s != "" && lexer.Ttoken() == s
 }
 
 /** parser the String message
-- 
2.43.0


From 6725026747907aaf3a3578f6176d3774f8282fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 052/101] fix: nonce counts are read as the hexadecimal numbers
 they are and the response of Authentication-Info is rspauth

---
 sip/header/AuthenticationImpl.go     | 4 ++--
 sip/header/AuthenticationInfoImpl.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index f7cafc7..c959e5a 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -374,7 +374,7 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -383,7 +383,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || uint64(nonceCount) > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 8bd81b0..0c5c4fb 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,7 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -145,7 +145,7 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || uint64(nonceCount) > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
@@ -180,7 +180,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
+	this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 	return nil
 }
 
-- 
2.43.0


From 54cfda96cd908fed68cfb59cc6327d019e1f2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 053/101] fix: the value of an absent header parameter is empty
 instead of a panic

---
 sip/header/AuthenticationImpl.go | 2 +-
 sip/header/ParametersImpl.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index c959e5a..160023f 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -401,7 +401,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
  * @return String response parameter value.
  */
 func (this *Authentication) GetResponse() string {
-	return this.GetParameterValue(ParameterNames_RESPONSE)
+	return this.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Set the Response.
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From 8e3ad161d69104d1d740d2717fa1bbe3d3d5b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 054/101] fix: setters of authentication parameters report
 values that are refused

---
 sip/header/AuthenticationImpl.go     | 30 +++++++++++-----------------
 sip/header/AuthenticationInfoImpl.go | 18 ++++++++---------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 160023f..04c23a0 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -68,6 +68,9 @@ func (this *Authentication) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
@@ -135,8 +138,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -164,8 +166,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -223,8 +224,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -251,8 +251,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -279,8 +278,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -307,8 +305,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -359,8 +356,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -391,8 +387,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -413,8 +408,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 0c5c4fb..e6c1228 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -119,8 +119,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +131,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -152,8 +150,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -165,8 +162,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -180,8 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
@@ -215,6 +210,9 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
-- 
2.43.0


From 9562bc40bff8ad8fdafb748c6fe02f9759302c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 055/101] fix: challenges have getters for absent parameters
 and stay separated by commas

---
 sip/header/Challenge.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..a95c84d 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
@@ -152,13 +152,14 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
-- 
2.43.0


From 3daf806d9580f7cb337eb85db043f82a17d5c2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 056/101] fix: Call-Info and Alert-Info take any URI

---
 sip/header/AlertInfoImpl.go | 4 ++--
 sip/header/CallInfoImpl.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
-- 
2.43.0


From 102323b3cdc49718e00d03beb3ef5c16a99d7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 057/101] fix: headers without an address or URI encode without
 a panic

---
 sip/header/AlertInfoImpl.go   | 4 +++-
 sip/header/CallInfoImpl.go    | 4 +++-
 sip/header/ContactImpl.go     | 3 +++
 sip/header/ErrorInfoImpl.go   | 4 +++-
 sip/header/FromImpl.go        | 3 +++
 sip/header/RecordRouteImpl.go | 3 +++
 sip/header/ReferToImpl.go     | 3 +++
 sip/header/ReplyToImpl.go     | 3 +++
 sip/header/RouteImpl.go       | 3 +++
 9 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index dbf11c9..2fb416d 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -37,7 +37,9 @@ func (this *AlertInfo) String() string {
 func (this *AlertInfo) EncodeBody() string {
 	var encoding bytes.Buffer
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
-	encoding.WriteString(this.uri.String())
+	if this.uri != nil {
+		encoding.WriteString(this.uri.String())
+	}
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
 	if this.parameters != nil && this.parameters.Len() > 0 {
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 15f65fc..bd9d517 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -39,7 +39,9 @@ func (this *CallInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.info.String())
+	if this.info != nil {
+		encoding.WriteString(this.info.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..2c0f26e 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -53,6 +53,9 @@ func (this *Contact) EncodeBody() string {
 		encoding.WriteString("*")
 		return encoding.String()
 	}
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	// Bug report by Joao Paulo
 	if addr.GetAddressType() == address.NAME_ADDR {
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..260869b 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -47,7 +47,9 @@ func (this *ErrorInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.errorInfo.String())
+	if this.errorInfo != nil {
+		encoding.WriteString(this.errorInfo.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..2050f5a 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -73,6 +73,9 @@ func (this *From) String() string {
  * @return String
  */
 func (this *From) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index 46ad7f0..f8839ba 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -40,6 +40,9 @@ func (this *RecordRoute) String() string {
  *@return String containing the canonicaly encoded header.
  */
 func (this *RecordRoute) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index 96eb280..7c30966 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -32,6 +32,9 @@ func (this *ReferTo) String() string {
  * @return String
  */
 func (this *ReferTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 3ccd2ce..d29b44d 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -43,6 +43,9 @@ func (this *ReplyTo) String() string {
  * @return String
  */
 func (this *ReplyTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..d4137f4 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -73,6 +73,9 @@ func (this *Route) String() string {
  *@return a canonical encoding of the header.
  */
 func (this *Route) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(this.addr.String())
 	if this.parameters != nil && this.parameters.Len() > 0 {
-- 
2.43.0


From 5dfc42d815c42a451d906d043181badbf4883d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 058/101] fix: a route with parameters is encoded with
 brackets, so that they do not become those of its URI

---
 sip/header/RouteImpl.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index d4137f4..3ccd0e7 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -77,8 +77,16 @@ func (this *Route) EncodeBody() string {
 		return ""
 	}
 	var encoding bytes.Buffer
-	encoding.WriteString(this.addr.String())
-	if this.parameters != nil && this.parameters.Len() > 0 {
+	hasParameters := this.parameters != nil && this.parameters.Len() > 0
+	addr, _ := this.addr.(*address.AddressImpl)
+	if hasParameters && addr.GetAddressType() == address.ADDRESS_SPEC {
+		encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
+		encoding.WriteString(this.addr.String())
+		encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
+	} else {
+		encoding.WriteString(this.addr.String())
+	}
+	if hasParameters {
 		encoding.WriteString(core.SIPSeparatorNames_SEMICOLON)
 		encoding.WriteString(this.parameters.String())
 	}
-- 
2.43.0


From 59ee60843fa5cf1edffb2028c620e33553a37ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 059/101] fix: setting the expires parameter of a Contact
 replaces it and refuses negative values

---
 sip/header/ContactImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 2c0f26e..1d660a7 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -116,8 +116,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("expires out of range!")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From 1a8ca537bfb8a7476d8133a8c712dc36f04b780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 060/101] fix: From and To keep all parameters of an address
 without brackets and refuse those that are no header parameters

---
 sip/parser/AddressParametersParser.go | 28 +++++++++++++++++++++++++++
 sip/parser/FromParser.go              | 14 ++------------
 sip/parser/ToParser.go                | 15 +++-----------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/sip/parser/AddressParametersParser.go b/sip/parser/AddressParametersParser.go
index 624ec6e..a5ea29e 100644
--- a/sip/parser/AddressParametersParser.go
+++ b/sip/parser/AddressParametersParser.go
@@ -42,3 +42,31 @@ func (this *AddressParametersParser) Parse(addressParametersHeader header.Addres
 	ParseException = this.ParametersParser.Parse(addressParametersHeader)
 	return ParseException
 }
+
+/** The parameters after a SIP URI without brackets are header parameters.
+ */
+func (this *AddressParametersParser) moveURIParameters(h header.AddressParametersHeader) (ParseException error) {
+	addr, ok := h.GetAddress().(*address.AddressImpl)
+	if !ok || addr.GetAddressType() != address.ADDRESS_SPEC {
+		return nil
+	}
+	sipUri, ok := addr.GetURI().(*address.SipURIImpl)
+	if !ok || sipUri.GetUriParms() == nil || sipUri.GetUriParms().Len() == 0 {
+		return nil
+	}
+	moved := core.NewNameValueList("")
+	for e := sipUri.GetUriParms().Front(); e != nil; e = e.Next() {
+		nv := e.Value.(*core.NameValue)
+		value, _ := nv.GetValue().(string)
+		if !isToken(nv.GetName()) || value != "" && !isToken(value) {
+			return this.CreateParseException("bad parameter")
+		}
+		moved.SetNameValue(core.NewNameValue(nv.GetName(), nv.GetValue()))
+	}
+	for e := h.GetParameters().Front(); e != nil; e = e.Next() {
+		moved.SetNameValue(e.Value.(*core.NameValue))
+	}
+	h.SetParameters(moved)
+	sipUri.RemoveUriParms()
+	return nil
+}
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index 05ab4cb..48dc3ba 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -41,17 +40,8 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-	addr := from.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if from.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := from.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				from.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
+	if ParseException = this.moveURIParameters(from); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return from, nil
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index ab82e89..97e249d 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -39,17 +38,9 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-	addr := to.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if to.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := to.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				to.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
+	if ParseException = this.moveURIParameters(to); ParseException != nil {
+		return nil, ParseException
 	}
+
 	return to, nil
 }
-- 
2.43.0


From cf8096e851f2fc00d0affe1619ef87f40877f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:56 +0000
Subject: [PATCH 061/101] fix: Accept, WWW-Authenticate and extension headers
 implement their interfaces

---
 sip/header/AcceptImpl.go            | 6 ++++--
 sip/header/ExtensionImpl.go         | 3 ++-
 sip/header/WWWAuthenticateHeader.go | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 8fc1a99..53866ec 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -104,21 +104,23 @@ func (this *Accept) GetContentSubType() string {
 /** set the ContentSubType field
  * @param subtype String to set
  */
-func (this *Accept) SetContentSubType(subtype string) {
+func (this *Accept) SetContentSubType(subtype string) (ParseException error) {
 	if this.mediaRange == nil {
 		this.mediaRange = NewMediaRange()
 	}
 	this.mediaRange.SetSubtype(subtype)
+	return nil
 }
 
 /** set the ContentType field
  * @param type String to set
  */
-func (this *Accept) SetContentType(mtype string) {
+func (this *Accept) SetContentType(mtype string) (ParseException error) {
 	if this.mediaRange == nil {
 		this.mediaRange = NewMediaRange()
 	}
 	this.mediaRange.SetType(mtype)
+	return nil
 }
 
 /**
diff --git a/sip/header/ExtensionImpl.go b/sip/header/ExtensionImpl.go
index b4284a1..e4d0bc4 100644
--- a/sip/header/ExtensionImpl.go
+++ b/sip/header/ExtensionImpl.go
@@ -37,8 +37,9 @@ func (this *Extension) SetName(headerName string) {
 
 /** Set the value of the header.
  */
-func (this *Extension) SetValue(value string) {
+func (this *Extension) SetValue(value string) (ParseException error) {
 	this.value = value
+	return nil
 }
 
 func (this *Extension) GetValue() string {
diff --git a/sip/header/WWWAuthenticateHeader.go b/sip/header/WWWAuthenticateHeader.go
index 4cb5401..24d68bf 100644
--- a/sip/header/WWWAuthenticateHeader.go
+++ b/sip/header/WWWAuthenticateHeader.go
@@ -94,7 +94,7 @@ type WWWAuthenticateHeader interface {
 	 * @param uri - the new URI of this WWWAuthenicateHeader.
 	 *
 	 */
-	SetURI(uri address.URI)
+	SetURI(uri address.URI) error
 
 	/**
 	 * Returns the URI value of this WWWAuthenicateHeader, for example DigestURI.
-- 
2.43.0


From 673b8bdbd4272ea10de774f9e09b00d93abc0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 062/101] fix: Via implements ViaHeader, and its port, ttl and
 maddr can be absent

---
 sip/header/ViaHeader.go |  6 ++++--
 sip/header/ViaImpl.go   | 35 ++++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/sip/header/ViaHeader.go b/sip/header/ViaHeader.go
index bcb1dc8..1e2d8f6 100644
--- a/sip/header/ViaHeader.go
+++ b/sip/header/ViaHeader.go
@@ -1,5 +1,7 @@
 package header
 
+import "github.com/use-go/gosips/core"
+
 /**
  * The Via header field indicates the transport used for the transaction and
  * identifies the location where the response is to be sent. A Via header
@@ -124,7 +126,7 @@ type ViaHeader interface {
 	 * @throws ParseException which signals that an error has been reached
 	 * unexpectedly while parsing the host value.
 	 */
-	SetHost(host string) (ParseException error)
+	SetHost(host *core.Host)
 
 	/**
 	 * Returns the host part of this ViaHeader.
@@ -218,7 +220,7 @@ type ViaHeader interface {
 	 * @throws ParseException which signals that an error has been reached
 	 * unexpectedly while parsing the mAddr value.
 	 */
-	SetMAddr(mAddr string) (ParseException string)
+	SetMAddr(mAddr string) (ParseException error)
 
 	/**
 	 * Gets the received paramater of the ViaHeader. Returns null if received
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..44f58ef 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,11 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	maddr := this.GetParameter(ParameterNames_MADDR)
+	if maddr == "" {
+		return nil
+	}
+	return core.NewHost(maddr)
 }
 
 /** port of the Via Header.
@@ -135,7 +139,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
@@ -198,9 +204,13 @@ func (this *Via) String() string {
  */
 func (this *Via) EncodeBody() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(this.sentProtocol.String())
-	encoding.WriteString(core.SIPSeparatorNames_SP)
-	encoding.WriteString(this.sentBy.String())
+	if this.sentProtocol != nil {
+		encoding.WriteString(this.sentProtocol.String())
+		encoding.WriteString(core.SIPSeparatorNames_SP)
+	}
+	if this.sentBy != nil {
+		encoding.WriteString(this.sentBy.String())
+	}
 	// Add the default port if there is no port specified.
 	// if !this.sentBy.HasPort() {
 	// 	encoding.WriteString(core.SIPSeparatorNames_COLON)
@@ -306,7 +316,7 @@ func (this *Via) GetTransport() string {
  * @throws ParseException which signals that an error has been reached
  * unexpectedly while parsing the transport value.
  */
-func (this *Via) setTransport(transport string) (ParseException error) {
+func (this *Via) SetTransport(transport string) (ParseException error) {
 	if transport == "" {
 		return errors.New("NullPointerException: GoSIP Exception, Via, setTransport(), the transport parameter is null.")
 	}
@@ -354,7 +364,10 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
-	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	ttl, err := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	if err != nil {
+		return -1
+	}
 	return ttl
 }
 
@@ -367,8 +380,12 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if ttl < -1 || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0 or > 255")
+	}
+	if ttl == -1 {
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From 5f10d4b3c7757cc7e4c04a958b54ce8c9d007030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:59 +0000
Subject: [PATCH 063/101] fix: q values lie between 0 and 1 and a Contact
 expires in no negative time

---
 sip/header/AcceptEncodingImpl.go |  2 +-
 sip/header/AcceptImpl.go         |  2 +-
 sip/header/AcceptLanguageImpl.go |  2 +-
 sip/header/ContactImpl.go        |  2 +-
 sip/parser/AcceptParser.go       |  6 ++++++
 sip/parser/ContactParser.go      |  9 ++++++++-
 sip/parser/ParametersParser.go   | 14 ++++++++++++++
 7 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9007b4f..1b35f2d 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -138,7 +138,7 @@ func (this *AcceptEncoding) RemoveQValue() {
  *
  */
 func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 53866ec..add223b 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -176,7 +176,7 @@ func (this *Accept) RemoveQValue() {
  *
  */
 func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 91769a6..7b76310 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -150,7 +150,7 @@ func (this *AcceptLanguage) RemoveQValue() {
  *
  */
 func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 1d660a7..c72129e 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -196,7 +196,7 @@ func (this *Contact) RemoveQValue() {
  *
  */
 func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 77bae8d..880c37b 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -73,6 +73,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
 		return nil, ParseException
 	}
+	if ParseException = this.checkQValue(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -100,6 +103,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
 			return nil, ParseException
 		}
+		if ParseException = this.checkQValue(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 0cc344c..bf186d8 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -47,9 +47,16 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 			}
 
 			if contact.HasParameter(header.ParameterNames_EXPIRES) {
-				if _, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
+				var expires int
+				if expires, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
 					return nil, ParseException
 				}
+				if expires < 0 {
+					return nil, this.CreateParseException("negative expires")
+				}
+			}
+			if ParseException = this.checkQValue(contact); ParseException != nil {
+				return nil, ParseException
 			}
 		}
 		retval.AddContact(contact)
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index a00a2f5..3e02ace 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strconv"
 )
 
 /** parameters parser header.
@@ -62,3 +63,16 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 	}
 	return nil
 }
+
+// checkQValue tells whether the q parameter, if there is one, is a number
+// between 0 and 1.
+func (this *ParametersParser) checkQValue(parametersHeader header.ParametersHeader) (ParseException error) {
+	if !parametersHeader.HasParameter(header.ParameterNames_Q) {
+		return nil
+	}
+	q, err := strconv.ParseFloat(parametersHeader.GetParameter(header.ParameterNames_Q), 32)
+	if err != nil || !(q >= 0.0 && q <= 1.0) {
+		return this.CreateParseException("bad q value")
+	}
+	return nil
+}
-- 
2.43.0


From f4943599a918bc51ffbb2712661c8f6d9df54d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 064/101] fix: the value of a header is what follows its name,
 not empty

---
 sip/header/AcceptEncodingImpl.go     | 13 +++++++++++++
 sip/header/AcceptImpl.go             | 13 +++++++++++++
 sip/header/AcceptLanguageImpl.go     | 14 +++++++++++++-
 sip/header/AlertInfoImpl.go          | 13 +++++++++++++
 sip/header/AllowEventsImpl.go        | 13 +++++++++++++
 sip/header/AllowImpl.go              | 13 +++++++++++++
 sip/header/AuthenticationImpl.go     | 12 ++++++++++++
 sip/header/AuthenticationInfoImpl.go | 12 ++++++++++++
 sip/header/CSeqImpl.go               | 12 ++++++++++++
 sip/header/CallIdImpl.go             | 13 +++++++++++++
 sip/header/CallInfoImpl.go           | 13 +++++++++++++
 sip/header/ContactImpl.go            | 13 +++++++++++++
 sip/header/ContentDispositionImpl.go | 13 +++++++++++++
 sip/header/ContentEncodingImpl.go    | 13 +++++++++++++
 sip/header/ContentLanguageImpl.go    | 13 +++++++++++++
 sip/header/ContentLengthImpl.go      | 13 +++++++++++++
 sip/header/ContentTypeImpl.go        | 12 ++++++++++++
 sip/header/DateImpl.go               | 13 +++++++++++++
 sip/header/ErrorInfoImpl.go          | 13 +++++++++++++
 sip/header/EventImpl.go              | 12 ++++++++++++
 sip/header/ExpiresImpl.go            | 13 +++++++++++++
 sip/header/FromImpl.go               | 12 ++++++++++++
 sip/header/InReplyToImpl.go          | 17 ++++++++++++++++-
 sip/header/MaxForwardsImpl.go        | 13 +++++++++++++
 sip/header/MimeVersionImpl.go        | 13 +++++++++++++
 sip/header/MinExpiresImpl.go         | 13 +++++++++++++
 sip/header/OrganizationImpl.go       | 13 +++++++++++++
 sip/header/PriorityImpl.go           | 13 +++++++++++++
 sip/header/ProxyRequireImpl.go       | 13 +++++++++++++
 sip/header/RAckImpl.go               | 13 +++++++++++++
 sip/header/RSeqImpl.go               | 13 +++++++++++++
 sip/header/ReasonImpl.go             | 13 +++++++++++++
 sip/header/RecordRouteImpl.go        | 13 +++++++++++++
 sip/header/ReferToImpl.go            | 13 +++++++++++++
 sip/header/ReplyToImpl.go            | 13 +++++++++++++
 sip/header/RequireImpl.go            | 13 +++++++++++++
 sip/header/RetryAfterImpl.go         | 13 +++++++++++++
 sip/header/RouteImpl.go              | 13 +++++++++++++
 sip/header/SIPHeaderList.go          | 13 +++++++++++++
 sip/header/ServerImpl.go             | 13 +++++++++++++
 sip/header/SubjectImpl.go            | 13 +++++++++++++
 sip/header/SubscriptionStateImpl.go  | 13 +++++++++++++
 sip/header/SupportedImpl.go          | 13 +++++++++++++
 sip/header/TimeStampImpl.go          | 13 +++++++++++++
 sip/header/ToImpl.go                 | 12 ++++++++++++
 sip/header/UnsupportedImpl.go        | 13 +++++++++++++
 sip/header/UserAgentImpl.go          | 13 +++++++++++++
 sip/header/ViaImpl.go                | 13 +++++++++++++
 sip/header/WarningImpl.go            | 13 +++++++++++++
 49 files changed, 633 insertions(+), 2 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 1b35f2d..9202ac4 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -144,3 +145,15 @@ func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *AcceptEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *AcceptEncoding) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index add223b..5c56ed4 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -182,3 +183,15 @@ func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Accept) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Accept) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 7b76310..8ed8a54 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -155,4 +155,16 @@ func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
-}
\ No newline at end of file
+}
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *AcceptLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *AcceptLanguage) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index 2fb416d..564ea66 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -69,3 +70,15 @@ func (this *AlertInfo) SetAlertInfo(uri address.URI) {
 func (this *AlertInfo) GetAlertInfo() address.URI {
 	return this.uri
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *AlertInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *AlertInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AllowEventsImpl.go b/sip/header/AllowEventsImpl.go
index 8e7fd27..861085d 100644
--- a/sip/header/AllowEventsImpl.go
+++ b/sip/header/AllowEventsImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -70,3 +71,15 @@ func (this *AllowEvents) String() string {
 func (this *AllowEvents) EncodeBody() string {
 	return this.eventType
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *AllowEvents) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *AllowEvents) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AllowImpl.go b/sip/header/AllowImpl.go
index 8a73885..eaa97fd 100644
--- a/sip/header/AllowImpl.go
+++ b/sip/header/AllowImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -64,3 +65,15 @@ func (this *Allow) String() string {
 func (this *Allow) EncodeBody() string {
 	return this.method
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Allow) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Allow) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 04c23a0..ad012ac 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -442,3 +442,15 @@ func (this *Authentication) GetUsername() string {
 func (this *Authentication) SetUsername(username string) (ParseException error) {
 	return this.SetParameter(ParameterNames_USERNAME, username)
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Authentication) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Authentication) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index e6c1228..5e213b5 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -218,3 +218,15 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *AuthenticationInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *AuthenticationInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/CSeqImpl.go b/sip/header/CSeqImpl.go
index f2baa1d..a5aa7f2 100644
--- a/sip/header/CSeqImpl.go
+++ b/sip/header/CSeqImpl.go
@@ -129,3 +129,15 @@ func (this *CSeq) SetMethod(meth string) (ParseException error) {
 func (this *CSeq) GetSequenceNumber() int {
 	return this.seqno
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *CSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *CSeq) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..00382d1 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"github.com/use-go/gosips/core"
 )
 
@@ -108,3 +109,15 @@ func (this *CallID) SetCallId(cid string) (ParseException error) {
 func (this *CallID) SetCallIdentifier(cid *CallIdentifier) {
 	this.callIdentifier = cid
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *CallID) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *CallID) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index bd9d517..2656734 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -84,3 +85,15 @@ func (this *CallInfo) SetPurpose(purpose string) error {
 func (this *CallInfo) SetInfo(info address.URI) {
 	this.info = info
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *CallInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *CallInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index c72129e..f43ce55 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -202,3 +203,15 @@ func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Contact) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Contact) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContentDispositionImpl.go b/sip/header/ContentDispositionImpl.go
index 46f8762..9bdf1fc 100644
--- a/sip/header/ContentDispositionImpl.go
+++ b/sip/header/ContentDispositionImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -96,3 +97,15 @@ func (this *ContentDisposition) SetHandling(handling string) (ParseException err
 func (this *ContentDisposition) GetContentDisposition() string {
 	return this.EncodeBody()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ContentDisposition) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ContentDisposition) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContentEncodingImpl.go b/sip/header/ContentEncodingImpl.go
index 5e4eb64..4fc2e2f 100644
--- a/sip/header/ContentEncodingImpl.go
+++ b/sip/header/ContentEncodingImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -103,3 +104,15 @@ func (this *ContentEncoding) SetEncoding(encoding string) (ParseException error)
 	this.contentEncoding = encoding
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ContentEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ContentEncoding) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContentLanguageImpl.go b/sip/header/ContentLanguageImpl.go
index 771ea1c..9a12e53 100644
--- a/sip/header/ContentLanguageImpl.go
+++ b/sip/header/ContentLanguageImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"github.com/use-go/gosips/core"
 )
 
@@ -127,3 +128,15 @@ func (this *ContentLanguage) GetContentLanguage() string {
 func (this *ContentLanguage) SetContentLanguage(language string) {
 	this.locale = language
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ContentLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ContentLanguage) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContentLengthImpl.go b/sip/header/ContentLengthImpl.go
index e3c28fe..676d837 100644
--- a/sip/header/ContentLengthImpl.go
+++ b/sip/header/ContentLengthImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -107,3 +108,15 @@ func (this *ContentLength) Match(other interface{}) bool {
 	_, ok := other.(*ContentLength)
 	return ok
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ContentLength) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ContentLength) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 16d847f..f00f0c8 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -179,3 +179,15 @@ func (this *ContentType) SetContentSubType(contentType string) (ParseException e
 	this.mediaRange.SetSubtype(contentType)
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ContentType) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ContentType) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..4b1625b 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"github.com/use-go/gosips/core"
 	"time"
 )
@@ -53,3 +54,15 @@ func (this *Date) SetDate(d *time.Time) {
 func (this *Date) GetDate() *time.Time {
 	return this.date
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Date) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Date) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 260869b..1668e3a 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -105,3 +106,15 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 func (this *ErrorInfo) GetErrorMessage() string {
 	return this.GetParameter("message")
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ErrorInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ErrorInfo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/EventImpl.go b/sip/header/EventImpl.go
index b794319..d5155af 100644
--- a/sip/header/EventImpl.go
+++ b/sip/header/EventImpl.go
@@ -107,3 +107,15 @@ func (this *Event) Match(matchTarGet *Event) bool {
 			strings.ToLower(this.GetEventId()) == strings.ToLower(matchTarGet.GetEventId())
 	}
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Event) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Event) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ExpiresImpl.go b/sip/header/ExpiresImpl.go
index 6aa12a7..78f64b6 100644
--- a/sip/header/ExpiresImpl.go
+++ b/sip/header/ExpiresImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -69,3 +70,15 @@ func (this *Expires) SetExpires(expires int) (InvalidArgumentException error) {
 	this.expires = expires
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Expires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Expires) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 2050f5a..f42adaf 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -170,3 +170,15 @@ func (this *From) GetUserAtHostPort() string {
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *From) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *From) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..9a8a5e7 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -1,6 +1,9 @@
 package header
 
-import "github.com/use-go/gosips/core"
+import (
+	"github.com/use-go/gosips/core"
+	"strings"
+)
 
 /**
 * InReplyTo SIP Header.
@@ -68,3 +71,15 @@ func (this *InReplyTo) String() string {
 func (this *InReplyTo) EncodeBody() string {
 	return this.callId.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *InReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *InReplyTo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..f226097 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -77,3 +78,15 @@ func (this *MaxForwards) DecrementMaxForwards() error {
 	}
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *MaxForwards) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *MaxForwards) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/MimeVersionImpl.go b/sip/header/MimeVersionImpl.go
index 90c5185..f7db65a 100644
--- a/sip/header/MimeVersionImpl.go
+++ b/sip/header/MimeVersionImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -90,3 +91,15 @@ func (this *MimeVersion) EncodeBody() string {
 	return strconv.Itoa(this.majorVersion) + core.SIPSeparatorNames_DOT +
 		strconv.Itoa(this.minorVersion)
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *MimeVersion) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *MimeVersion) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/MinExpiresImpl.go b/sip/header/MinExpiresImpl.go
index 3de5718..07956fb 100644
--- a/sip/header/MinExpiresImpl.go
+++ b/sip/header/MinExpiresImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -69,3 +70,15 @@ func (this *MinExpires) SetExpires(expires int) (InvalidArgumentException error)
 	this.expires = expires
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *MinExpires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *MinExpires) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/OrganizationImpl.go b/sip/header/OrganizationImpl.go
index 4e01c4d..86dfd9e 100644
--- a/sip/header/OrganizationImpl.go
+++ b/sip/header/OrganizationImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -55,3 +56,15 @@ func (this *Organization) SetOrganization(o string) (ParseException error) {
 	this.organization = o
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Organization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Organization) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/PriorityImpl.go b/sip/header/PriorityImpl.go
index 07afb38..ead20b5 100644
--- a/sip/header/PriorityImpl.go
+++ b/sip/header/PriorityImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -56,3 +57,15 @@ func (this *Priority) SetPriority(p string) (ParseException error) {
 	this.priority = p
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Priority) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Priority) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ProxyRequireImpl.go b/sip/header/ProxyRequireImpl.go
index 97094d3..dc04092 100644
--- a/sip/header/ProxyRequireImpl.go
+++ b/sip/header/ProxyRequireImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -72,3 +73,15 @@ func (this *ProxyRequire) SetOptionTag(optionTag string) (ParseException error)
 func (this *ProxyRequire) GetOptionTag() string {
 	return this.optionTag
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ProxyRequire) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ProxyRequire) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index b8b9e07..8561744 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -105,3 +106,15 @@ func (this *RAck) SetRSeqNumber(rSeqNumber int) (InvalidArgumentException error)
 	this.rSeqNumber = rSeqNumber
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *RAck) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *RAck) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RSeqImpl.go b/sip/header/RSeqImpl.go
index cf49814..f47f257 100644
--- a/sip/header/RSeqImpl.go
+++ b/sip/header/RSeqImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -53,3 +54,15 @@ func (this *RSeq) String() string {
 func (this *RSeq) EncodeBody() string {
 	return strconv.Itoa(this.sequenceNumber)
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *RSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *RSeq) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..f0254a9 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -107,3 +108,15 @@ func (this *Reason) EncodeBody() string {
 	}
 	return encoding.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Reason) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Reason) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index f8839ba..fbdb1d5 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -59,3 +60,15 @@ func (this *RecordRoute) EncodeBody() string {
 	}
 	return encoding.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *RecordRoute) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *RecordRoute) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index 7c30966..b0e13a2 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -51,3 +52,15 @@ func (this *ReferTo) EncodeBody() string {
 	}
 	return encoding.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ReferTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ReferTo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index d29b44d..357b73a 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -80,3 +81,15 @@ func (this *ReplyTo) GetHostPort() *core.HostPort {
 func (this *ReplyTo) GetDisplayName() string {
 	return this.addr.GetDisplayName()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *ReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *ReplyTo) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RequireImpl.go b/sip/header/RequireImpl.go
index b799513..cde97bb 100644
--- a/sip/header/RequireImpl.go
+++ b/sip/header/RequireImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -72,3 +73,15 @@ func (this *Require) SetOptionTag(optionTag string) (ParseException error) {
 func (this *Require) GetOptionTag() string {
 	return this.optionTag
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Require) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Require) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a3858f6..bc49cff 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -160,3 +161,15 @@ func (this *RetryAfter) GetDuration() int {
 
 	return d
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *RetryAfter) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *RetryAfter) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 3ccd0e7..cbae805 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -92,3 +93,15 @@ func (this *Route) EncodeBody() string {
 	}
 	return encoding.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Route) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Route) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..169dce7 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"container/list"
 	"github.com/use-go/gosips/core"
@@ -161,3 +162,15 @@ func (this *SIPHeaderList) GetHeadersAsEncodedStrings() *list.List {
 	}
 	return retval
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *SIPHeaderList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *SIPHeaderList) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ServerImpl.go b/sip/header/ServerImpl.go
index c152d4d..03bfd7b 100644
--- a/sip/header/ServerImpl.go
+++ b/sip/header/ServerImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"container/list"
 	"errors"
@@ -91,3 +92,15 @@ func (this *Server) SetProduct(product *list.List) (ParseException error) {
 	this.productTokens = product
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Server) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Server) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/SubjectImpl.go b/sip/header/SubjectImpl.go
index ab80059..e7530d4 100644
--- a/sip/header/SubjectImpl.go
+++ b/sip/header/SubjectImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -74,3 +75,15 @@ func (this *Subject) SetSubject(subject string) (ParseException error) {
 func (this *Subject) GetSubject() string {
 	return this.subject
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Subject) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Subject) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index cbf70a2..b64bca9 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -156,3 +157,15 @@ func (this *SubscriptionState) EncodeBody() string {
 	}
 	return encoding.String()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *SubscriptionState) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *SubscriptionState) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/SupportedImpl.go b/sip/header/SupportedImpl.go
index 4e94d9f..f2326bc 100644
--- a/sip/header/SupportedImpl.go
+++ b/sip/header/SupportedImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -73,3 +74,15 @@ func (this *Supported) SetOptionTag(optionTag string) (ParseException error) {
 func (this *Supported) GetOptionTag() string {
 	return this.optionTag
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Supported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Supported) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 2ccee9b..17df64a 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -112,3 +113,15 @@ func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error)
 	this.delay = delay
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *TimeStamp) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *TimeStamp) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..44dd3fa 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -174,3 +174,15 @@ func (this *To) GetUserAtHostPort() string {
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *To) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *To) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/UnsupportedImpl.go b/sip/header/UnsupportedImpl.go
index f596d0a..48ce51d 100644
--- a/sip/header/UnsupportedImpl.go
+++ b/sip/header/UnsupportedImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 )
@@ -65,3 +66,15 @@ func (this *Unsupported) SetOptionTag(o string) (ParseException error) {
 	this.optionTag = o
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Unsupported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Unsupported) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/UserAgentImpl.go b/sip/header/UserAgentImpl.go
index 26a7b0e..bc1211c 100644
--- a/sip/header/UserAgentImpl.go
+++ b/sip/header/UserAgentImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"container/list"
 	"errors"
@@ -91,3 +92,15 @@ func (this *UserAgent) SetProduct(product *list.List) (ParseException error) {
 	this.productTokens = product
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *UserAgent) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *UserAgent) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 44f58ef..9c72db1 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
@@ -471,3 +472,15 @@ func (this *Via) SetBranch(branch string) (ParseException error) {
 	this.SetParameter(ParameterNames_BRANCH, branch)
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Via) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Via) GetValue() string {
+	return this.GetHeaderValue()
+}
diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index 3e70275..e2ca95e 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
@@ -119,3 +120,15 @@ func (this *Warning) SetText(text string) (ParseException error) {
 	this.text = text
 	return nil
 }
+
+/** Get the header value (i.e. what follows the name:).
+ */
+func (this *Warning) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+/** Alias for GetHeaderValue.
+ */
+func (this *Warning) GetValue() string {
+	return this.GetHeaderValue()
+}
-- 
2.43.0


From eb7a58180be9ffc5b3d4b909579c95ef5fa8c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:25 +0000
Subject: [PATCH 065/101] fix: headers clone deeply

---
 sip/address/AddressImpl.go           | 10 ++++++++++
 sip/header/AcceptEncodingImpl.go     |  8 ++++++++
 sip/header/AcceptEncodingList.go     |  9 +++++++++
 sip/header/AcceptImpl.go             | 14 +++++++++++++-
 sip/header/AcceptLanguageImpl.go     |  8 ++++++++
 sip/header/AcceptLanguageList.go     |  9 +++++++++
 sip/header/AcceptList.go             |  9 +++++++++
 sip/header/AddressParametersImpl.go  |  7 +++++++
 sip/header/AlertInfoImpl.go          | 13 ++++++++++++-
 sip/header/AlertInfoList.go          |  9 +++++++++
 sip/header/AllowEventsImpl.go        |  9 ++++++++-
 sip/header/AllowEventsList.go        |  9 +++++++++
 sip/header/AllowImpl.go              |  9 ++++++++-
 sip/header/AllowList.go              |  9 +++++++++
 sip/header/AuthenticationInfoImpl.go |  8 ++++++++
 sip/header/AuthorizationImpl.go      |  8 ++++++++
 sip/header/CSeqImpl.go               |  7 +++++++
 sip/header/CallIdImpl.go             | 13 ++++++++++++-
 sip/header/CallInfoImpl.go           | 13 ++++++++++++-
 sip/header/CallInfoList.go           |  9 +++++++++
 sip/header/ContactImpl.go            | 15 ++++++++++++++-
 sip/header/ContentDispositionImpl.go | 10 +++++++++-
 sip/header/ContentEncodingImpl.go    |  9 ++++++++-
 sip/header/ContentEncodingList.go    |  9 +++++++++
 sip/header/ContentLanguageImpl.go    |  9 ++++++++-
 sip/header/ContentLanguageList.go    |  9 +++++++++
 sip/header/ContentLengthImpl.go      |  9 ++++++++-
 sip/header/ContentTypeImpl.go        | 12 ++++++++++++
 sip/header/DateImpl.go               | 13 ++++++++++++-
 sip/header/ErrorInfoImpl.go          | 13 ++++++++++++-
 sip/header/ErrorInfoList.go          |  9 +++++++++
 sip/header/EventImpl.go              |  8 ++++++++
 sip/header/ExpiresImpl.go            |  9 ++++++++-
 sip/header/ExtensionImpl.go          |  7 +++++++
 sip/header/ExtensionList.go          |  9 +++++++++
 sip/header/FromImpl.go               | 13 +++++++++++--
 sip/header/InReplyToImpl.go          | 11 +++++++++++
 sip/header/InReplyToList.go          |  9 +++++++++
 sip/header/MaxForwardsImpl.go        |  9 ++++++++-
 sip/header/MimeVersionImpl.go        |  9 ++++++++-
 sip/header/MinExpiresImpl.go         |  9 ++++++++-
 sip/header/OrganizationImpl.go       |  9 ++++++++-
 sip/header/ParametersImpl.go         |  7 +++++++
 sip/header/PriorityImpl.go           |  9 ++++++++-
 sip/header/ProxyAuthenticateImpl.go  |  8 ++++++++
 sip/header/ProxyAuthenticateList.go  |  9 +++++++++
 sip/header/ProxyAuthorizationImpl.go |  8 ++++++++
 sip/header/ProxyRequireImpl.go       |  9 ++++++++-
 sip/header/ProxyRequireList.go       |  9 +++++++++
 sip/header/RAckImpl.go               |  9 ++++++++-
 sip/header/RSeqImpl.go               |  9 ++++++++-
 sip/header/ReasonImpl.go             |  8 ++++++++
 sip/header/ReasonList.go             |  9 +++++++++
 sip/header/RecordRouteImpl.go        | 11 ++++++++++-
 sip/header/RecordRouteList.go        |  9 +++++++++
 sip/header/ReferToImpl.go            | 11 ++++++++++-
 sip/header/ReplyToImpl.go            | 11 ++++++++++-
 sip/header/RequireImpl.go            |  9 ++++++++-
 sip/header/RequireList.go            |  9 +++++++++
 sip/header/RetryAfterImpl.go         | 10 +++++++++-
 sip/header/RouteImpl.go              | 11 ++++++++++-
 sip/header/RouteList.go              |  9 +++++++++
 sip/header/SIPHeaderList.go          | 13 ++++++++++++-
 sip/header/ServerImpl.go             | 13 ++++++++++++-
 sip/header/SubjectImpl.go            |  9 ++++++++-
 sip/header/SubscriptionStateImpl.go  | 10 +++++++++-
 sip/header/SupportedImpl.go          |  9 ++++++++-
 sip/header/SupportedList.go          |  9 +++++++++
 sip/header/TimeStampImpl.go          |  9 ++++++++-
 sip/header/ToImpl.go                 | 13 +++++++++++--
 sip/header/UnsupportedImpl.go        |  9 ++++++++-
 sip/header/UnsupportedList.go        |  9 +++++++++
 sip/header/UserAgentImpl.go          | 13 ++++++++++++-
 sip/header/ViaImpl.go                | 17 ++++++++++++++++-
 sip/header/WWWAuthenticateImpl.go    |  8 ++++++++
 sip/header/WWWAuthenticateList.go    |  9 +++++++++
 sip/header/WarningImpl.go            |  9 ++++++++-
 sip/header/WarningList.go            |  9 +++++++++
 78 files changed, 719 insertions(+), 42 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index d675bb8..38173ba 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -289,3 +289,13 @@ func (this *AddressImpl) SetUser(user string) {
 func (this *AddressImpl) SetWildCardFlag() {
 	this.addressType = WILD_CARD
 }
+
+/** Deep copy of this address.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return &retval
+}
diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9202ac4..b3fe251 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -157,3 +157,11 @@ func (this *AcceptEncoding) GetHeaderValue() string {
 func (this *AcceptEncoding) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *AcceptEncoding) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/AcceptEncodingList.go b/sip/header/AcceptEncodingList.go
index f5fb449..bd798db 100644
--- a/sip/header/AcceptEncodingList.go
+++ b/sip/header/AcceptEncodingList.go
@@ -18,3 +18,12 @@ func NewAcceptEncodingList() *AcceptEncodingList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_ACCEPT_ENCODING)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *AcceptEncodingList) Clone() interface{} {
+	retval := NewAcceptEncodingList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 5c56ed4..ea512da 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -195,3 +195,15 @@ func (this *Accept) GetHeaderValue() string {
 func (this *Accept) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Accept) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.mediaRange != nil {
+		mediaRange := *this.mediaRange
+		retval.mediaRange = &mediaRange
+	}
+	return &retval
+}
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 8ed8a54..40a0c7a 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -168,3 +168,11 @@ func (this *AcceptLanguage) GetHeaderValue() string {
 func (this *AcceptLanguage) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *AcceptLanguage) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..fc958dd 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -34,3 +34,12 @@ func (this *AcceptLanguageList) GetLast() Header {
 		return NewAcceptLanguage()
 	}
 }
+
+/** Deep copy of this header.
+ */
+func (this *AcceptLanguageList) Clone() interface{} {
+	retval := NewAcceptLanguageList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AcceptList.go b/sip/header/AcceptList.go
index cd9c056..443566c 100644
--- a/sip/header/AcceptList.go
+++ b/sip/header/AcceptList.go
@@ -19,3 +19,12 @@ func NewAcceptList() *AcceptList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_ACCEPT)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *AcceptList) Clone() interface{} {
+	retval := NewAcceptList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AddressParametersImpl.go b/sip/header/AddressParametersImpl.go
index fd35d41..71239b9 100644
--- a/sip/header/AddressParametersImpl.go
+++ b/sip/header/AddressParametersImpl.go
@@ -37,3 +37,10 @@ func (this *AddressParameters) GetAddress() address.Address {
 func (this *AddressParameters) SetAddress(addr address.Address) {
 	this.addr = addr
 }
+
+func (this *AddressParameters) cloneAddress() address.Address {
+	if addr, ok := this.addr.(*address.AddressImpl); ok {
+		return addr.Clone().(address.Address)
+	}
+	return this.addr
+}
diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index 564ea66..289f20a 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -82,3 +82,14 @@ func (this *AlertInfo) GetHeaderValue() string {
 func (this *AlertInfo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *AlertInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.uri != nil {
+		retval.uri = this.uri.Clone().(address.URI)
+	}
+	return &retval
+}
diff --git a/sip/header/AlertInfoList.go b/sip/header/AlertInfoList.go
index ca1606d..3693964 100644
--- a/sip/header/AlertInfoList.go
+++ b/sip/header/AlertInfoList.go
@@ -18,3 +18,12 @@ func NewAlertInfoList() *AlertInfoList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_ALERT_INFO)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *AlertInfoList) Clone() interface{} {
+	retval := NewAlertInfoList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AllowEventsImpl.go b/sip/header/AllowEventsImpl.go
index 861085d..14ecb8b 100644
--- a/sip/header/AllowEventsImpl.go
+++ b/sip/header/AllowEventsImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -83,3 +83,10 @@ func (this *AllowEvents) GetHeaderValue() string {
 func (this *AllowEvents) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *AllowEvents) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..f9b2ed7 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -74,3 +74,12 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 
 	return nil
 }
+
+/** Deep copy of this header.
+ */
+func (this *AllowEventsList) Clone() interface{} {
+	retval := NewAllowEventsList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AllowImpl.go b/sip/header/AllowImpl.go
index eaa97fd..3d6cfea 100644
--- a/sip/header/AllowImpl.go
+++ b/sip/header/AllowImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -77,3 +77,10 @@ func (this *Allow) GetHeaderValue() string {
 func (this *Allow) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Allow) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..896389d 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -74,3 +74,12 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 	}
 	return nil
 }
+
+/** Deep copy of this header.
+ */
+func (this *AllowList) Clone() interface{} {
+	retval := NewAllowList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 5e213b5..b07e9a9 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -230,3 +230,11 @@ func (this *AuthenticationInfo) GetHeaderValue() string {
 func (this *AuthenticationInfo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *AuthenticationInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/AuthorizationImpl.go b/sip/header/AuthorizationImpl.go
index ef16d22..1c3a3ef 100644
--- a/sip/header/AuthorizationImpl.go
+++ b/sip/header/AuthorizationImpl.go
@@ -18,3 +18,11 @@ func NewAuthorization() *Authorization {
 	this.Authentication.super(core.SIPHeaderNames_AUTHORIZATION)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *Authorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/CSeqImpl.go b/sip/header/CSeqImpl.go
index a5aa7f2..1051ae1 100644
--- a/sip/header/CSeqImpl.go
+++ b/sip/header/CSeqImpl.go
@@ -141,3 +141,10 @@ func (this *CSeq) GetHeaderValue() string {
 func (this *CSeq) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *CSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 00382d1..e375885 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -1,8 +1,8 @@
 package header
 
 import (
-	"strings"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -121,3 +121,14 @@ func (this *CallID) GetHeaderValue() string {
 func (this *CallID) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *CallID) Clone() interface{} {
+	retval := *this
+	if this.callIdentifier != nil {
+		callIdentifier := *this.callIdentifier
+		retval.callIdentifier = &callIdentifier
+	}
+	return &retval
+}
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 2656734..bc291c2 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -97,3 +97,14 @@ func (this *CallInfo) GetHeaderValue() string {
 func (this *CallInfo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *CallInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.info != nil {
+		retval.info = this.info.Clone().(address.URI)
+	}
+	return &retval
+}
diff --git a/sip/header/CallInfoList.go b/sip/header/CallInfoList.go
index da9023f..3548964 100644
--- a/sip/header/CallInfoList.go
+++ b/sip/header/CallInfoList.go
@@ -18,3 +18,12 @@ func NewCallInfoList() *CallInfoList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_CALL_INFO)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *CallInfoList) Clone() interface{} {
+	retval := NewCallInfoList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index f43ce55..2b862ef 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -1,12 +1,12 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -215,3 +215,16 @@ func (this *Contact) GetHeaderValue() string {
 func (this *Contact) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Contact) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	if this.contactList != nil {
+		retval.contactList = NewContactList()
+		retval.contactList.PushBackList(&this.contactList.List)
+	}
+	return &retval
+}
diff --git a/sip/header/ContentDispositionImpl.go b/sip/header/ContentDispositionImpl.go
index 9bdf1fc..801a861 100644
--- a/sip/header/ContentDispositionImpl.go
+++ b/sip/header/ContentDispositionImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -109,3 +109,11 @@ func (this *ContentDisposition) GetHeaderValue() string {
 func (this *ContentDisposition) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentDisposition) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/ContentEncodingImpl.go b/sip/header/ContentEncodingImpl.go
index 4fc2e2f..af913ca 100644
--- a/sip/header/ContentEncodingImpl.go
+++ b/sip/header/ContentEncodingImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -116,3 +116,10 @@ func (this *ContentEncoding) GetHeaderValue() string {
 func (this *ContentEncoding) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentEncoding) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ContentEncodingList.go b/sip/header/ContentEncodingList.go
index 24a5cf6..e21d8d6 100644
--- a/sip/header/ContentEncodingList.go
+++ b/sip/header/ContentEncodingList.go
@@ -18,3 +18,12 @@ func NewContentEncodingList() *ContentEncodingList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_CONTENT_ENCODING)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentEncodingList) Clone() interface{} {
+	retval := NewContentEncodingList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/ContentLanguageImpl.go b/sip/header/ContentLanguageImpl.go
index 9a12e53..f7ec2b7 100644
--- a/sip/header/ContentLanguageImpl.go
+++ b/sip/header/ContentLanguageImpl.go
@@ -1,8 +1,8 @@
 package header
 
 import (
-	"strings"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -140,3 +140,10 @@ func (this *ContentLanguage) GetHeaderValue() string {
 func (this *ContentLanguage) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentLanguage) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ContentLanguageList.go b/sip/header/ContentLanguageList.go
index a7b32c1..6d5d7a3 100644
--- a/sip/header/ContentLanguageList.go
+++ b/sip/header/ContentLanguageList.go
@@ -18,3 +18,12 @@ func NewContentLanguageList() *ContentLanguageList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_CONTENT_LANGUAGE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentLanguageList) Clone() interface{} {
+	retval := NewContentLanguageList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/ContentLengthImpl.go b/sip/header/ContentLengthImpl.go
index 676d837..bd996a1 100644
--- a/sip/header/ContentLengthImpl.go
+++ b/sip/header/ContentLengthImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -120,3 +120,10 @@ func (this *ContentLength) GetHeaderValue() string {
 func (this *ContentLength) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentLength) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index f00f0c8..9963e45 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -191,3 +191,15 @@ func (this *ContentType) GetHeaderValue() string {
 func (this *ContentType) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ContentType) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.mediaRange != nil {
+		mediaRange := *this.mediaRange
+		retval.mediaRange = &mediaRange
+	}
+	return &retval
+}
diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 4b1625b..61f65c8 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -1,8 +1,8 @@
 package header
 
 import (
-	"strings"
 	"github.com/use-go/gosips/core"
+	"strings"
 	"time"
 )
 
@@ -66,3 +66,14 @@ func (this *Date) GetHeaderValue() string {
 func (this *Date) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Date) Clone() interface{} {
+	retval := *this
+	if this.date != nil {
+		date := *this.date
+		retval.date = &date
+	}
+	return &retval
+}
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 1668e3a..b54385e 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -118,3 +118,14 @@ func (this *ErrorInfo) GetHeaderValue() string {
 func (this *ErrorInfo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ErrorInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.errorInfo != nil {
+		retval.errorInfo = this.errorInfo.Clone().(address.URI)
+	}
+	return &retval
+}
diff --git a/sip/header/ErrorInfoList.go b/sip/header/ErrorInfoList.go
index 95282d8..ac763a8 100644
--- a/sip/header/ErrorInfoList.go
+++ b/sip/header/ErrorInfoList.go
@@ -32,3 +32,12 @@ func NewErrorInfoList() *ErrorInfoList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_ERROR_INFO)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ErrorInfoList) Clone() interface{} {
+	retval := NewErrorInfoList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/EventImpl.go b/sip/header/EventImpl.go
index d5155af..b4e66a6 100644
--- a/sip/header/EventImpl.go
+++ b/sip/header/EventImpl.go
@@ -119,3 +119,11 @@ func (this *Event) GetHeaderValue() string {
 func (this *Event) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Event) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/ExpiresImpl.go b/sip/header/ExpiresImpl.go
index 78f64b6..57e516d 100644
--- a/sip/header/ExpiresImpl.go
+++ b/sip/header/ExpiresImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -82,3 +82,10 @@ func (this *Expires) GetHeaderValue() string {
 func (this *Expires) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Expires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ExtensionImpl.go b/sip/header/ExtensionImpl.go
index e4d0bc4..6fb40df 100644
--- a/sip/header/ExtensionImpl.go
+++ b/sip/header/ExtensionImpl.go
@@ -79,3 +79,10 @@ func (this *Extension) String() string {
 func (this *Extension) EncodeBody() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Extension) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ExtensionList.go b/sip/header/ExtensionList.go
index 5d202ed..ea880ee 100644
--- a/sip/header/ExtensionList.go
+++ b/sip/header/ExtensionList.go
@@ -28,3 +28,12 @@ func (this *ExtensionHeaderList) String() string {
 	}
 	return encoding.String()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ExtensionHeaderList) Clone() interface{} {
+	retval := NewExtensionHeaderList(this.headerName)
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index f42adaf..ea11eeb 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,8 +31,8 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
-	this.parameters = to.parameters
+	this.addr = to.cloneAddress()
+	this.parameters = to.cloneParameters()
 }
 
 /**
@@ -182,3 +182,12 @@ func (this *From) GetHeaderValue() string {
 func (this *From) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *From) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 9a8a5e7..6db8b41 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -83,3 +83,14 @@ func (this *InReplyTo) GetHeaderValue() string {
 func (this *InReplyTo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *InReplyTo) Clone() interface{} {
+	retval := *this
+	if this.callId != nil {
+		callId := *this.callId
+		retval.callId = &callId
+	}
+	return &retval
+}
diff --git a/sip/header/InReplyToList.go b/sip/header/InReplyToList.go
index 9d14d45..f7f410f 100644
--- a/sip/header/InReplyToList.go
+++ b/sip/header/InReplyToList.go
@@ -18,3 +18,12 @@ func NewInReplyToList() *InReplyToList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_IN_REPLY_TO)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *InReplyToList) Clone() interface{} {
+	retval := NewInReplyToList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index f226097..4e3b16e 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -90,3 +90,10 @@ func (this *MaxForwards) GetHeaderValue() string {
 func (this *MaxForwards) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *MaxForwards) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/MimeVersionImpl.go b/sip/header/MimeVersionImpl.go
index f7db65a..3b8c1dc 100644
--- a/sip/header/MimeVersionImpl.go
+++ b/sip/header/MimeVersionImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -103,3 +103,10 @@ func (this *MimeVersion) GetHeaderValue() string {
 func (this *MimeVersion) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *MimeVersion) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/MinExpiresImpl.go b/sip/header/MinExpiresImpl.go
index 07956fb..c81860b 100644
--- a/sip/header/MinExpiresImpl.go
+++ b/sip/header/MinExpiresImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -82,3 +82,10 @@ func (this *MinExpires) GetHeaderValue() string {
 func (this *MinExpires) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *MinExpires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/OrganizationImpl.go b/sip/header/OrganizationImpl.go
index 86dfd9e..2ea037a 100644
--- a/sip/header/OrganizationImpl.go
+++ b/sip/header/OrganizationImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -68,3 +68,10 @@ func (this *Organization) GetHeaderValue() string {
 func (this *Organization) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Organization) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index 39002d7..c85ed03 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -501,3 +501,10 @@ func (this *Parameters) String() string {
 func (this *Parameters) EncodeBody() string {
 	return ""
 }
+
+func (this *Parameters) cloneParameters() *core.NameValueList {
+	if this.parameters == nil {
+		return nil
+	}
+	return this.parameters.Clone().(*core.NameValueList)
+}
diff --git a/sip/header/PriorityImpl.go b/sip/header/PriorityImpl.go
index ead20b5..56cb227 100644
--- a/sip/header/PriorityImpl.go
+++ b/sip/header/PriorityImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -69,3 +69,10 @@ func (this *Priority) GetHeaderValue() string {
 func (this *Priority) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Priority) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ProxyAuthenticateImpl.go b/sip/header/ProxyAuthenticateImpl.go
index dd1d84a..932393f 100644
--- a/sip/header/ProxyAuthenticateImpl.go
+++ b/sip/header/ProxyAuthenticateImpl.go
@@ -18,3 +18,11 @@ func NewProxyAuthenticate() *ProxyAuthenticate {
 	this.Authentication.super(core.SIPHeaderNames_PROXY_AUTHENTICATE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ProxyAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/ProxyAuthenticateList.go b/sip/header/ProxyAuthenticateList.go
index 8e97aa3..780b4ad 100644
--- a/sip/header/ProxyAuthenticateList.go
+++ b/sip/header/ProxyAuthenticateList.go
@@ -16,3 +16,12 @@ func NewProxyAuthenticateList() *ProxyAuthenticateList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_PROXY_AUTHENTICATE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ProxyAuthenticateList) Clone() interface{} {
+	retval := NewProxyAuthenticateList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/ProxyAuthorizationImpl.go b/sip/header/ProxyAuthorizationImpl.go
index df306c7..3873736 100644
--- a/sip/header/ProxyAuthorizationImpl.go
+++ b/sip/header/ProxyAuthorizationImpl.go
@@ -16,3 +16,11 @@ func NewProxyAuthorization() *ProxyAuthorization {
 	this.Authentication.super(core.SIPHeaderNames_PROXY_AUTHORIZATION)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ProxyAuthorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/ProxyRequireImpl.go b/sip/header/ProxyRequireImpl.go
index dc04092..487760a 100644
--- a/sip/header/ProxyRequireImpl.go
+++ b/sip/header/ProxyRequireImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -85,3 +85,10 @@ func (this *ProxyRequire) GetHeaderValue() string {
 func (this *ProxyRequire) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ProxyRequire) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ProxyRequireList.go b/sip/header/ProxyRequireList.go
index 4eb1632..c6d4d03 100644
--- a/sip/header/ProxyRequireList.go
+++ b/sip/header/ProxyRequireList.go
@@ -16,3 +16,12 @@ func NewProxyRequireList() *ProxyRequireList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_PROXY_REQUIRE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ProxyRequireList) Clone() interface{} {
+	retval := NewProxyRequireList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index 8561744..6fcecd4 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -118,3 +118,10 @@ func (this *RAck) GetHeaderValue() string {
 func (this *RAck) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *RAck) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/RSeqImpl.go b/sip/header/RSeqImpl.go
index f47f257..ec0f400 100644
--- a/sip/header/RSeqImpl.go
+++ b/sip/header/RSeqImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 type RSeq struct {
@@ -66,3 +66,10 @@ func (this *RSeq) GetHeaderValue() string {
 func (this *RSeq) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *RSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index f0254a9..0b60be2 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -120,3 +120,11 @@ func (this *Reason) GetHeaderValue() string {
 func (this *Reason) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Reason) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/ReasonList.go b/sip/header/ReasonList.go
index 0f00095..e8d4c4f 100644
--- a/sip/header/ReasonList.go
+++ b/sip/header/ReasonList.go
@@ -16,3 +16,12 @@ func NewReasonList() *ReasonList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_REASON)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *ReasonList) Clone() interface{} {
+	retval := NewReasonList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index fbdb1d5..160d4c7 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /** The Request-Route header is added to a request by any proxy that insists on
@@ -72,3 +72,12 @@ func (this *RecordRoute) GetHeaderValue() string {
 func (this *RecordRoute) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *RecordRoute) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/RecordRouteList.go b/sip/header/RecordRouteList.go
index 38da542..b5c2a88 100644
--- a/sip/header/RecordRouteList.go
+++ b/sip/header/RecordRouteList.go
@@ -16,3 +16,12 @@ func NewRecordRouteList() *RecordRouteList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_RECORD_ROUTE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *RecordRouteList) Clone() interface{} {
+	retval := NewRecordRouteList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index b0e13a2..8565ec0 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -64,3 +64,12 @@ func (this *ReferTo) GetHeaderValue() string {
 func (this *ReferTo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ReferTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 357b73a..263e08a 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -93,3 +93,12 @@ func (this *ReplyTo) GetHeaderValue() string {
 func (this *ReplyTo) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *ReplyTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/RequireImpl.go b/sip/header/RequireImpl.go
index cde97bb..7dd718b 100644
--- a/sip/header/RequireImpl.go
+++ b/sip/header/RequireImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -85,3 +85,10 @@ func (this *Require) GetHeaderValue() string {
 func (this *Require) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Require) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/RequireList.go b/sip/header/RequireList.go
index e10a627..92c0a24 100644
--- a/sip/header/RequireList.go
+++ b/sip/header/RequireList.go
@@ -19,3 +19,12 @@ func NewRequireList() *RequireList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_REQUIRE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *RequireList) Clone() interface{} {
+	retval := NewRequireList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index bc49cff..23c0eac 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**  Retry-After SIP Header.
@@ -173,3 +173,11 @@ func (this *RetryAfter) GetHeaderValue() string {
 func (this *RetryAfter) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *RetryAfter) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index cbae805..ed45e6d 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -105,3 +105,12 @@ func (this *Route) GetHeaderValue() string {
 func (this *Route) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Route) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/RouteList.go b/sip/header/RouteList.go
index 551ffc4..a2b73da 100644
--- a/sip/header/RouteList.go
+++ b/sip/header/RouteList.go
@@ -50,3 +50,12 @@ func NewRouteList() *RouteList {
 // 	}
 // 	return true;
 // }
+
+/** Deep copy of this header.
+ */
+func (this *RouteList) Clone() interface{} {
+	retval := NewRouteList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index 169dce7..79685aa 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"container/list"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 type Lister interface {
@@ -69,10 +69,21 @@ func (this *SIPHeaderList) Clone() interface{} {
 	retval := &SIPHeaderList{}
 
 	retval.headerName = this.headerName
+	retval.cloneElements(this)
 
 	return retval
 }
 
+func (this *SIPHeaderList) cloneElements(from *SIPHeaderList) {
+	for e := from.Front(); e != nil; e = e.Next() {
+		if h, ok := e.Value.(Header); ok {
+			this.PushBack(h.Clone())
+		} else {
+			this.PushBack(e.Value)
+		}
+	}
+}
+
 func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 	if shl == nil {
 		return
diff --git a/sip/header/ServerImpl.go b/sip/header/ServerImpl.go
index 03bfd7b..b5ab012 100644
--- a/sip/header/ServerImpl.go
+++ b/sip/header/ServerImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"container/list"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -104,3 +104,14 @@ func (this *Server) GetHeaderValue() string {
 func (this *Server) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Server) Clone() interface{} {
+	retval := *this
+	if this.productTokens != nil {
+		retval.productTokens = list.New()
+		retval.productTokens.PushBackList(this.productTokens)
+	}
+	return &retval
+}
diff --git a/sip/header/SubjectImpl.go b/sip/header/SubjectImpl.go
index e7530d4..133733f 100644
--- a/sip/header/SubjectImpl.go
+++ b/sip/header/SubjectImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -87,3 +87,10 @@ func (this *Subject) GetHeaderValue() string {
 func (this *Subject) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Subject) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index b64bca9..1daa036 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -169,3 +169,11 @@ func (this *SubscriptionState) GetHeaderValue() string {
 func (this *SubscriptionState) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *SubscriptionState) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/SupportedImpl.go b/sip/header/SupportedImpl.go
index f2326bc..da37929 100644
--- a/sip/header/SupportedImpl.go
+++ b/sip/header/SupportedImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -86,3 +86,10 @@ func (this *Supported) GetHeaderValue() string {
 func (this *Supported) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Supported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/SupportedList.go b/sip/header/SupportedList.go
index 05d1249..f2c273a 100644
--- a/sip/header/SupportedList.go
+++ b/sip/header/SupportedList.go
@@ -18,3 +18,12 @@ func NewSupportedList() *SupportedList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_SUPPORTED)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *SupportedList) Clone() interface{} {
+	retval := NewSupportedList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 17df64a..c73e3b0 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -125,3 +125,10 @@ func (this *TimeStamp) GetHeaderValue() string {
 func (this *TimeStamp) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *TimeStamp) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 44dd3fa..243d9a5 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,8 +31,8 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.SetAddress(from.cloneAddress())
+	this.SetParameters(from.cloneParameters())
 }
 
 /**
@@ -186,3 +186,12 @@ func (this *To) GetHeaderValue() string {
 func (this *To) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *To) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = this.cloneAddress()
+	return &retval
+}
diff --git a/sip/header/UnsupportedImpl.go b/sip/header/UnsupportedImpl.go
index 48ce51d..1d38dbc 100644
--- a/sip/header/UnsupportedImpl.go
+++ b/sip/header/UnsupportedImpl.go
@@ -1,9 +1,9 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -78,3 +78,10 @@ func (this *Unsupported) GetHeaderValue() string {
 func (this *Unsupported) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Unsupported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/UnsupportedList.go b/sip/header/UnsupportedList.go
index 41c0ba4..b0dd59f 100644
--- a/sip/header/UnsupportedList.go
+++ b/sip/header/UnsupportedList.go
@@ -16,3 +16,12 @@ func NewUnsupportedList() *UnsupportedList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_UNSUPPORTED)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *UnsupportedList) Clone() interface{} {
+	retval := NewUnsupportedList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/UserAgentImpl.go b/sip/header/UserAgentImpl.go
index bc1211c..8566475 100644
--- a/sip/header/UserAgentImpl.go
+++ b/sip/header/UserAgentImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"container/list"
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 /**
@@ -104,3 +104,14 @@ func (this *UserAgent) GetHeaderValue() string {
 func (this *UserAgent) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *UserAgent) Clone() interface{} {
+	retval := *this
+	if this.productTokens != nil {
+		retval.productTokens = list.New()
+		retval.productTokens.PushBackList(this.productTokens)
+	}
+	return &retval
+}
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 9c72db1..bc37a9a 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -1,11 +1,11 @@
 package header
 
 import (
-	"strings"
 	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -484,3 +484,18 @@ func (this *Via) GetHeaderValue() string {
 func (this *Via) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Via) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.sentProtocol != nil {
+		sentProtocol := *this.sentProtocol
+		retval.sentProtocol = &sentProtocol
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	return &retval
+}
diff --git a/sip/header/WWWAuthenticateImpl.go b/sip/header/WWWAuthenticateImpl.go
index 15e7f3d..0083567 100644
--- a/sip/header/WWWAuthenticateImpl.go
+++ b/sip/header/WWWAuthenticateImpl.go
@@ -18,3 +18,11 @@ func NewWWWAuthenticate() *WWWAuthenticate {
 	this.Authentication.super(core.SIPHeaderNames_WWW_AUTHENTICATE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *WWWAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
diff --git a/sip/header/WWWAuthenticateList.go b/sip/header/WWWAuthenticateList.go
index c7553d5..9ffccba 100644
--- a/sip/header/WWWAuthenticateList.go
+++ b/sip/header/WWWAuthenticateList.go
@@ -17,3 +17,12 @@ func NewWWWAuthenticateList() *WWWAuthenticateList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_WWW_AUTHENTICATE)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *WWWAuthenticateList) Clone() interface{} {
+	retval := NewWWWAuthenticateList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index e2ca95e..66637cf 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -1,10 +1,10 @@
 package header
 
 import (
-	"strings"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -132,3 +132,10 @@ func (this *Warning) GetHeaderValue() string {
 func (this *Warning) GetValue() string {
 	return this.GetHeaderValue()
 }
+
+/** Deep copy of this header.
+ */
+func (this *Warning) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/WarningList.go b/sip/header/WarningList.go
index e67dc25..b789c41 100644
--- a/sip/header/WarningList.go
+++ b/sip/header/WarningList.go
@@ -17,3 +17,12 @@ func NewWarningList() *WarningList {
 	this.SIPHeaderList.super(core.SIPHeaderNames_WARNING)
 	return this
 }
+
+/** Deep copy of this header.
+ */
+func (this *WarningList) Clone() interface{} {
+	retval := NewWarningList()
+	retval.headerName = this.headerName
+	retval.cloneElements(&this.SIPHeaderList)
+	return retval
+}
-- 
2.43.0


From 0d8f024c4af17453636c97dc04e609de4289dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 066/101] fix: header lists are joined in order, also with
 themselves, and empty ones have no first language

---
 sip/header/AcceptLanguageList.go | 12 ++++--------
 sip/header/SIPHeaderList.go      |  7 ++++---
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index fc958dd..1a63206 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,21 +18,17 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
-	} else {
+	if this.Len() == 0 {
 		return NewAcceptLanguage()
 	}
+	return this.Front().Value.(Header)
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
-	} else {
+	if this.Len() == 0 {
 		return NewAcceptLanguage()
 	}
+	return this.Back().Value.(Header)
 }
 
 /** Deep copy of this header.
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index 79685aa..0ef5c37 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -90,12 +90,13 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 	}
 
 	if !topFlag {
-		for e := shl.Front(); e != nil; e = e.Next() {
+		//add given items to the end of the list.
+		for i, e := shl.Len(), shl.Front(); i > 0; i, e = i-1, e.Next() {
 			this.PushBack(e.Value.(Header))
 		}
 	} else {
-		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		//add given items to the top of the list, in their order.
+		for i, e := shl.Len(), shl.Back(); i > 0; i, e = i-1, e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 732f90d96fc488c87d5984279e2b0f61de613fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:38 +0000
Subject: [PATCH 067/101] fix: cause and text of a Reason are replaced, the
 text is quoted and a negative cause refused

---
 sip/header/ReasonImpl.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 0b60be2..5a38d5f 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -1,6 +1,7 @@
 package header
 
 import (
+	"errors"
 	"strings"
 	"bytes"
 	"github.com/use-go/gosips/core"
@@ -37,8 +38,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause parameter is <0")
+	}
+	return this.SetParameter(ParameterNames_CAUSE, strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -64,8 +67,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
-	return nil
+	return this.SetParameter(ParameterNames_TEXT, "\""+text+"\"")
 }
 
 /** Get the text.
@@ -74,7 +76,11 @@ func (this *Reason) SetText(text string) (ParseException error) {
  *
  */
 func (this *Reason) GetText() string {
-	return this.parameters.GetParameter("text")
+	text := this.parameters.GetParameter(ParameterNames_TEXT)
+	if len(text) > 1 && text[0] == '"' && text[len(text)-1] == '"' {
+		return text[1 : len(text)-1]
+	}
+	return text
 }
 
 /** Set the cause.
-- 
2.43.0


From 76ae699f01ed6fe14e7dad9cf922936d6650c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:40 +0000
Subject: [PATCH 068/101] fix: Max-Forwards is not decremented below zero

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index 4e3b16e..4067d08 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -73,9 +73,10 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: has already reached 0!")
 	}
+	this.maxForwards--
 	return nil
 }
 
-- 
2.43.0


From 266bdcc978b8694e7ac3dbc41770f0ab3b7ab2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 069/101] fix: dates are encoded in GMT

---
 sip/header/DateImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 61f65c8..65473a8 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -34,7 +34,10 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
-	return this.date.Format(time.RFC1123)
+	if this.date == nil {
+		return ""
+	}
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
 }
 
 /**
-- 
2.43.0


From d3533d83ca2acdd71c1d83f405f6fd84635c15f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 070/101] fix: a refused call identifier leaves the header as
 it was

---
 sip/header/CallIdImpl.go     |  8 ++++++--
 sip/header/CallIdentifier.go |  6 +++---
 sip/header/InReplyToImpl.go  | 10 +++++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index e375885..e5af9b5 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -98,8 +98,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..a540284 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,11 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		if index == 0 || index == len(cid)-1 {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = cid[0:index]
+		this.host = cid[index+1 : len(cid)]
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 6db8b41..1b6d45f 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -41,8 +41,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(callId)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callId = callIdentifier
+	return nil
 }
 
 /**
@@ -69,7 +73,7 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
-	return this.callId.String()
+	return this.GetCallId()
 }
 
 /** Get the header value (i.e. what follows the name:).
-- 
2.43.0


From 13db375065be97634c992d4ea82ee4eaee95b6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 071/101] fix: a Content-Type without media range has empty
 fields, its character set is the charset parameter

---
 sip/header/ContentTypeImpl.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 9963e45..1bfff69 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -61,7 +61,7 @@ func NewContentTypeFromString(contentType, contentSubtype string) *ContentType {
  * @return int.
  */
 func (this *ContentType) CompareMediaRange(media string) bool {
-	return strings.ToLower(this.mediaRange.mtype+"/"+this.mediaRange.subtype) == strings.ToLower(media)
+	return strings.ToLower(this.GetContentType()+"/"+this.GetContentSubType()) == strings.ToLower(media)
 }
 
 func (this *ContentType) String() string {
@@ -74,7 +74,9 @@ func (this *ContentType) String() string {
  * @return String.
  */
 func (this *ContentType) EncodeBody() string {
-	if this.HasParameters() {
+	if this.mediaRange == nil {
+		return ""
+	} else if this.HasParameters() {
 		return this.mediaRange.String() + core.SIPSeparatorNames_SEMICOLON + this.parameters.String()
 	} else {
 		return this.mediaRange.String()
@@ -92,14 +94,14 @@ func (this *ContentType) GetMediaRange() *MediaRange {
  * @return String.
  */
 func (this *ContentType) GetMediaType() string {
-	return this.mediaRange.mtype
+	return this.GetContentType()
 }
 
 /** Get the MediaSubType field.
  * @return String.
  */
 func (this *ContentType) GetMediaSubType() string {
-	return this.mediaRange.subtype
+	return this.GetContentSubType()
 }
 
 /** Get the content subtype.
@@ -127,7 +129,7 @@ func (this *ContentType) GetContentType() string {
 /** Get the charSet parameter.
  */
 func (this *ContentType) GetCharSet() string {
-	return this.GetParameter("charSet")
+	return this.GetParameter("charset")
 }
 
 /**
-- 
2.43.0


From f7cf2b1649af9a55e0c9b1ff49a304491b87ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 072/101] fix: timestamps and delays are numbers

---
 sip/header/TimeStampImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index c73e3b0..7bed390 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"errors"
+	"math"
 	"github.com/use-go/gosips/core"
 	"strconv"
 	"strings"
@@ -71,7 +72,7 @@ func (this *TimeStamp) RemoveDelay() {
  * negative value.
  */
 func (this *TimeStamp) SetTimeStamp(timeStamp float32) (InvalidArgumentException error) {
-	if timeStamp < 0 {
+	if !(timeStamp >= 0) || math.IsInf(float64(timeStamp), 0) {
 		return errors.New("InvalidArgumentException: the timeStamp parameter is <0")
 	}
 	this.timeStamp = timeStamp
@@ -107,7 +108,7 @@ func (this *TimeStamp) GetDelay() float32 {
  */
 
 func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error) {
-	if delay < 0 && delay != -1 {
+	if !(delay >= 0) && delay != -1 || math.IsInf(float64(delay), 0) {
 		return errors.New("InvalidArgumentException: the delay parameter is <0")
 	}
 	this.delay = delay
-- 
2.43.0


From c7eb1ba81c3530d8979867a60aa1c883057e1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 073/101] fix: From and Reply-To without an address have no
 name and no host

---
 sip/header/FromImpl.go    | 6 ++++++
 sip/header/ReplyToImpl.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index ea11eeb..7fa299e 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -111,6 +111,9 @@ func (this *From) GetHostPort() (*core.HostPort, error) {
  * @return Display name
  */
 func (this *From) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
 
@@ -167,6 +170,9 @@ func (this *From) SetTag(t string) (ParseException error) {
 /** Get the user@host port string.
  */
 func (this *From) GetUserAtHostPort() string {
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 263e08a..1f61e6d 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -69,6 +69,9 @@ func (this *ReplyTo) EncodeBody() string {
  * @return HostPort
  */
 func (this *ReplyTo) GetHostPort() *core.HostPort {
+	if this.addr == nil {
+		return nil
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	hp, _ := addr.GetHostPort()
 	return hp
@@ -79,6 +82,9 @@ func (this *ReplyTo) GetHostPort() *core.HostPort {
  * @return String
  */
 func (this *ReplyTo) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
 
-- 
2.43.0


From 443ff790e4c71601c351ad4cfd81aeb9a6202d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 074/101] fix: a message has no header it lacks

---
 sip/message/SIPMessage.go  | 82 +++++++++++++++++++++++++++++---------
 sip/message/SIPRequest.go  | 17 ++++++--
 sip/message/SIPResponse.go | 11 ++++-
 3 files changed, 87 insertions(+), 23 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..1c25529 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -844,6 +844,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -855,13 +858,17 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -870,7 +877,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return l
 }
 
 /**
@@ -878,7 +886,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return l
 }
 
 /**
@@ -886,7 +895,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return l
 }
 
 /** Get an iterator to the list of vial headers.
@@ -921,7 +931,7 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	if this.GetViaHeaders() == nil || this.GetViaHeaders().Len() == 0 {
 		return nil
 	} else {
 		return this.GetViaHeaders().Front().Value.(*header.Via)
@@ -933,6 +943,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -940,6 +953,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return 0
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -948,7 +964,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -956,6 +973,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -971,7 +991,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -987,7 +1008,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -995,7 +1017,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -1003,7 +1026,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1011,7 +1035,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return l
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1019,6 +1044,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1036,7 +1064,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
+		c, err := header.NewCallID(callId)
+		if err != nil {
+			return
+		}
 		this.SetHeader(c)
 	}
 	this.callIdHeader.SetCallId(callId)
@@ -1051,6 +1082,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
@@ -1060,7 +1094,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return l
 }
 
 /**
@@ -1068,6 +1103,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1123,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
@@ -1330,7 +1371,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	l, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return l
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1539,7 +1581,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1547,7 +1590,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1555,7 +1599,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1563,7 +1608,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..f33cb19 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.GetCSeq()
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
@@ -838,7 +838,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -849,8 +852,8 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
-	if via.HasPort() {
+	via := this.GetTopmostVia()
+	if via != nil && via.HasPort() {
 		return via.GetPort()
 	} else {
 		return 5060
@@ -879,6 +882,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
@@ -887,6 +893,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..9952157 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -622,9 +625,15 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From 14329c5d1c471e8e877d30ca80f084d5b3a3488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 075/101] fix: every header of a list is kept, and headers are
 replaced and removed entirely

---
 sip/message/SIPMessage.go | 176 +++++++++++++++++++++++---------------
 1 file changed, 109 insertions(+), 67 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 1c25529..aca67ea 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,7 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -599,13 +602,26 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	if hl, ok := h.(header.SIPHeaderLister); ok {
+		// Ignore empty lists.
+		if hl.Len() == 0 {
+			return nil
+		}
+	}
+
+	// A header which may occur many times is kept in a list of its type.
+	if l := newHeaderList(h); l != nil {
+		l.PushBack(h)
+		h = l
+	}
+
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
 				if cl, ok := h.(*header.ContentLength); ok {
-					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
+					this.setContentLength(cl.GetContentLength())
 				}
 				// Just ignore duplicate header.
 				return nil
@@ -613,32 +629,16 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		}
 	}
 
-	originalHeader := this.GetHeader(h.GetName())
-
-	// Delete the original sh from our list structure.
-	if originalHeader != nil {
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			next := li.Value.(header.Header)
-			if next == originalHeader {
-				this.headers.Remove(li)
-			}
-		}
-	}
-
-	if this.GetHeader(h.GetName()) == nil {
+	if this.nameTable[strings.ToLower(h.GetName())] == nil {
 		this.nameTable[strings.ToLower(h.GetName())] = h
 		this.headers.PushBack(h)
 	} else {
 		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
+			if hdrlist, ok := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister); ok {
 				hdrlist.Concatenate(hs, top)
-			} else {
-				this.nameTable[strings.ToLower(h.GetName())] = h
 			}
-		} else {
-			this.nameTable[strings.ToLower(h.GetName())] = h
 		}
+		return nil
 	}
 
 	// Direct accessor fields for frequently accessed headers.
@@ -659,6 +659,63 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	return nil
 }
 
+/** Get an empty list for a header of a type that is kept in lists, nil for
+ * any other header.
+ */
+func newHeaderList(h header.Header) (l header.SIPHeaderLister) {
+	switch h.(type) {
+	case *header.Accept:
+		l = header.NewAcceptList()
+	case *header.AcceptEncoding:
+		l = header.NewAcceptEncodingList()
+	case *header.AcceptLanguage:
+		l = header.NewAcceptLanguageList()
+	case *header.AlertInfo:
+		l = header.NewAlertInfoList()
+	case *header.Allow:
+		l = header.NewAllowList()
+	case *header.AllowEvents:
+		l = header.NewAllowEventsList()
+	case *header.CallInfo:
+		l = header.NewCallInfoList()
+	case *header.Contact:
+		l = header.NewContactList()
+	case *header.ContentEncoding:
+		l = header.NewContentEncodingList()
+	case *header.ContentLanguage:
+		l = header.NewContentLanguageList()
+	case *header.ErrorInfo:
+		l = header.NewErrorInfoList()
+	case *header.InReplyTo:
+		l = header.NewInReplyToList()
+	case *header.ProxyAuthenticate:
+		l = header.NewProxyAuthenticateList()
+	case *header.ProxyRequire:
+		l = header.NewProxyRequireList()
+	case *header.Reason:
+		l = header.NewReasonList()
+	case *header.RecordRoute:
+		l = header.NewRecordRouteList()
+	case *header.Require:
+		l = header.NewRequireList()
+	case *header.Route:
+		l = header.NewRouteList()
+	case *header.Supported:
+		l = header.NewSupportedList()
+	case *header.Unsupported:
+		l = header.NewUnsupportedList()
+	case *header.Via:
+		l = header.NewViaList()
+	case *header.WWWAuthenticate:
+		l = header.NewWWWAuthenticateList()
+	case *header.Warning:
+		l = header.NewWarningList()
+	case *header.Extension:
+		l = header.NewExtensionHeaderList(h.GetName())
+	}
+	return l
+}
+
 /** Remove a header given its name. If multiple headers of a given name
  * are present then the top flag determines which end to remove headers
  * from.
@@ -675,45 +732,21 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 	}
 
 	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
-		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
-		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
+		if hdrList.Len() > 0 {
+			if top {
+				first := hdrList.Front()
+				hdrList.Remove(first)
+			} else {
+				last := hdrList.Back()
+				hdrList.Remove(last)
+			}
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
-			for li := this.headers.Front(); li != nil; li = li.Next() {
-				sipHeader := li.Value.(header.Header)
-				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-					this.headers.Remove(li)
-				}
-			}
+			this.RemoveHeader(headerName)
 		}
 	} else {
-		delete(this.nameTable, strings.ToLower(headerName))
-		var ok bool
-		if _, ok = toRemove.(*header.From); ok {
-			this.fromHeader = nil
-		} else if _, ok = toRemove.(*header.To); ok {
-			this.toHeader = nil
-		} else if _, ok = toRemove.(*header.CSeq); ok {
-			this.cSeqHeader = nil
-		} else if _, ok = toRemove.(*header.CallID); ok {
-			this.callIdHeader = nil
-		} else if _, ok = toRemove.(*header.MaxForwards); ok {
-			this.maxForwardsHeader = nil
-		} else if _, ok = toRemove.(*header.ContentLength); ok {
-			this.contentLengthHeader = nil
-		}
-
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			sipHeader := li.Value.(header.Header)
-			if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-				this.headers.Remove(li)
-			}
-		}
+		this.RemoveHeader(headerName)
 	}
 
 }
@@ -745,11 +778,13 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
 		this.contentLengthHeader = nil
 	}
 
-	for li := this.headers.Front(); li != nil; li = li.Next() {
+	for li := this.headers.Front(); li != nil; {
+		next := li.Next()
 		sipHeader := li.Value.(header.Header)
 		if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
 			this.headers.Remove(li)
 		}
+		li = next
 	}
 }
 
@@ -1231,7 +1266,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1268,7 +1303,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1301,7 +1336,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1313,7 +1348,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1326,7 +1361,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1342,7 +1377,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1479,12 +1514,11 @@ func (this *SIPMessage) GetToTag() string {
  */
 func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
-	sh := sipHeader.(header.Header)
 	//try {
 	if _, ok := sipHeader.(header.ViaHeader); ok {
-		this.AttachHeader3(sh, false, true)
+		this.AttachHeader3(sipHeader, false, true)
 	} else {
-		this.AttachHeader3(sh, false, false)
+		this.AttachHeader3(sipHeader, false, false)
 	}
 	// } catch (SIPDuplicateHeaderException ex) {
 	//try {
@@ -1642,11 +1676,19 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
 
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(length), false)
+	} else {
+		this.contentLengthHeader.SetContentLength(length)
+	}
+}
+
 /** Set the CSeq header.
  *
  *@param cseqHeader -- CSeq Header.
-- 
2.43.0


From 35577678d2d56ff1b6d24aeba7e8a0aac116118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 076/101] fix: new content replaces the old content of a
 message

---
 sip/message/SIPMessage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index aca67ea..5fdc1f1 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -862,7 +862,7 @@ func (this *SIPMessage) GetTransactionId() string {
 /** Return true if this message has a body.
  */
 func (this *SIPMessage) HasContent() bool {
-	return this.messageContent != "" || this.messageContentBytes != nil
+	return this.messageContent != "" || len(this.messageContentBytes) != 0
 }
 
 /**Return an iterator for the list of headers in this message.
@@ -1283,9 +1283,11 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
 		this.messageContentBytes = b
+		this.messageContent = ""
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
-- 
2.43.0


From 3c5852eb1e67f31ef12a0c9dec480c419ae07376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:26 +0000
Subject: [PATCH 077/101] fix: a message has the same text and bytes

---
 sip/message/SIPRequest.go  | 1 +
 sip/message/SIPResponse.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index f33cb19..071d141 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -425,6 +425,7 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 func (this *SIPRequest) EncodeAsBytes() []byte {
 	var rlbytes []byte
 	if this.requestLine != nil {
+		this.SetRequestLineDefaults()
 		// try {
 		rlbytes = []byte(this.requestLine.String()) //.GetBytes("UTF-8");
 		//   } catch (UnsupportedEncodingException ex) {
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 9952157..6a61e79 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -326,7 +326,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From 5e29212d3cd39f15308eaeca4312776cca247ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:28 +0000
Subject: [PATCH 078/101] fix: the header names of a message are names

---
 sip/message/SIPMessage.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 5fdc1f1..f1525ea 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1571,15 +1571,12 @@ func (this *SIPMessage) GetUnrecognizedHeaders() *list.List {
  * in the same order as are present in the message.
  */
 func (this *SIPMessage) GetHeaderNames() *list.List {
-	return this.headers
-	// ListIterator li = this.headers.listIterator();
-	// LinkedList retval  = new LinkedList();
-	// while (li.hasNext()) {
-	//     SIPHeader sipHeader = (SIPHeader) li.next();
-	//     String name = sipHeader.GetName();
-	//     retval.add(name);
-	// }
-	// return retval.listIterator();
+	retval := list.New()
+	for li := this.headers.Front(); li != nil; li = li.Next() {
+		sipHeader := li.Value.(header.Header)
+		retval.PushBack(sipHeader.GetName())
+	}
+	return retval
 }
 
 /** Compare for equality.
-- 
2.43.0


From 5f2b063f28a63b53ed2ad518cf5f0b6ab62cc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 079/101] fix: requests derived from a message leave it as it
 was

---
 sip/message/SIPMessage.go  | 21 ++++++++++++
 sip/message/SIPRequest.go  | 70 ++++++++++++++++++++++++--------------
 sip/message/SIPResponse.go | 16 +++++----
 3 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index f1525ea..23ffffd 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -75,9 +75,15 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.AlertInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.InReplyTo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.InReplyToList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Authorization); ok {
 		return true
 	}
@@ -118,24 +124,39 @@ func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ErrorInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.ProxyAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ProxyAuthenticateList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Server); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Unsupported); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.UnsupportedList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.RetryAfter); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Warning); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WarningList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.WWWAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WWWAuthenticateList); ok {
+		return true
+	}
 
 	return false
 }
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 071d141..260f2f3 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -558,6 +558,21 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 	return newResponse
 }
 
+/** Get a copy of the request line, for a request derived from this one.
+ */
+func (this *SIPRequest) cloneRequestLine() *header.RequestLine {
+	if this.requestLine == nil {
+		return nil
+	}
+	retval := header.NewRequestLine()
+	retval.SetMethod(this.requestLine.GetMethod())
+	retval.SetSIPVersion(this.requestLine.GetSipVersion())
+	if uri := this.requestLine.GetUri(); uri != nil {
+		retval.SetUri(uri.Clone().(address.URI))
+	}
+	return retval
+}
+
 // /** Creates a default SIPResquest message that would cancel
 // * this request. Note that tag assignment and removal of
 // * is left to the caller (we use whatever tags are present in the
@@ -574,7 +589,7 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	newRequest.SetRequestLine(this.cloneRequestLine())
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -595,14 +610,16 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 			   nextHeader = new ViaList();
 			   ((ViaList)nextHeader).add(sipHeader);
 			 **/
-			//nextHeader = (ViaList) ((ViaList) nextHeader).clone();
+			nextHeader = nextHeader.Clone().(header.Header)
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
-			//CSeq cseq = (CSeq) nextHeader.clone();
+			cseq = cseq.Clone().(*header.CSeq)
 			//try{
 			cseq.SetMethod(CANCEL)
 			//}
 			//catch(ParseException e){}
 			nextHeader = cseq
+		} else {
+			nextHeader = nextHeader.Clone().(header.Header)
 		}
 		//try {
 		newRequest.AttachHeader2(nextHeader, false)
@@ -630,7 +647,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	newRequest.SetRequestLine(this.cloneRequestLine())
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -645,7 +662,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			continue
 		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
 			// Adding content is responsibility of user.
-			//nextHeader = nextHeader.(*header.ContentLength)
+			cl = cl.Clone().(*header.ContentLength)
 			//try{
 			cl.SetContentLength(0)
 			nextHeader = cl
@@ -662,7 +679,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// sequence number as was present in the
 			// original request, but the method parameter
 			// MUST be equal to "ACK".
-			//nextHeader = nextHeader.(*header.CSeq)
+			cseq = cseq.Clone().(*header.CSeq)
 			//try{
 			cseq.SetMethod(ACK)
 			nextHeader = cseq
@@ -672,7 +689,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			if responseToHeader != nil {
 				nextHeader = responseToHeader
 			} else {
-				//nextHeader = (SIPHeader) nextHeader.clone();
+				nextHeader = nextHeader.Clone().(header.Header)
 			}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
 			// Bug reported by Gianluca Martinello
@@ -681,9 +698,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// field of the original
 			// request.
 
-			nextHeader = vl.Front().Value.(header.Header)
+			nextHeader = vl.Front().Value.(header.Header).Clone().(header.Header)
 		} else {
-			//nextHeader = (SIPHeader) nextHeader.clone();
+			nextHeader = nextHeader.Clone().(header.Header)
 		}
 
 		//try {
@@ -737,20 +754,20 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
-			// CSeq newCseq = (CSeq) nextHeader.clone();
+			newCseq = newCseq.Clone().(*header.CSeq)
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(newRequest.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
 			// Cancel and ACK preserve the branch ID.
@@ -761,9 +778,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
-				to.RemoveTag()
-				nextHeader = to
+				to2 := to.Clone().(*header.To)
+				to2.RemoveTag()
+				nextHeader = to2
 			}
 		} else if from, ok := nextHeader.(*header.From); ok {
 			if switchHeaders {
@@ -772,13 +789,12 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
-				from.RemoveTag()
-				nextHeader = from
+				from2 := from.Clone().(*header.From)
+				from2.RemoveTag()
+				nextHeader = from2
 			}
 		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
-			//ContentLength cl  =
-			//	(ContentLength) nextHeader.clone();
+			cl = cl.Clone().(*header.ContentLength)
 			//try{
 			cl.SetContentLength(0)
 			//}
@@ -815,8 +831,10 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
-	requestLine.SetMethod("BYE")
+	requestLine := this.cloneRequestLine()
+	if requestLine != nil {
+		requestLine.SetMethod("BYE")
+	}
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
 
@@ -827,8 +845,10 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
-	requestLine.SetMethod(ACK)
+	requestLine := this.cloneRequestLine()
+	if requestLine != nil {
+		requestLine.SetMethod(ACK)
+	}
 	return this.CreateSIPRequest(requestLine, false)
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 6a61e79..1a623d3 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -569,7 +569,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia() != nil && this.GetTopmostVia().GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
 		via.SetBranch(this.GetTopmostVia().GetBranch())
@@ -593,14 +593,18 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			// The content is not copied.
+			continue
+		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-		// if _, ok:=nextHeader.(*header.To); ok{
-		//     nextHeader = nextHeader.clone();
-		// }
-		// else if (nextHeader instanceof From)
-		//     nextHeader = (SIPHeader)nextHeader.clone();
+		if to, ok := nextHeader.(*header.To); ok {
+			nextHeader = to.Clone().(*header.To)
+		} else if from, ok := nextHeader.(*header.From); ok {
+			nextHeader = from.Clone().(*header.From)
+		}
 		// try {
 		newRequest.AttachHeader2(nextHeader, false)
 		// } catch(SIPDuplicateHeaderException e){
-- 
2.43.0


From c7ca0e370e5d36536ed2729f1f7373f79c6b38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 080/101] fix: identifiers of messages keep their fields and
 exist without them

---
 sip/message/SIPMessage.go  | 45 ++++++++++++++++++--------------------
 sip/message/SIPRequest.go  | 26 +++++++++++++++-------
 sip/message/SIPResponse.go | 26 +++++++++++++++-------
 3 files changed, 57 insertions(+), 40 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 23ffffd..f6f4c49 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -831,15 +832,12 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
 	if topVia != nil && topVia.GetBranch() != "" &&
-		strings.Contains(strings.ToUpper(topVia.GetBranch()),
+		strings.HasPrefix(strings.ToUpper(topVia.GetBranch()),
 			strings.ToUpper(header.SIPConstants_BRANCH_MAGIC_COOKIE)) {
 		// Bis 09 compatible branch assignment algorithm.
 		// implies that the branch id can be used as a transaction
@@ -849,32 +847,31 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
-		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
-		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+		if from := this.fromHeader; from != nil {
+			hpFrom := from.GetUserAtHostPort()
+			retval.WriteString(hpFrom + ":")
+			if from.HasTag() {
+				retval.WriteString(from.GetTag() + ":")
+			}
+		}
+		if to := this.toHeader; to != nil {
+			hpTo := to.GetUserAtHostPort()
+			retval.WriteString(hpTo + ":")
 		}
-		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
-		cid := this.callIdHeader.GetCallId()
+		cid := this.GetCallIdentifier()
 		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
-		if topVia != nil {
+		if this.cSeqHeader != nil {
+			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(":" + this.cSeqHeader.GetMethod())
+		}
+		if topVia != nil && topVia.GetSentBy() != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString(strconv.Itoa(5060))
 			}
 		}
-		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		return ToHexString([]byte(strings.ToLower(retval.String())))
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 260f2f3..ea0cf32 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -340,11 +340,16 @@ func (this *SIPRequest) GetMessageAsEncodedStrings() *list.List {
 // *	and Set to false if this is the UAC
 // */
 func (this *SIPRequest) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -379,11 +384,16 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 // /** Get a dialog id given the remote tag.
 // */
 func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 1a623d3..822a0e6 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -480,11 +480,16 @@ func (this *SIPResponse) EncodeAsBytes() []byte {
 //     * and Set to false if this is the UAC
 //     */
 func (this *SIPResponse) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -516,11 +521,16 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
-- 
2.43.0


From 502b4561af4038f4a0f44cf430406ae3c35c9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 081/101] fix: reducing a string keeps its characters

---
 sip/message/Utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/Utils.go b/sip/message/Utils.go
index 92306ad..1f288da 100644
--- a/sip/message/Utils.go
+++ b/sip/message/Utils.go
@@ -57,7 +57,7 @@ func ReduceString(input string) string {
 		if newString[i] == ' ' || newString[i] == '\t' {
 			continue
 		} else {
-			retval += string(newString[i])
+			retval += newString[i : i+1]
 		}
 	}
 	return retval
-- 
2.43.0


From d92ff0991f78c89717a975c0a7c4e701fed64210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 082/101] fix: SIP is a method like any other token

---
 sip/parser/SIPParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 0e9cbec..ac2850a 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -186,6 +186,7 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 		token.GetTokenType() == TokenTypes_CANCEL ||
 		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
 		token.GetTokenType() == TokenTypes_NOTIFY ||
+		token.GetTokenType() == TokenTypes_SIP ||
 		token.GetTokenType() == TokenTypes_ID {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
-- 
2.43.0


From 9d467e3143d20c519dbd24a314ddc74d1cd92d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 083/101] fix: CSeq numbers are less than 2**31

---
 sip/header/CSeqImpl.go   | 4 ++--
 sip/parser/CSeqParser.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sip/header/CSeqImpl.go b/sip/header/CSeqImpl.go
index 1051ae1..4bb31fb 100644
--- a/sip/header/CSeqImpl.go
+++ b/sip/header/CSeqImpl.go
@@ -100,8 +100,8 @@ func (this *CSeq) GetMethod() string {
  * @throws InvalidArgumentException -- if the seq number is <= 0
  */
 func (this *CSeq) SetSequenceNumber(sequenceNumber int) (InvalidArgumentException error) {
-	if sequenceNumber < 0 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, CSeq, setSequenceNumber(), the sequence number parameter is < 0")
+	if sequenceNumber < 0 || sequenceNumber > 0x7fffffff {
+		return errors.New("InvalidArgumentException: GoSIP Exception, CSeq, setSequenceNumber(), the sequence number parameter is < 0 or >= 2**31")
 	}
 
 	this.seqno = sequenceNumber
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 77afd72..b254e13 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -55,6 +55,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	c := header.NewCSeq(number, method)
+	if ParseException = c.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return c, nil
 }
-- 
2.43.0


From d719574450f6fa2197b84555e4367d3737b3da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 084/101] fix: Expires is digits that blanks may follow

---
 sip/parser/ExpiresParser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index f940f17..5dc226e 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -46,11 +46,12 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	var delta uint64
+	if delta, ParseException = strconv.ParseUint(nextId, 10, 31); ParseException != nil {
 		return nil, ParseException
 	}
 	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
-- 
2.43.0


From b0a0cc9f65aa48e6dc75c3291f9de619fec36b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 085/101] fix: numbers in Warning and Subscription-State have
 no sign

---
 sip/parser/SubscriptionStateParser.go | 12 ++++++------
 sip/parser/WarningParser.go           | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index e2b66a8..999b8ad 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -90,11 +90,11 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
-			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
+			var expires uint64
+			if expires, ParseException = strconv.ParseUint(value, 10, 63); ParseException != nil {
 				return nil, ParseException
 			}
-			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+			if ParseException = subscriptionState.SetExpires(int(expires)); ParseException != nil {
 				return nil, ParseException
 			}
 		} else if strings.ToLower(value) == "retry-after" {
@@ -108,11 +108,11 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
-			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
+			var retryAfter uint64
+			if retryAfter, ParseException = strconv.ParseUint(value, 10, 63); ParseException != nil {
 				return nil, ParseException
 			}
-			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+			if ParseException = subscriptionState.SetRetryAfter(int(retryAfter)); ParseException != nil {
 				return nil, ParseException
 			}
 		} else {
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index efa6f82..dfdb13a 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -53,11 +53,11 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		}
 		token := lexer.GetNextToken()
 
-		var code int
-		if code, ParseException = strconv.Atoi(token.GetTokenValue()); ParseException != nil {
+		var code uint64
+		if code, ParseException = strconv.ParseUint(token.GetTokenValue(), 10, 31); ParseException != nil {
 			return nil, ParseException
 		}
-		if ParseException = warning.SetCode(code); ParseException != nil {
+		if ParseException = warning.SetCode(int(code)); ParseException != nil {
 			return nil, ParseException
 		}
 
@@ -99,10 +99,10 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			}
 			tok := lexer.GetNextToken()
 
-			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
+			if code, ParseException = strconv.ParseUint(tok.GetTokenValue(), 10, 31); ParseException != nil {
 				return nil, ParseException
 			}
-			if ParseException = warning.SetCode(code); ParseException != nil {
+			if ParseException = warning.SetCode(int(code)); ParseException != nil {
 				return nil, ParseException
 			}
 
-- 
2.43.0


From 432ebbc3b2dee867fc4f1af231b9630127dce8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 086/101] fix: stale is true in any case

---
 sip/header/AuthenticationImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index ad012ac..af3ba76 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -344,7 +344,7 @@ func (this *Authentication) SetStale(stale bool) {
  */
 func (this *Authentication) IsStale() bool {
 	stale := this.GetParameter(ParameterNames_STALE)
-	if stale == "true" {
+	if strings.ToLower(stale) == "true" {
 		return true
 	} else {
 		return false
-- 
2.43.0


From 3540f63c36a288aa09794318d00d353edd271aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 087/101] fix: parameter names are found in any case

---
 core/NameValueList.go              | 5 +++--
 sip/parser/AcceptEncodingParser.go | 5 +++--
 sip/parser/AcceptLanguageParser.go | 5 +++--
 sip/parser/RetryAfterParser.go     | 3 ++-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 3a6c2d2..4294e93 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -195,7 +196,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -219,7 +220,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 8daa7ed..a6622c6 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -89,9 +89,10 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				lexer.SPorHT()
-				if _, ParseException = lexer.Match('q'); ParseException != nil {
-					return nil, ParseException
+				if ch, _ = lexer.LookAheadK(0); ch != 'q' && ch != 'Q' {
+					return nil, this.CreateParseException("unexpected parameter")
 				}
+				lexer.ConsumeK(1)
 				lexer.SPorHT()
 				if _, ParseException = lexer.Match('='); ParseException != nil {
 					return nil, ParseException
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index b76b140..b7b7620 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -77,9 +77,10 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match('q'); ParseException != nil {
-				return nil, ParseException
+			if ch, _ = lexer.LookAheadK(0); ch != 'q' && ch != 'Q' {
+				return nil, this.CreateParseException("unexpected parameter")
 			}
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index c5dfbc0..239bc1c 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strings"
 )
 
 /** SIPParser for RetryAfter header.
@@ -73,7 +74,7 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
-		if value == "duration" {
+		if strings.EqualFold(value, header.ParameterNames_DURATION) {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From bb5b3f599b7749b96ee080de37ac944560c77e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 088/101] fix: requests and responses lacked the errors of
 their interfaces, status codes out of range were accepted

---
 sip/message/SIPRequest.go  |  8 +++++---
 sip/message/SIPResponse.go | 11 +++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index ea0cf32..3295ec7 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -216,9 +216,10 @@ func (this *SIPRequest) SetRequestURI(uri address.URI) {
 // *@param method is the method to Set.
 // *@throws IllegalArgumentException if the method is nil
 // */
-func (this *SIPRequest) SetMethod(method string) {
-	//if method == nil
-	//  throw new IllegalArgumentException("nil method");
+func (this *SIPRequest) SetMethod(method string) (ParseException error) {
+	if method == "" {
+		return errors.New("IllegalArgumentException: nil method")
+	}
 	if this.requestLine == nil {
 		this.requestLine = header.NewRequestLine()
 	}
@@ -228,6 +229,7 @@ func (this *SIPRequest) SetMethod(method string) {
 		this.cSeqHeader.SetMethod(method)
 		//}catch(ParseException e){}
 	}
+	return nil
 }
 
 // /** Get the method from the request line.
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 822a0e6..25d158a 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -199,13 +199,15 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 //     *@param statusCode is the status code to Set.
 //     *@throws IlegalArgumentException if invalid status code.
 //     */
-func (this *SIPResponse) SetStatusCode(statusCode int) { //throws ParseException {
-	// if (statusCode < 100 || statusCode > 800)
-	//     throw new ParseException("bad status code",0);
+func (this *SIPResponse) SetStatusCode(statusCode int) (ParseException error) {
+	if statusCode < 100 || statusCode > 800 {
+		return errors.New("ParseException: bad status code")
+	}
 	if this.statusLine == nil {
 		this.statusLine = header.NewStatusLine()
 	}
 	this.statusLine.SetStatusCode(statusCode)
+	return nil
 }
 
 //    /**
@@ -230,13 +232,14 @@ func (this *SIPResponse) GetStatusCode() int {
 //     *@param reasonPhrase the reason phrase.
 //     *@throws IllegalArgumentException if nil string
 //     */
-func (this *SIPResponse) SetReasonPhrase(reasonPhrase string) {
+func (this *SIPResponse) SetReasonPhrase(reasonPhrase string) (ParseException error) {
 	//if this.reasonPhrase == nil)
 	//    throw new IllegalArgumentException("Bad reason phrase");
 	if this.statusLine == nil {
 		this.statusLine = header.NewStatusLine()
 	}
 	this.statusLine.SetReasonPhrase(reasonPhrase)
+	return nil
 }
 
 //    /** Get the reason phrase.
-- 
2.43.0


From 893f19c758f20e3ca0f40db9caa25fe4b39839cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 089/101] fix: no URI could be given to a request of a
 response, defaults of a URI were never set

---
 sip/message/SIPRequest.go  | 2 +-
 sip/message/SIPResponse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 3295ec7..848592f 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -159,7 +159,7 @@ func (this *SIPRequest) SetDefaults() {
 		return
 	}
 	if method == REGISTER || method == INVITE {
-		if sipUri, ok := u.(address.SipURI); ok {
+		if sipUri, ok := u.(*address.SipURIImpl); ok {
 			//SipURIImpl sipUri = (SipURIImpl)  u;
 			sipUri.SetUserParam(DEFAULT_USER)
 			// try {
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 25d158a..c9b1699 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -577,7 +577,7 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 //     * request.
 //     */
 
-func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Via, cseq *header.CSeq) *SIPRequest {
+func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via, cseq *header.CSeq) *SIPRequest {
 	newRequest := NewSIPRequest()
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
-- 
2.43.0


From 392f9101810b72a2075d1b78c258793db22aa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 090/101] fix: responses and requests derived from a message
 shared its headers

---
 sip/message/SIPRequest.go  | 3 ++-
 sip/message/SIPResponse.go | 6 +-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 848592f..34ec161 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -524,7 +524,7 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 	}
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		if _, ok := nextHeader.(*header.From); ok {
 			newResponse.AttachHeader2(nextHeader, false)
 		}
@@ -823,6 +823,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				// by the caller.
 				continue
 			}
+			nextHeader = nextHeader.Clone().(header.Header)
 		}
 		//try {
 		newRequest.AttachHeader2(nextHeader, false)
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index c9b1699..73a7e3b 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -613,11 +613,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via,
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-		if to, ok := nextHeader.(*header.To); ok {
-			nextHeader = to.Clone().(*header.To)
-		} else if from, ok := nextHeader.(*header.From); ok {
-			nextHeader = from.Clone().(*header.From)
-		}
+		nextHeader = nextHeader.Clone().(header.Header)
 		// try {
 		newRequest.AttachHeader2(nextHeader, false)
 		// } catch(SIPDuplicateHeaderException e){
-- 
2.43.0


From 159ba7a10a66bd6e78a54e0931bca6baaaa98ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 091/101] fix: misspelt reason phrases

---
 sip/message/SIPResponse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 73a7e3b..0a58e44 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -116,7 +116,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Bad extension"
 
 	case EXTENSION_REQUIRED:
-		retval = "Etension Required"
+		retval = "Extension Required"
 
 	case INTERVAL_TOO_BRIEF:
 		retval = "Interval too brief"
@@ -143,7 +143,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Request Terminated"
 
 	case NOT_ACCEPTABLE_HERE:
-		retval = "Not Accpetable here"
+		retval = "Not Acceptable here"
 
 	case BAD_EVENT:
 		retval = "Bad Event"
-- 
2.43.0


From 3182672b86511d00248bcde98779f5eebf4dadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 092/101] fix: extension header names do not keep blanks before
 the colon

---
 sip/parser/HeaderParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index 73e7876..949c85e 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -63,7 +63,7 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	body := strings.TrimSpace(lexer.GetLine())
 
 	// we dont set any fields because the header is ok
-	retval := header.NewExtension(name)
+	retval := header.NewExtension(strings.TrimSpace(name))
 	retval.SetValue(body)
 	return retval, nil
 }
-- 
2.43.0


From 31ca2234f206eacd24ae45df68f8d5fcecc8c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 093/101] fix: a header given to ParseSIPHeader may have CRLF
 line ends

---
 sip/parser/StringMsgParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 8ebd564..3ed049c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -461,6 +461,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
 func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
+	h = strings.Replace(h, "\r", "", -1)
 	h += "\n\n"
 	// Handle line folding.
 	var nmessage string
-- 
2.43.0


From c22cbe00cf1bbe3dd6de79b68e3fe601dab9e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 094/101] fix: sips: URIs are read as SIP URIs

---
 sip/parser/SIPLexer.go  |  1 +
 sip/parser/SIPParser.go |  1 +
 sip/parser/URLParser.go | 15 ++++++++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1487caa..25df32d 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -141,6 +141,7 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 		} else if lexerName == "sip_urlLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_TEL), TokenTypes_TEL)
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
+			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIPS), TokenTypes_SIPS)
 		}
 	} /*else{
 		println("this.CurrentLexer() != nil");
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index ac2850a..2d303ff 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -76,6 +76,7 @@ const TokenTypes_EVENT = TokenTypes_START + 63
 const TokenTypes_AUTHENTICATION_INFO = TokenTypes_START + 64
 const TokenTypes_ALLOW_EVENTS = TokenTypes_START + 65
 const TokenTypes_REFER_TO = TokenTypes_START + 66
+const TokenTypes_SIPS = TokenTypes_START + 67
 const TokenTypes_ALPHA = core.CORELEXER_ALPHA
 const TokenTypes_DIGIT = core.CORELEXER_DIGIT
 const TokenTypes_ID = core.CORELEXER_ID
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 1d32c26..ba052fe 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -240,7 +240,7 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	t1 := vect[0]
 	t2 := vect[1]
 
-	if t1.GetTokenType() == TokenTypes_SIP {
+	if t1.GetTokenType() == TokenTypes_SIP || t1.GetTokenType() == TokenTypes_SIPS {
 		if t2.GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
@@ -436,9 +436,18 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
+	scheme, err := this.GetLexer().PeekNextTokenK(1)
+	if err != nil {
+		return nil, err
+	}
+	if scheme[0].GetTokenType() == TokenTypes_SIPS {
+		this.GetLexer().Match(TokenTypes_SIPS)
+		retval.SetScheme(core.SIPTransportNames_SIPS)
+	} else {
+		this.GetLexer().Match(TokenTypes_SIP)
+		retval.SetScheme(core.SIPTransportNames_SIP)
+	}
 	this.GetLexer().Match(':')
-	retval.SetScheme(core.SIPTransportNames_SIP)
 
 	// [ user [ ":" password ] "@" ] hostPort
 	start := this.GetLexer().MarkInputPosition()
-- 
2.43.0


From a85a75eb7b52138204795e57d5f86f329f7177b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 095/101] fix: IPv4 addresses in 16-byte form are IPv4

---
 rtp/ipaddress.go        | 2 +-
 rtp/transmissioninfo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..d0c0b42 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -43,7 +43,7 @@ func (this *IPAddress) GetPort() uint16 {
 
 /////////////////////////////////
 func (this *IPAddress) GetAddressType() AddressType {
-	if len(this.ip) == 4 {
+	if this.ip.To4() != nil {
 		return IPv4AddressType
 	} else {
 		return IPv6AddressType
diff --git a/rtp/transmissioninfo.go b/rtp/transmissioninfo.go
index c515ab0..82f0a4b 100644
--- a/rtp/transmissioninfo.go
+++ b/rtp/transmissioninfo.go
@@ -28,7 +28,7 @@ type TransmissionInfo struct {
 
 func NewTransmissionInfo(iplist []net.IP, rtpsock, rtcpsock int) *TransmissionInfo {
 	this := &TransmissionInfo{}
-	if len(iplist[0]) == 4 {
+	if iplist[0].To4() != nil {
 		this.protocol = IPv4UDPProto
 	} else {
 		this.protocol = IPv6UDPProto
-- 
2.43.0


From 52e96d5739ed93b930eb1d6ea3ff5f488337b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 096/101] fix: generic parameters of Retry-After may be flags
 or quoted

---
 sip/parser/RetryAfterParser.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 239bc1c..50b4a61 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -88,16 +88,24 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 		} else {
+			secondValue := ""
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
+			if ch, _ = lexer.LookAheadK(0); ch == '=' {
+				lexer.ConsumeK(1)
+				lexer.SPorHT()
+				if ch, _ = lexer.LookAheadK(0); ch == '"' {
+					if secondValue, ParseException = lexer.QuotedString(); ParseException != nil {
+						return nil, ParseException
+					}
+					secondValue = "\"" + secondValue + "\""
+				} else {
+					if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+						return nil, ParseException
+					}
+					secondToken := lexer.GetNextToken()
+					secondValue = secondToken.GetTokenValue()
+				}
 			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
 			if ParseException = retryAfter.SetParameter(value, secondValue); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 017137df9f005acf9207f867a7a6344acdcf1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 097/101] fix: generic parameters of Subscription-State may be
 flags or quoted

---
 sip/parser/SubscriptionStateParser.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 999b8ad..f389fa5 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -116,15 +116,24 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 				return nil, ParseException
 			}
 		} else {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
+			secondValue := ""
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
+			if ch, _ = lexer.LookAheadK(0); ch == '=' {
+				lexer.ConsumeK(1)
+				lexer.SPorHT()
+				if ch, _ = lexer.LookAheadK(0); ch == '"' {
+					if secondValue, ParseException = lexer.QuotedString(); ParseException != nil {
+						return nil, ParseException
+					}
+					secondValue = "\"" + secondValue + "\""
+				} else {
+					if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+						return nil, ParseException
+					}
+					secondToken := lexer.GetNextToken()
+					secondValue = secondToken.GetTokenValue()
+				}
 			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
 			if ParseException = subscriptionState.SetParameter(value, secondValue); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From e703b83547333154a20d1f1bfe8dce9cd7cb69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 098/101] fix: Retry-After and Subscription-State accept the
 parameters with empty value that they encode

---
 sip/parser/RetryAfterParser.go        | 2 +-
 sip/parser/SubscriptionStateParser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 50b4a61..b20e372 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -98,7 +98,7 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 						return nil, ParseException
 					}
 					secondValue = "\"" + secondValue + "\""
-				} else {
+				} else if lexer.StartsId() {
 					if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 						return nil, ParseException
 					}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index f389fa5..e7bbd0a 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -126,7 +126,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 						return nil, ParseException
 					}
 					secondValue = "\"" + secondValue + "\""
-				} else {
+				} else if lexer.StartsId() {
 					if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 						return nil, ParseException
 					}
-- 
2.43.0


From 5eb3a975a5fbe07e06a9d578e455055168e3a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 099/101] fix: a comment may contain comments

---
 core/CoreLexer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 1d8a2c0..589e55f 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -393,12 +393,20 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 		return "", err
 	}
 	coreLexer.ConsumeK(1)
-	for {
+	for nested := 0; ; {
 		if next, err = coreLexer.GetNextChar(); err != nil {
 			break
 		}
-		if next == ')' {
+		if next == ')' && nested == 0 {
 			break
+		}
+		if next == '(' {
+			nested++
+		} else if next == ')' {
+			nested--
+		}
+		if next == '(' || next == ')' {
+			retval.WriteByte(next)
 			// } else if next == 0 { //'\0' {
 			// 	return "", errors.New("ParseException: unexpected EOL")
 		} else if next == '\\' {
-- 
2.43.0


From 2c737fec960b9d0c9985275562d570c54292ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 100/101] fix: blanks may stand before the = of any parameter

---
 sip/parser/RetryAfterParser.go        | 1 +
 sip/parser/SubscriptionStateParser.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index b20e372..6494f1e 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -75,6 +75,7 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.EqualFold(value, header.ParameterNames_DURATION) {
+			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
 			}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index e7bbd0a..abce16d 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -67,6 +67,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
+			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
 			}
@@ -80,6 +81,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 				return nil, ParseException
 			}
 		} else if strings.ToLower(value) == "expires" {
+			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
 			}
@@ -98,6 +100,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 				return nil, ParseException
 			}
 		} else if strings.ToLower(value) == "retry-after" {
+			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 933e1b8d1d1fb47d838dd46c366015e63f3e135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 101/101] fix: a huge Content-Length must be refused

---
 sip/parser/StringMsgParser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 3ed049c..4dbbc4b 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -229,9 +229,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
-- 
2.43.0

