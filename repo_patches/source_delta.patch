From 2d7a04919b1380a7998c8f77b7fbe7fb5f7e99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 01/20] fix: write the length byte of an empty property section

---
 mqttp/property.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..08691be 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -438,10 +438,6 @@ func (p *property) encode(to []byte) (int, error) {
 		return 0, ErrInsufficientBufferSize
 	}
 
-	if pLen == 1 {
-		return 1, nil
-	}
-
 	var offset int
 	var err error
 	// Encode variable length header
-- 
2.43.0


From 72d2459d20589e6f778d36c3c5b6e8628b1c5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 02/20] fix: AUTH properties overwrote the encoded reason code

---
 mqttp/auth.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..ed5886f 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 88cc4aa18b53d4319fe69053fb8ca79debf071c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 03/20] fix: AUTH SetReasonCode must check the new code

---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index ed5886f..7bd73b8 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From a6185a7fd97f92a62c7d827f15abc71b511f00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 04/20] fix: UNSUBSCRIBE decode dropped topics when many are
 given

---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..bf60239 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From fe74ae419c24f0615c6e2e7f016691480e8efb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 05/20] fix: encode the property section of a version 5
 UNSUBSCRIBE

---
 mqttp/unsubscribe.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index bf60239..53cea6c 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,14 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	if msg.version >= ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +150,10 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	if msg.version >= ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From cf45c00150bc184f5da70f29c9a1314f9e46c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 06/20] fix: SUBACK decode refused legal version 5 reason codes

---
 mqttp/suback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From e9895b63eb7c1bc14042dc058de4104347691a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 07/20] fix: UNSUBACK AddReturnCodes refused legal version 5
 reason codes

---
 mqttp/unsuback.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..75448a6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-- 
2.43.0


From 738148c1991163b41d3443866708678cc02498bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 08/20] fix: UNSUBACK decode must consume and validate its
 reason codes

---
 mqttp/unsuback.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 75448a6..1c14800 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -81,8 +81,14 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			return offset, err
 		}
 
-		for _, c := range from[offset:msg.remLen] {
-			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+		for _, b := range from[offset:msg.remLen] {
+			c := ReasonCode(b)
+			if !c.IsValidForType(msg.mType) {
+				return offset, CodeProtocolError
+			}
+
+			msg.returnCodes = append(msg.returnCodes, c)
+			offset++
 		}
 	}
 
-- 
2.43.0


From 774bf7e0f7dd4b45705404b2c595f2deedc15cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 09/20] fix: refuse packets that end inside the packet
 identifier

---
 mqttp/header.go      | 8 ++++++--
 mqttp/puback.go      | 5 ++++-
 mqttp/publish.go     | 6 +++++-
 mqttp/suback.go      | 5 ++++-
 mqttp/subscribe.go   | 5 ++++-
 mqttp/unsuback.go    | 5 ++++-
 mqttp/unsubscribe.go | 5 ++++-
 7 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..f05866d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,16 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	if len(src) < 2 {
+		return 0, CodeMalformedPacket
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..612f8cc 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 1c14800..2207f9e 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 53cea6c..27816e7 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From c5abe4f3c11c5bbe86d0eef074a7c7dc57107467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 10/20] fix: PropertySet is all or nothing and keeps the cached
 length right

---
 mqttp/property.go | 68 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 08691be..2f7eeea 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -178,6 +178,9 @@ const (
 	PropertyTypeBinary
 )
 
+// maxVarInt greatest value of the variable byte integer
+const maxVarInt = uint32(maxRemainingLength)
+
 // propertyAllowedMessageTypes properties and their supported packets type.
 // bool flag indicates either duplicate allowed or not
 var propertyAllowedMessageTypes = map[PropertyID]map[Type]bool{
@@ -348,12 +351,49 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return ErrPropertyPacketTypeMismatch
 	}
 
-	fn := propertyCalcLen[propertyTypeMap[id]]
+	pt := propertyTypeMap[id]
+
+	if isPropertyList(pt, val) && !id.DupAllowed(t) {
+		return ErrPropertyDuplicate
+	}
+
+	fn := propertyCalcLen[pt]
+
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
+	// value being replaced does not occupy space anymore
+	if old, ok := p.properties[id]; ok {
+		var oldLen int
+		if oldLen, err = fn(id, old); err != nil {
+			return err
+		}
+
+		p.len -= oldLen
+	}
+
+	if p.properties == nil {
+		p.properties = make(map[PropertyID]interface{})
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
+}
+
+// isPropertyList check either val holds list of values of the given type
+func isPropertyList(t PropertyType, val interface{}) bool {
+	switch val.(type) {
+	case []uint8:
+		return t == PropertyTypeByte
+	case []uint16, []uint32, []string, [][]byte, []StringPair:
+		return true
+	}
+
+	return false
 }
 
 // Get property value
@@ -470,7 +510,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -491,7 +531,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -512,7 +552,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -527,13 +567,21 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > maxVarInt {
+			return 0, ErrPropertyTypeMismatch
+		}
+
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > maxVarInt {
+				return 0, ErrPropertyTypeMismatch
+			}
+
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -554,7 +602,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -570,12 +618,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -596,7 +644,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From 7764030a55539d89621c06acdc303266cad44169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 11/20] fix: property section decode stays inside the section
 and keeps repeated values

---
 mqttp/property.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 2f7eeea..a49b3d2 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,14 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	if v, ok := t.v.([]uint32); ok {
+		return v, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -431,11 +440,27 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 		return offset, CodeMalformedPacket
 	}
 
+	// [MQTT-1.5.5-1]
+	if lCount != uvarintCalc(pLen) {
+		return offset, CodeMalformedPacket
+	}
+
 	offset += lCount
 
+	// properties must not run out of the section
+	if len(from[offset:]) < int(pLen) {
+		return offset, CodeMalformedPacket
+	}
+
+	from = from[:offset+int(pLen)]
+
+	if p.properties == nil {
+		p.properties = make(map[PropertyID]interface{})
+	}
+
 	var err error
 
-	for pLen != 0 {
+	for offset < len(from) {
 		slice := from[offset:]
 
 		idVal, count := uvarint(slice)
@@ -443,6 +468,11 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 			return offset - count, CodeMalformedPacket
 		}
 
+		// [MQTT-1.5.5-1]
+		if count != uvarintCalc(idVal) {
+			return offset, CodeMalformedPacket
+		}
+
 		id := PropertyID(idVal)
 
 		if !id.IsValidPacketType(t) {
@@ -466,7 +496,6 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 		}
 
 		p.len += count
-		pLen -= uint32(count)
 	}
 
 	return offset, nil
@@ -694,12 +723,21 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
 	v, cnt := uvarint(from[offset:])
-	if cnt <= 0 {
+	// [MQTT-1.5.5-1]
+	if cnt <= 0 || cnt != uvarintCalc(v) {
 		return offset, CodeMalformedPacket
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	// keep every value if property repeats
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 795e1bd9207c07492fc80b022d48d1ad221b9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 12/20] fix: CONNECT SetCredentials checks the new credentials
 and drops the old ones

---
 mqttp/connect.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..05c91b3 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,21 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	if !utf8.Valid(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From f6a337e7edcb9455e4a70f9b5bfc177590f61d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 13/20] fix: PacketTypeDir reported an error for valid codes
 only, issuers were all equal

---
 mqttp/reasonCodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..cd54259 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -249,10 +249,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From e92ec4f1f6e2d014b89e2385cff8efcf9b141043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 14/20] fix: CONNACK and PUBACK refused reason codes MQTT
 assigns to them

---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index cd54259..4b1440a 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From 4199f78768de3d4a5c9fe8b52cf2bc1b6f8d01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 15/20] fix: IsValidV5 accepted codes MQTT does not define

---
 mqttp/reasonCodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 4b1440a..ecfccb8 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -279,7 +279,7 @@ func (c ReasonCode) IsValidV3() bool {
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
 	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
-		return true
+		return c.IsValid()
 	}
 	return false
 }
-- 
2.43.0


From 38342a33ebd4890b40e471c9447713b89001417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 16/20] fix: header Size accepted lengths that wrap int32

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index f05866d..938d70a 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,11 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	// check length before conversion as it might not fit into int32
+	if ml > int(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 4f377f49fd0a5aeb3d5cdc968d7f3927b3bc97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 17/20] fix: variable byte integers longer than four bytes were
 accepted

---
 mqttp/header.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 938d70a..49d2cf9 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -285,7 +285,11 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m < 0 {
+		return offset, CodeMalformedPacket
+	}
+
+	if m == 0 {
 		return offset, ErrInsufficientDataSize
 	}
 
@@ -319,12 +323,12 @@ func (h *header) decode(from []byte) (int, error) {
 	return offset, err
 }
 
-// uvarint decodes a uint32 from buf and returns that value and the
+// uvarint decodes variable byte integer from buf and returns its value and the
 // number of bytes read (> 0). If an error occurred, the value is 0
 // and the number of bytes n is <= 0 meaning:
 //
 //	n == 0: buf too small
-//	n  < 0: value larger than 32 bits (overflow)
+//	n  < 0: value occupies more than 4 bytes (overflow) [MQTT-1.5.5]
 //              and -n is the number of bytes read
 //
 // copied from binary.Uvariant
@@ -332,10 +336,10 @@ func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
+		if i > 3 {
+			return 0, -(i + 1) // overflow
+		}
 		if b < 0x80 {
-			if i > 4 || i == 4 && b > 1 {
-				return 0, -(i + 1) // overflow
-			}
 			return x | uint32(b)<<s, i + 1
 		}
 		x |= uint32(b&0x7f) << s
-- 
2.43.0


From a51f28f81caf86bea75a5050e29e62ddc65b18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 18/20] fix: SUBSCRIBE accepted Retain Handling 3

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e6b411e..27f350f 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -115,6 +115,11 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeMalformedPacket
 		}
 
+		// [MQTT-3.8.3.1] Retain Handling value 3 is Protocol Error
+		if msg.version == ProtocolV50 && subsOptions.RetainHandling() > RetainHandlingIfNotExists+1 {
+			return offset, CodeProtocolError
+		}
+
 		var topic *Topic
 		if topic, err = NewSubscribeTopic(t, subsOptions); err != nil {
 			return offset, CodeProtocolError
-- 
2.43.0


From ba574c880709a6b93140285807acce467f19b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 19/20] fix: Expired wrapped remaining time longer than 2^32
 seconds

---
 mqttp/publish.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..6deeeb6 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,7 +57,12 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
+			left := msg.expireAt.Sub(now) / time.Second
+			if left > math.MaxUint32 {
+				left = math.MaxUint32
+			}
+
+			if df = uint32(left); df > 0 {
 				expired = false
 			}
 		}
-- 
2.43.0


From 3ed178a2c33f17b5ffe8a7302067eaa1807749b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 20/20] fix: Max.AddU64 could lower the recorded maximum

---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..6336210 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0

