package mqttp

// C26: a reason code reported for a rejected version 5 packet can be sent to the peer. One harness per packet type.

func hReject(buf []byte, t byte, lo, hi int) {
	vAssume(len(buf) > 0)
	vAssume(buf[0]>>4 == t)
	hUvarint()
	vUse("NewTopic")
	vUse("property__decode")
	hPropPanics = true
	vCut(0, "")
	w, _ := hRemLen(buf)
	vAssume(w >= lo && w <= hi)
	if t == 1 { // a CONNECT is answered in the version it announces
		vAssume(len(buf) > 1+w+6 && string(buf[1+w:1+w+7]) == "\x00\x04MQTT\x05")
	}
	_, _, err := Decode(ProtocolV50, buf)
	if rc, ok := err.(ReasonCode); ok {
		vReach("code")
		c := byte(rc)
		vAssert("C26.failure", c >= 0x80)
		vAssert("C26.sendable", hCodeFor(c, 14) || t == 1 && hCodeFor(c, 2))
	}
}

func VerifyC26_Connect1(buf []byte)    { hReject(buf, 1, -9, 1) }
func VerifyC26_Connect2(buf []byte)    { hReject(buf, 1, 2, 2) }
func VerifyC26_Connect3(buf []byte)    { hReject(buf, 1, 3, 3) }
func VerifyC26_Connect4(buf []byte)    { hReject(buf, 1, 4, 4) }
func VerifyC26_ConnAck(buf []byte)     { hReject(buf, 2, -9, 4) }
func VerifyC26_Publish(buf []byte)     { hReject(buf, 3, -9, 4) }
func VerifyC26_PubAck(buf []byte)      { hReject(buf, 4, -9, 4) }
func VerifyC26_PubRec(buf []byte)      { hReject(buf, 5, -9, 4) }
func VerifyC26_PubRel(buf []byte)      { hReject(buf, 6, -9, 4) }
func VerifyC26_PubComp(buf []byte)     { hReject(buf, 7, -9, 4) }
func VerifyC26_Subscribe(buf []byte)   { hReject(buf, 8, -9, 4) }
func VerifyC26_SubAck(buf []byte)      { hReject(buf, 9, -9, 4) }
func VerifyC26_UnSubscribe(buf []byte) { hReject(buf, 10, -9, 4) }
func VerifyC26_UnSubAck(buf []byte)    { hReject(buf, 11, -9, 4) }
func VerifyC26_PingReq(buf []byte)     { hReject(buf, 12, -9, 4) }
func VerifyC26_PingResp(buf []byte)    { hReject(buf, 13, -9, 4) }
func VerifyC26_Disconnect(buf []byte)  { hReject(buf, 14, -9, 4) }
func VerifyC26_Auth(buf []byte)        { hReject(buf, 15, -9, 4) }

func hSendable(err error) bool {
	rc, ok := err.(ReasonCode)
	return !ok || byte(rc) >= 0x80 && hCodeFor(byte(rc), 14)
}

// The property section decoder on arbitrary bytes.
func VerifyC26_Properties(t byte, buf []byte) {
	hUvarint()
	vCut(0, "")
	var p property
	hCatch(func() {
		_, err := p.decode(Type(t), buf)
		vReach("returned")
		vAssert("C26.properties", hSendable(err))
	})
}

// The topic parser on arbitrary bytes.
func VerifyC26_Topic(b []byte) {
	hCatch(func() {
		_, err := NewTopic(b)
		vReach("returned")
		vAssert("C26.topic", hSendable(err))
	})
}
