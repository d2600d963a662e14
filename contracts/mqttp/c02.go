package mqttp

// C02: framing. One harness per packet type, all with arbitrary bytes.

func hFrame(v byte, buf []byte, t byte, lo, hi int) {
	vAssume(len(buf) > 0)
	vAssume(buf[0]>>4 == t)
	hUvarint()
	vUse("NewTopic")
	vUse("property__decode")
	vCut(0, "")
	w, rl := hRemLen(buf)
	vAssume(w >= lo && w <= hi)
	first := buf[0]
	n := len(buf)
	m, total, err := Decode(ProtocolVersion(v), buf)
	if err == nil {
		vReach("ok")
		vAssert("C02.total", m != nil && total == n && w >= 1 && n == 1+w+rl)
		return
	}
	vAssert("C02.nomsg", m == nil)
	legal := t >= 1 && (t <= 14 || v >= 5)
	if t == 3 {
		legal = first&6 != 6
	} else {
		legal = legal && first&15 == hTypeFlags(t)
	}
	if legal && w >= 1 && n < 1+w+rl {
		vReach("short")
		vAssert("C02.short", err == ErrInsufficientDataSize && total == 1+w+rl)
	}
}

func VerifyC02_Empty(v byte) {
	m, total, err := Decode(ProtocolVersion(v), nil)
	vReach("refused")
	vAssert("C02.empty", m == nil && total == 0 && err != nil)
}

func VerifyC02_Reserved(v byte, buf []byte) {
	vAssume(len(buf) > 0)
	vAssume(buf[0]>>4 == 0)
	m, _, err := Decode(ProtocolVersion(v), buf)
	vReach("refused")
	vAssert("C02.reserved", m == nil && err != nil)
}

func VerifyC02_Connect1(v byte, buf []byte)    { hFrame(v, buf, 1, -9, 1) }
func VerifyC02_Connect2(v byte, buf []byte)    { hFrame(v, buf, 1, 2, 2) }
func VerifyC02_Connect3(v byte, buf []byte)    { hFrame(v, buf, 1, 3, 3) }
func VerifyC02_Connect4(v byte, buf []byte)    { hFrame(v, buf, 1, 4, 4) }
func VerifyC02_ConnAck(v byte, buf []byte)     { hFrame(v, buf, 2, -9, 4) }
func VerifyC02_Publish(v byte, buf []byte)     { hFrame(v, buf, 3, -9, 4) }
func VerifyC02_PubAck(v byte, buf []byte)      { hFrame(v, buf, 4, -9, 4) }
func VerifyC02_PubRec(v byte, buf []byte)      { hFrame(v, buf, 5, -9, 4) }
func VerifyC02_PubRel(v byte, buf []byte)      { hFrame(v, buf, 6, -9, 4) }
func VerifyC02_PubComp(v byte, buf []byte)     { hFrame(v, buf, 7, -9, 4) }
func VerifyC02_Subscribe(v byte, buf []byte)   { hFrame(v, buf, 8, -9, 4) }
func VerifyC02_SubAck(v byte, buf []byte)      { hFrame(v, buf, 9, -9, 4) }
func VerifyC02_UnSubscribe(v byte, buf []byte) { hFrame(v, buf, 10, -9, 4) }
func VerifyC02_UnSubAck(v byte, buf []byte)    { hFrame(v, buf, 11, -9, 4) }
func VerifyC02_PingReq(v byte, buf []byte)     { hFrame(v, buf, 12, -9, 4) }
func VerifyC02_PingResp(v byte, buf []byte)    { hFrame(v, buf, 13, -9, 4) }
func VerifyC02_Disconnect(v byte, buf []byte)  { hFrame(v, buf, 14, -9, 4) }
func VerifyC02_Auth(v byte, buf []byte)        { hFrame(v, buf, 15, -9, 4) }
