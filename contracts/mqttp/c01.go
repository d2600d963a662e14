package mqttp

// C01: Decode is total. One harness per packet type, all with arbitrary bytes.

func hTotal(v byte, buf []byte, t byte, lo, hi int) {
	vAssume(len(buf) > 0)
	vAssume(buf[0]>>4 == t)
	hUvarint()
	vUse("NewTopic")
	vUse("property__decode")
	hPropPanics = true
	vCut(0, "C01.terminates")
	w, _ := hRemLen(buf)
	vAssume(w >= lo && w <= hi)
	old := string(buf)
	m, _, err := Decode(ProtocolVersion(v), buf)
	vAssert("C01.one", (m == nil) == (err != nil))
	vAssert("C01.unmodified", string(buf) == old)
	if err == nil {
		vReach("accepted")
	} else {
		vReach("refused")
	}
}

func VerifyC01_Empty(v byte) {
	m, _, err := Decode(ProtocolVersion(v), nil)
	vReach("refused")
	vAssert("C01.empty", m == nil && err != nil)
}

func VerifyC01_Connect1(v byte, buf []byte)    { hTotal(v, buf, 1, -9, 1) }
func VerifyC01_Connect2(v byte, buf []byte)    { hTotal(v, buf, 1, 2, 2) }
func VerifyC01_Connect3(v byte, buf []byte)    { hTotal(v, buf, 1, 3, 3) }
func VerifyC01_Connect4(v byte, buf []byte)    { hTotal(v, buf, 1, 4, 4) }
func VerifyC01_ConnAck(v byte, buf []byte)     { hTotal(v, buf, 2, -9, 4) }
func VerifyC01_Publish(v byte, buf []byte)     { hTotal(v, buf, 3, -9, 4) }
func VerifyC01_PubAck(v byte, buf []byte)      { hTotal(v, buf, 4, -9, 4) }
func VerifyC01_PubRec(v byte, buf []byte)      { hTotal(v, buf, 5, -9, 4) }
func VerifyC01_PubRel(v byte, buf []byte)      { hTotal(v, buf, 6, -9, 4) }
func VerifyC01_PubComp(v byte, buf []byte)     { hTotal(v, buf, 7, -9, 4) }
func VerifyC01_Subscribe(v byte, buf []byte)   { hTotal(v, buf, 8, -9, 4) }
func VerifyC01_SubAck(v byte, buf []byte)      { hTotal(v, buf, 9, -9, 4) }
func VerifyC01_UnSubscribe(v byte, buf []byte) { hTotal(v, buf, 10, -9, 4) }
func VerifyC01_UnSubAck(v byte, buf []byte)    { hTotal(v, buf, 11, -9, 4) }
func VerifyC01_PingReq(v byte, buf []byte)     { hTotal(v, buf, 12, -9, 4) }
func VerifyC01_PingResp(v byte, buf []byte)    { hTotal(v, buf, 13, -9, 4) }
func VerifyC01_Disconnect(v byte, buf []byte)  { hTotal(v, buf, 14, -9, 4) }
func VerifyC01_Auth(v byte, buf []byte)        { hTotal(v, buf, 15, -9, 4) }

func VerifyC01_Reserved(v byte, buf []byte) {
	vAssume(len(buf) > 0)
	vAssume(buf[0]>>4 == 0)
	old := string(buf)
	m, _, err := Decode(ProtocolVersion(v), buf)
	vReach("refused")
	vAssert("C01.reserved", m == nil && err != nil && string(buf) == old)
}

// The property section decoder on arbitrary bytes: it ends and leaves the buffer alone.
func VerifyC01_Properties(t byte, buf []byte) {
	hUvarint()
	vCut(0, "C01.terminates")
	old := string(buf)
	var p property
	hCatch(func() {
		n, err := p.decode(Type(t), buf)
		vReach("returned")
		vAssert("C01.properties.offset", err != nil || n >= 1 && n <= len(buf))
	})
	vAssert("C01.properties.unmodified", string(buf) == old)
}

// The topic parser on arbitrary bytes.
func VerifyC01_Topic(b []byte) {
	old := string(b)
	hCatch(func() {
		t, err := NewTopic(b)
		vReach("returned")
		vAssert("C01.topic.one", (t == nil) == (err != nil))
	})
	vAssert("C01.topic.unmodified", string(b) == old)
}
