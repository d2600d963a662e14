package mqttp

// hSameAny: the lists correspond at every index.
func hSameAny(a, b []*Topic, g int) {
	vAssert("C04.topics", len(a) == len(b))
	if g < 0 || g >= len(a) {
		return
	}
	vReach("element")
	vAssert("C04.topic.full", a[g].Full() == b[g].Full())
	vAssert("C04.topic.filter", a[g].Filter() == b[g].Filter())
	vAssert("C04.topic.share", a[g].ShareName() == b[g].ShareName())
	vAssert("C04.topic.dollar", a[g].DollarPrefix() == b[g].DollarPrefix())
	vAssert("C04.topic.ops", a[g].Ops() == b[g].Ops())
}

// hFormat: the encoding of m is the given frame.
func hFormat(m IFace, wire, buf []byte, body string) {
	if !vSymbolic() {
		buf = make([]byte, len(wire)+int(vRng.Intn(3)))
	}
	buf = hRoom(buf, len(wire))
	vAssume(len(buf) >= len(wire))
	n, err := m.Encode(buf)
	if err == ErrInvalidLPStringSize {
		vAssume(false) // some property value does not fit its length prefix
	}
	vReach("encoded")
	vAssert("C04.encodes", err == nil && n == len(wire))
	if !vSymbolic() && m.Version() == ProtocolV50 { // properties come in any order
		h, t := len(wire)-len(body)-int(m.getHeader().properties.FullLen()), len(wire)-len(body)
		vAssert("C04.format", vBytesEq(buf[:h], wire[:h]) && vBytesEq(buf[t:n], wire[t:]))
		return
	}
	vAssert("C04.format", vBytesEq(buf[:n], wire))
}

// hParse: decoding the frame of m gives a packet like m.
func hParse(m IFace, wire []byte) IFace {
	got, n, err := Decode(m.Version(), wire)
	vReach("decoded")
	vAssert("C04.decodes", err == nil && n == len(wire))
	vAssert("C04.type", got.Type() == m.Type() && got.Version() == m.Version() && got.getHeader().Flags() == m.getHeader().Flags())
	if m.Version() == ProtocolV50 {
		vAssert("C04.props", vMapSameProps(hProps(got), hProps(m)))
	}
	return got
}

func VerifyC04_SubscribeAnyFormat(v byte, id uint16, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, false, false)
	hUvarint()
	hFormat(m, hWire(m, 0x82, id, vFlatSubs(l)), buf, vFlatSubs(l))
}

func VerifyC04_UnSubscribeAnyFormat(v byte, id uint16, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, true, false)
	vAssume(len(l) >= 1)
	hUvarint()
	hFormat(m, hWire(m, 0xA2, id, vFlatUnsubs(l)), buf, vFlatUnsubs(l))
}

func VerifyC04_SubscribeAnyParse(v byte, id uint16, g int) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, false, true)
	vAssume(len(l) >= 1)
	hUvarint()
	x, ok := hParse(m, hWire(m, 0x82, id, vFlatSubs(l))).(*Subscribe)
	vAssert("C04.subscribe", ok)
	hSameID(m, x)
	hSameAny(l, x.topics, g)
}

func VerifyC04_UnSubscribeAnyParse(v byte, id uint16, g int) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, true, true)
	vAssume(len(l) >= 1)
	hUvarint()
	x, ok := hParse(m, hWire(m, 0xA2, id, vFlatUnsubs(l))).(*UnSubscribe)
	vAssert("C04.unsubscribe", ok)
	hSameID(m, x)
	hSameAny(l, x.topics, g)
}
