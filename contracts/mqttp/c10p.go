package mqttp

// C10: the packets that carry a property section obey its decoder.

func hPacketSection(t, flags byte, id uint16, c byte, topic []byte, ka uint16, rest []byte) {
	if t != 3 {
		vAssume(flags&15 == hTypeFlags(t))
	}
	vAssume(len(rest) > 0 && len(topic) < 1<<16)
	hUvarint()
	vUse("NewTopic")
	vUse("property__decode")
	vCut(0, "")
	var body []byte
	switch t {
	case 1:
		body = []byte{0, 4, 'M', 'Q', 'T', 'T', 5, c, byte(ka >> 8), byte(ka)}
	case 2:
		body = []byte{byte(id), c}
	case 3:
		body = append([]byte{byte(len(topic) >> 8), byte(len(topic))}, topic...)
		if flags&6 != 0 {
			body = append(body, byte(id>>8), byte(id))
		}
	case 4, 5, 6, 7:
		body = []byte{byte(id >> 8), byte(id), c}
	case 8, 9, 10, 11:
		body = []byte{byte(id >> 8), byte(id)}
	default:
		body = []byte{c}
	}
	vAssume(len(body)+len(rest) <= 268435455)
	rl := len(body) + len(rest)
	buf := append([]byte{t<<4 | flags&15}, vUvBytes(uint64(rl))...)
	buf = append(append(buf, body...), rest...)
	hMemo = hMemoT{on: true}
	var p property
	p.reset()
	n, serr := p.decode(Type(t), rest)
	m, _, err := Decode(ProtocolV50, buf)
	if serr != nil {
		vReach("badsection")
		vAssert("C10.packet.rejects", err != nil)
		return
	}
	if err != nil {
		if n == len(rest) && id != 0 {
			switch t {
			case 2:
				vAssert("C10.packet.accepts", id > 1 || !hCodeFor(c, 2) || id == 1 && c != 0)
			case 4, 5, 6, 7, 14, 15:
				vAssert("C10.packet.accepts", !hCodeFor(c, t))
			}
		}
		return
	}
	vReach("accepted")
	vAssert("C10.packet.properties", vMapSameProps(hProps(m), p.properties))
	vAssert("C10.packet.length", m.getHeader().properties.len == p.len)
	switch t {
	case 3:
		vAssert("C10.packet.payload", vBytesEq(m.(*Publish).Payload(), rest[n:]))
	case 9:
		vAssert("C10.packet.codes", vBytesEq(hCodeBytes(m.(*SubAck).ReturnCodes()), rest[n:]))
	case 11:
		vAssert("C10.packet.codes", vBytesEq(hCodeBytes(m.(*UnSubAck).ReturnCodes()), rest[n:]))
	case 2, 4, 5, 6, 7, 14, 15:
		vAssert("C10.packet.end", n == len(rest))
	}
}

func VerifyC10_PacketConnect(c byte, ka uint16, rest []byte) {
	hPacketSection(1, 0, 1, c, nil, ka, rest)
}
func VerifyC10_PacketConnAck(id uint16, c byte, rest []byte) {
	hPacketSection(2, 0, id&3, c, nil, 0, rest)
}
func VerifyC10_PacketPublish(flags byte, id uint16, topic []byte, rest []byte) {
	hPacketSection(3, flags, id, 0, topic, 0, rest)
}
func VerifyC10_PacketAcks(t byte, id uint16, c byte, rest []byte) {
	vAssume(t >= 4 && t <= 7)
	t = byte(vForkInt(int(t), 4, 7))
	hPacketSection(t, hTypeFlags(t), id, c, nil, 0, rest)
}
func VerifyC10_PacketSubscribe(id uint16, rest []byte) { hPacketSection(8, 2, id, 0, nil, 0, rest) }
func VerifyC10_PacketUnSubscribe(id uint16, rest []byte) {
	hPacketSection(10, 2, id, 0, nil, 0, rest)
}
func VerifyC10_PacketSubAck(id uint16, rest []byte)   { hPacketSection(9, 0, id, 0, nil, 0, rest) }
func VerifyC10_PacketUnSubAck(id uint16, rest []byte) { hPacketSection(11, 0, id, 0, nil, 0, rest) }
func VerifyC10_PacketDisconnect(c byte, rest []byte)  { hPacketSection(14, 0, 1, c, nil, 0, rest) }
func VerifyC10_PacketAuth(c byte, rest []byte)        { hPacketSection(15, 0, 1, c, nil, 0, rest) }
