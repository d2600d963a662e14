package mqttp

// C13: packet identifiers.

// hSetID sets the identifier through the concrete type, false if it has none.
func hSetID(m IFace, id IDType) bool {
	switch p := m.(type) {
	case *Publish:
		p.SetPacketID(id)
	case *Ack:
		p.SetPacketID(id)
	case *Subscribe:
		p.SetPacketID(id)
	case *SubAck:
		p.SetPacketID(id)
	case *UnSubscribe:
		p.SetPacketID(id)
	case *UnSubAck:
		p.SetPacketID(id)
	default:
		return false
	}
	return true
}

func VerifyC13_SetGet(v byte, t byte, a uint16, b uint16) {
	t = byte(vForkInt(int(t), 1, 15))
	m, err := New(ProtocolVersion(v), Type(t))
	if err != nil {
		return
	}
	id, err := m.ID()
	vAssert("C13.fresh", id == 0 && err == ErrNotSet)
	if !hSetID(m, IDType(a)) {
		vAssert("C13.types", t == 1 || t == 2 || t >= 12)
		return
	}
	vReach("set")
	id, err = m.ID()
	vAssert("C13.get", id == IDType(a) && err == nil)
	hSetID(m, IDType(b))
	id, err = m.ID()
	vAssert("C13.get2", id == IDType(b) && err == nil)
}

// hNeedsID: a packet that needs an identifier and has none is not encoded.
func hNeedsID(m IFace, buf []byte) {
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	_, err := m.Encode(buf)
	vReach("refused")
	vAssert("C13.required", err == ErrPackedIDZero)
}

func VerifyC13_RequiredPublish(v byte, topic string, payload []byte, qos byte, retain bool, dup bool, buf []byte) {
	hUvarint()
	vAssume((qos == 1 || qos == 2) && len(topic) <= 65535)
	hNeedsID(hPublish(v, topic, payload, qos, retain, dup, 0, false), buf)
}

func VerifyC13_RequiredOthers(v byte, t byte, code byte, codes []byte, n byte, o byte, topic []byte, buf []byte) {
	hUvarint()
	t = byte(vForkInt(int(t), 4, 11))
	switch t {
	case 4, 5, 6, 7:
		hNeedsID(hAck(v, t, 0, false, code), buf)
	case 8:
		hNeedsID(hSubscribe(v, 0, false, n, topic, o, topic, o), buf)
	case 9:
		hNeedsID(hSubAck(v, 0, false, hNearCodes(v, 9, codes)), buf)
	case 10:
		hNeedsID(hUnSubscribe(v, 0, false, n, topic, topic), buf)
	case 11:
		hNeedsID(hUnSubAck(v, 0, false, hNearCodes(v, 11, codes)), buf)
	}
}

// hCarriesID: the identifier is at offset off of the body, big-endian.
func hCarriesID(m IFace, id uint16, off int, buf []byte) {
	hUvarint()
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	n, err := m.Encode(buf)
	if err != nil {
		return
	}
	vReach("encoded")
	p := n - int(m.getHeader().RemainingLength()) + off
	vAssert("C13.carried", p+2 <= n && buf[p] == byte(id>>8) && buf[p+1] == byte(id))
}

func VerifyC13_CarriedPublish(v byte, topic string, payload []byte, qos byte, retain bool, dup bool, id uint16, buf []byte) {
	vAssume(qos == 1 || qos == 2)
	hCarriesID(hPublish(v, topic, payload, qos, retain, dup, id, true), id, 2+len(topic), buf)
}

func VerifyC13_CarriedAcks(v byte, t byte, id uint16, code byte, codes []byte, buf []byte) {
	t = byte(vForkInt(int(t), 4, 11))
	switch t {
	case 4, 5, 6, 7:
		hCarriesID(hAck(v, t, id, true, code), id, 0, buf)
	case 9:
		hCarriesID(hSubAck(v, id, true, hNearCodes(v, 9, codes)), id, 0, buf)
	case 11:
		hCarriesID(hUnSubAck(v, id, true, hNearCodes(v, 11, codes)), id, 0, buf)
	}
}

func VerifyC13_CarriedSub(v byte, un bool, id uint16, o byte, n byte, topic []byte, topic2 []byte, buf []byte) {
	if un {
		hCarriesID(hUnSubscribe(v, id, true, n, topic, topic2), id, 0, buf)
	} else {
		hCarriesID(hSubscribe(v, id, true, n, topic, o, topic2, o), id, 0, buf)
	}
}

// A QoS 0 PUBLISH has no identifier on the wire, even if one was set.
func VerifyC13_QoS0None(v byte, topic string, payload []byte, retain bool, id uint16, hasID bool, buf []byte) {
	hUvarint()
	m := hPublish(v, topic, payload, 0, retain, false, id, hasID)
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	n, err := m.Encode(buf)
	if err != nil {
		return
	}
	vReach("encoded")
	body := 2 + len(topic) + len(payload)
	if v == 5 {
		body += m.properties.FullLen()
	}
	vAssert("C13.qos0.len", int(m.RemainingLength()) == body)
	p := n - body
	vAssert("C13.qos0.topic", string(buf[p+2:p+2+len(topic)]) == topic)
	vAssert("C13.qos0.payload", vBytesEq(buf[n-len(payload):n], payload))
	got, _, err := Decode(ProtocolVersion(v), buf[:n])
	if err == nil {
		_, ierr := got.ID()
		vAssert("C13.qos0.decoded", ierr == ErrNotSet)
	}
}

// Decode never accepts fewer than two identifier bytes, and reports the wire's.
func VerifyC13_DecodeShort(v byte, buf []byte) {
	vUse("property__decode")
	vUse("NewTopic")
	vAssume(len(buf) >= 2)
	t := buf[0] >> 4
	vAssume(t >= 4 && t <= 11)
	vForkInt(int(t), 4, 11)
	w, rl := hRemLen(buf)
	vAssume(w >= 1 && rl < 2)
	m, _, err := Decode(ProtocolVersion(v), buf)
	vReach("short")
	vAssert("C13.decode.short", err != nil && m == nil)
}

func VerifyC13_DecodePublish(v byte, first byte, topic []byte, rest []byte, buf []byte) {
	vUse("property__decode")
	hUvarint()
	vAssume(first>>4 == 3 && first&6 != 0 && len(topic) <= 65535)
	rl := 2 + len(topic) + len(rest)
	vAssume(rl <= 268435455)
	w := vUvLen(uint64(rl))
	buf = hExact(buf, 1+w+rl)
	vAssume(len(buf) == 1+w+rl)
	buf[0] = first
	copy(buf[1:], vUvBytes(uint64(rl)))
	WriteLPBytes(buf[1+w:], topic)
	copy(buf[3+w+len(topic):], rest)
	m, _, err := Decode(ProtocolVersion(v), buf)
	if len(rest) < 2 {
		vReach("short")
		vAssert("C13.decode.publish.short", err != nil && m == nil)
		return
	}
	if err == nil {
		vReach("decoded")
		id, ierr := m.ID()
		vAssert("C13.decode.publish.id", ierr == nil && id == IDType(rest[0])<<8|IDType(rest[1]))
	}
}

func VerifyC13_DecodeID(v byte, first byte, body []byte, buf []byte) {
	vCut(1, "")
	vUse("property__decode")
	vUse("NewTopic")
	hUvarint()
	t := byte(vForkInt(int(first>>4), 4, 11))
	vAssume(t >= 4 && t <= 11 && first>>4 == t)
	rl := len(body)
	vAssume(rl <= 268435455)
	w := vUvLen(uint64(rl))
	buf = hExact(buf, 1+w+rl)
	vAssume(len(buf) == 1+w+rl)
	buf[0] = first
	copy(buf[1:], vUvBytes(uint64(rl)))
	copy(buf[1+w:], body)
	m, _, err := Decode(ProtocolVersion(v), buf)
	if err == nil {
		vReach("decoded")
		vAssert("C13.decode.len", rl >= 2)
		id, ierr := m.ID()
		vAssert("C13.decode.id", ierr == nil && id == IDType(body[0])<<8|IDType(body[1]))
	}
}
