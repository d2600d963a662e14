package mqttp

// C05: the fixed header.

// hFixedHeader checks the first bytes Encode writes.
func hFixedHeader(m IFace, t, flags byte, buf []byte) {
	hUvarint()
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	n, err := m.Encode(buf)
	if err != nil {
		return
	}
	vReach("encoded")
	vAssert("C05.type", byte(m.Type()) == t && buf[0] == t<<4|flags)
	rl := uint64(m.getHeader().RemainingLength())
	w := vUvLen(rl)
	vAssert("C05.width", rl <= 268435455 && n == 1+w+int(rl))
	vAssert("C05.remlen", vBytesEq(buf[1:1+w], vUvBytes(rl)))
}

func VerifyC05_Publish(v byte, topic string, payload []byte, qos byte, retain bool, dup bool, id uint16, hasID bool, buf []byte) {
	vAssume(qos <= 2)
	f := qos << 1
	if dup {
		f |= 8
	}
	if retain {
		f |= 1
	}
	hFixedHeader(hPublish(v, topic, payload, qos, retain, dup, id, hasID), 3, f, buf)
}

func VerifyC05_Connect(v byte, clean bool, keep uint16, cid []byte, user []byte, pass []byte, buf []byte) {
	m := hConnect(v, clean, keep, cid)
	vAssume(m.SetCredentials(user, pass) == nil)
	hFixedHeader(m, 1, 0, buf)
}

func VerifyC05_ConnAck(v byte, sp bool, code byte, buf []byte) {
	hFixedHeader(hConnAck(v, sp, code), 2, 0, buf)
}

func VerifyC05_Ack(v byte, t byte, id uint16, code byte, buf []byte) {
	vAssume(t >= 4 && t <= 7)
	t = byte(vForkInt(int(t), 4, 7))
	hFixedHeader(hAck(v, t, id, true, code), t, hTypeFlags(t), buf)
}

func VerifyC05_Subscribe(v byte, id uint16, n byte, t1 []byte, o1 byte, t2 []byte, o2 byte, buf []byte) {
	hFixedHeader(hSubscribe(v, id, true, n, t1, o1, t2, o2), 8, 2, buf)
}

func VerifyC05_SubAck(v byte, id uint16, codes []byte, buf []byte) {
	hFixedHeader(hSubAck(v, id, true, hNearCodes(v, 9, codes)), 9, 0, buf)
}

func VerifyC05_UnSubscribe(v byte, id uint16, n byte, t1 []byte, t2 []byte, buf []byte) {
	hFixedHeader(hUnSubscribe(v, id, true, n, t1, t2), 10, 2, buf)
}

func VerifyC05_UnSubAck(v byte, id uint16, codes []byte, buf []byte) {
	hFixedHeader(hUnSubAck(v, id, true, hNearCodes(v, 11, codes)), 11, 0, buf)
}

func VerifyC05_Others(v byte, k byte, code byte, buf []byte) {
	switch k {
	case 0:
		hFixedHeader(NewPingReq(ProtocolVersion(v)), 12, 0, buf)
	case 1:
		hFixedHeader(NewPingResp(ProtocolVersion(v)), 13, 0, buf)
	case 2:
		hFixedHeader(hDisconnect(v, code), 14, 0, buf)
	case 3:
		hFixedHeader(hAuth(v, code), 15, 0, buf)
	}
}

// hBadFirst tells whether MQTT forbids the first byte of a packet.
func hBadFirst(v, first byte) bool {
	t, f := first>>4, first&15
	if t == 0 || t == 15 && v < 5 {
		return true
	}
	if t == 3 {
		return f&6 == 6
	}
	return f != hTypeFlags(t)
}

// Decode refuses every frame with a wrong first byte, whatever follows.
func VerifyC05_DecodeRejects(v byte, buf []byte) {
	vAssume(len(buf) >= 1 && hBadFirst(v, buf[0]))
	m, _, err := Decode(ProtocolVersion(v), buf)
	vReach("rejected")
	vAssert("C05.rejects", err != nil && m == nil)
}

// ... and accepts the right ones: a small legal frame of every type.
func VerifyC05_DecodeAccepts(v byte, first byte) {
	vAssume(v >= 3 && v <= 5 && !hBadFirst(v, first))
	t := byte(vForkInt(int(first>>4), 1, 15))
	vAssume(t >= 1 && first>>4 == t)
	vAssume(t != 3 || first&14 != 8) // DUP with QoS 0 (C12)
	var body []byte
	id := []byte{0, 7}
	props := []byte{}
	if v == 5 {
		props = []byte{0}
	}
	switch t {
	case 1:
		if v == 3 {
			body = append(body, 0, 6, 'M', 'Q', 'I', 's', 'd', 'p')
		} else {
			body = append(body, 0, 4, 'M', 'Q', 'T', 'T')
		}
		body = append(body, v, 2, 0, 10)
		body = append(body, props...)
		body = append(body, 0, 1, 'c')
	case 2:
		body = append(append(body, 0, 0), props...)
	case 3:
		body = append(body, 0, 1, 't')
		if first&6 != 0 {
			body = append(body, id...)
		}
		body = append(append(body, props...), 'x')
	case 4, 5, 6, 7:
		body = append(body, id...)
	case 8:
		body = append(append(append(body, id...), props...), 0, 1, 't', 1)
	case 9:
		body = append(append(append(body, id...), props...), 0)
	case 10:
		body = append(append(append(body, id...), props...), 0, 1, 't')
	case 11:
		body = append(append(body, id...), props...)
		if v == 5 {
			body = append(body, 0)
		}
	}
	frame := append([]byte{first, byte(len(body))}, body...)
	m, n, err := Decode(ProtocolVersion(v), frame)
	vReach("accepted")
	vAssert("C05.accepts", err == nil && n == len(frame))
	vAssert("C05.accepts.type", byte(m.Type()) == t)
	vAssert("C05.accepts.flags", m.getHeader().Flags() == first&15)
}

// Packets without a body: PINGREQ, PINGRESP and, below version 5, DISCONNECT.
func VerifyC05_Bodyless(v byte, t byte, rest []byte) {
	vAssume(t >= 12 && t <= 14 && (t < 14 || v < 5) && len(rest) > 0)
	t = byte(vForkInt(int(t), 12, 14))
	frame := append([]byte{t << 4}, rest...)
	w, l := hRemLen(frame)
	m, _, err := Decode(ProtocolVersion(v), frame)
	vReach("decoded")
	vAssert("C05.bodyless", (err == nil) == (w >= 1 && l == 0 && len(rest) == w))
	vAssert("C05.bodyless.type", err != nil || byte(m.Type()) == t)
}
