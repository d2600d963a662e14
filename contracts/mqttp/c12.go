package mqttp

// C12: PUBLISH flags.

type hFlags struct {
	dup, retain bool
	qos         byte
}

// hFlagsAre: getters and the header nibble agree with the wanted flags.
func hFlagsAre(tag string, m *Publish, f hFlags) {
	vAssert(tag+".dup", m.Dup() == f.dup)
	vAssert(tag+".retain", m.Retain() == f.retain)
	vAssert(tag+".qos", byte(m.QoS()) == f.qos)
	want := f.qos << 1
	if f.dup {
		want |= 8
	}
	if f.retain {
		want |= 1
	}
	vAssert(tag+".nibble", m.Flags() == want)
}

// hArbPublish is a PUBLISH in an arbitrary flag state with arbitrary topic and payload.
func hArbPublish(v byte, f hFlags, topic string, payload []byte) *Publish {
	m := NewPublish(ProtocolVersion(v))
	vAssert("C12.arb.qos", m.SetQoS(QosType(f.qos)) == nil)
	m.SetRetain(f.retain)
	m.SetDup(f.dup)
	vAssume(m.SetTopic(topic) == nil)
	m.SetPayload(payload)
	return m
}

func hBodyIs(tag string, m *Publish, topic string, payload []byte) {
	vAssert(tag+".topic", m.Topic() == topic)
	vAssert(tag+".payload", vBytesEq(m.Payload(), payload))
}

// One step from any flag state: every setter changes its own flag only.
func VerifyC12_SetDup(v byte, dup bool, retain bool, qos byte, topic string, payload []byte, x bool) {
	vAssume(qos <= 2)
	f := hFlags{dup, retain, qos}
	m := hArbPublish(v, f, topic, payload)
	hFlagsAre("C12.dup.before", m, f)
	m.SetDup(x)
	f.dup = x
	vReach("dup")
	hFlagsAre("C12.dup.after", m, f)
	hBodyIs("C12.dup", m, topic, payload)
}

func VerifyC12_SetRetain(v byte, dup bool, retain bool, qos byte, topic string, payload []byte, x bool) {
	vAssume(qos <= 2)
	f := hFlags{dup, retain, qos}
	m := hArbPublish(v, f, topic, payload)
	m.SetRetain(x)
	f.retain = x
	vReach("retain")
	hFlagsAre("C12.retain.after", m, f)
	hBodyIs("C12.retain", m, topic, payload)
}

func VerifyC12_SetQoS(v byte, dup bool, retain bool, qos byte, topic string, payload []byte, x byte) {
	vAssume(qos <= 2)
	f := hFlags{dup, retain, qos}
	m := hArbPublish(v, f, topic, payload)
	err := m.SetQoS(QosType(x))
	if x > 2 {
		vReach("refused")
		vAssert("C12.qos.refused", err == ErrInvalidQoS)
	} else {
		vReach("qos")
		vAssert("C12.qos.accepted", err == nil)
		f.qos = x
	}
	hFlagsAre("C12.qos.after", m, f)
	hBodyIs("C12.qos", m, topic, payload)
}

func VerifyC12_Set(v byte, dup bool, retain bool, qos byte, topic string, payload []byte, t string, p []byte, q byte, r bool, d bool) {
	vAssume(qos <= 2)
	f := hFlags{dup, retain, qos}
	m := hArbPublish(v, f, topic, payload)
	err := m.Set(t, p, QosType(q), r, d)
	ok := ValidTopic([]byte(t)) && q <= 2
	vAssert("C12.set.accepts", (err == nil) == ok)
	if !ok {
		vReach("refused")
		hFlagsAre("C12.set.refused", m, f)
		hBodyIs("C12.set.refused", m, topic, payload)
		return
	}
	vReach("set")
	hFlagsAre("C12.set", m, hFlags{d, r, q})
	hBodyIs("C12.set", m, t, p)
}

// Dup at QoS 0 never leaves through Encode.
func VerifyC12_EncodeDup(v byte, dup bool, retain bool, qos byte, topic string, payload []byte, id uint16, buf []byte) {
	vAssume(qos <= 2 && v >= 3 && v <= 5)
	m := hArbPublish(v, hFlags{dup, retain, qos}, topic, payload)
	m.SetPacketID(IDType(id))
	sz, err := m.Size()
	buf = hRoom(buf, sz)
	vAssume(err == nil && len(buf) >= sz)
	_, err = m.Encode(buf)
	if qos == 0 && dup {
		vReach("violation")
		vAssert("C12.encode.dup", err == ErrDupViolation)
		return
	}
	if len(topic) <= 65535 {
		vReach("ok")
		vAssert("C12.encode.ok", err == nil)
	}
}

// ... nor in through Decode.
func VerifyC12_DecodeDup(v byte, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	vAssume(len(buf) > 0 && buf[0]&0xF0 == 0x30 && buf[0]&0x06 == 0 && buf[0]&8 != 0)
	vUse("property__decode")
	m, _, err := Decode(ProtocolVersion(v), buf)
	vReach("decoded")
	vAssert("C12.decode.dup", err != nil && m == nil)
}

// A decoded PUBLISH shows the flags of its first byte.
func VerifyC12_DecodeFlags(v byte, buf []byte) {
	vAssume(v >= 3 && v <= 4)
	vAssume(len(buf) > 0 && buf[0]&0xF0 == 0x30)
	first := buf[0]
	m, _, err := Decode(ProtocolVersion(v), buf)
	if err != nil {
		return
	}
	p, ok := m.(*Publish)
	vAssert("C12.decode.type", ok)
	vReach("decoded")
	hFlagsAre("C12.decode", p, hFlags{first&8 != 0, first&1 != 0, (first & 6) >> 1})
}
