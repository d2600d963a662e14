package mqttp

import "unicode/utf8"

// C04: Encode then Decode returns the same packet.

// hTrip encodes m into buf, decodes the result and returns the new packet.
func hTrip(m IFace, buf []byte) IFace {
	hUvarint()
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	n, err := m.Encode(buf)
	if err == ErrInvalidLPStringSize {
		// some property value does not fit its length prefix: not a legal packet
		vAssume(false)
	}
	vAssert("C04.encodes", err == nil)
	vAssert("C04.size", n == sz)
	got, total, err := Decode(m.Version(), buf[:n])
	vReach("encoded")
	vAssert("C04.decodes", err == nil)
	vAssert("C04.total", total == n)
	vAssert("C04.type", got.Type() == m.Type() && got.Version() == m.Version() && got.getHeader().Flags() == m.getHeader().Flags())
	if m.Version() == ProtocolV50 {
		vAssert("C04.props", vMapSameProps(hProps(got), hProps(m)))
	}
	return got
}

// hLacks assumes a property that PUBLISH and will do not share to be absent.
func hLacks(m *Publish, id PropertyID) {
	_, ok := m.properties.properties[id]
	vAssume(!ok)
}

// hText: UTF-8 without control characters.
func hText(b []byte) bool {
	return utf8.Valid(b) && vRegex("^[^\u0000-\u001F\u007F-\u009F]*$", b)
}

func hSameID(m, got IFace) {
	a, ea := m.ID()
	b, eb := got.ID()
	vAssert("C04.id", a == b && ea == eb)
}

func VerifyC04_Publish(v byte, topic string, payload []byte, qos byte, retain bool, dup bool, id uint16, buf []byte) {
	vAssume(v >= 3 && v <= 5 && qos <= 2 && !(dup && qos == 0))
	vAssume(len(topic) >= 1 && len(topic) <= 65535)
	m := hPublish(v, topic, payload, qos, retain, dup, id, qos > 0)
	hLacks(m, PropertyWillDelayInterval)
	x, ok := hTrip(m, buf).(*Publish)
	vAssert("C04.publish", ok)
	hSameID(m, x)
	vAssert("C04.publish.topic", x.Topic() == topic)
	vAssert("C04.publish.payload", vBytesEq(x.Payload(), payload))
	vAssert("C04.publish.flags", x.QoS() == QosType(qos) && x.Retain() == retain && x.Dup() == dup)
}

func hSameConnect(m, x *Connect) {
	vAssert("C04.connect.clean", m.IsClean() == x.IsClean() && m.KeepAlive() == x.KeepAlive())
	vAssert("C04.connect.id", vBytesEq(m.ClientID(), x.ClientID()))
	u1, p1 := m.Credentials()
	u2, p2 := x.Credentials()
	vAssert("C04.connect.user", vBytesEq(u1, u2))
	vAssert("C04.connect.pass", vBytesEq(p1, p2))
	vAssert("C04.connect.flags", m.connectFlags == x.connectFlags)
	vAssert("C04.connect.will", (m.Will() == nil) == (x.Will() == nil))
}

func hLegalConnect(v byte, clean bool, cid []byte) {
	vAssume(v >= 3 && v <= 5)
	vAssume(len(cid) <= 65535)
	vAssume(v == 5 || len(cid) > 0 || clean)
}

func VerifyC04_Connect(v byte, clean bool, keep uint16, cid []byte, user []byte, pass []byte, buf []byte) {
	hLegalConnect(v, clean, cid)
	vAssume(len(user) <= 65535 && len(pass) <= 65535)
	m := hConnect(v, clean, keep, cid)
	vAssume(hText(user) && m.SetCredentials(user, pass) == nil)
	x, ok := hTrip(m, buf).(*Connect)
	vAssert("C04.connect", ok)
	hSameConnect(m, x)
}

func VerifyC04_ConnectWill(v byte, clean bool, keep uint16, cid []byte, topic string, payload []byte, qos byte, retain bool, buf []byte) {
	hLegalConnect(v, clean, cid)
	vAssume(qos <= 2 && len(topic) > 0 && len(topic) <= 65535 && len(payload) <= 65535)
	m := hConnect(v, clean, keep, cid)
	hWithWill(m, topic, payload, qos, retain)
	hLacks(m.will, PropertySubscriptionIdentifier)
	hLacks(m.will, PropertyTopicAlias)
	x, ok := hTrip(m, buf).(*Connect)
	vAssert("C04.connect", ok)
	hSameConnect(m, x)
	a, b := m.Will(), x.Will()
	vAssert("C04.will.topic", a.Topic() == b.Topic())
	vAssert("C04.will.payload", vBytesEq(a.Payload(), b.Payload()))
	vAssert("C04.will.flags", a.QoS() == b.QoS() && a.Retain() == b.Retain() && b.Version() == a.Version())
	if v == 5 {
		vAssert("C04.will.props", vMapSameProps(hProps(b), hProps(a)))
	}
}

func VerifyC04_ConnAck(v byte, sp bool, code byte, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m := hConnAck(v, sp, code)
	x, ok := hTrip(m, buf).(*ConnAck)
	vAssert("C04.connack", ok)
	vAssert("C04.connack.fields", x.SessionPresent() == sp && byte(x.ReturnCode()) == code)
}

func VerifyC04_Ack(v byte, t byte, id uint16, code byte, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	vAssume(t >= 4 && t <= 7)
	t = byte(vForkInt(int(t), 4, 7))
	vAssume(v < 5 || hCodeFor(code, t))
	m := hAck(v, t, id, true, code)
	x, ok := hTrip(m, buf).(*Ack)
	vAssert("C04.ack", ok)
	hSameID(m, x)
	vAssert("C04.ack.code", x.Reason() == m.Reason())
}

func hSameTopics(a, b []*Topic) {
	vAssert("C04.topics", len(a) == len(b))
	for i := range a {
		vAssert("C04.topic.full", a[i].Full() == b[i].Full())
		vAssert("C04.topic.filter", a[i].Filter() == b[i].Filter())
		vAssert("C04.topic.share", a[i].ShareName() == b[i].ShareName())
		vAssert("C04.topic.dollar", a[i].DollarPrefix() == b[i].DollarPrefix())
		vAssert("C04.topic.ops", a[i].Ops() == b[i].Ops())
	}
}

func VerifyC04_Subscribe(v byte, id uint16, n byte, t1 []byte, o1 byte, t2 []byte, o2 byte, buf []byte) {
	vAssume(v >= 3 && v <= 5 && n >= 1 && n <= 2)
	vAssume(len(t1) <= 65535 && len(t2) <= 65535)
	if v == 5 {
		vAssume(o1&0xC0 == 0 && o2&0xC0 == 0 && o1&0x30 != 0x30 && o2&0x30 != 0x30)
	} else {
		vAssume(o1&0xFC == 0 && o2&0xFC == 0)
	}
	m := hSubscribe(v, id, true, n, t1, o1, t2, o2)
	x, ok := hTrip(m, buf).(*Subscribe)
	vAssert("C04.subscribe", ok)
	hSameID(m, x)
	hSameTopics(m.topics, x.topics)
}

func VerifyC04_UnSubscribe(v byte, id uint16, n byte, t1 []byte, t2 []byte, buf []byte) {
	vAssume(v >= 3 && v <= 5 && n >= 1 && n <= 2)
	vAssume(len(t1) <= 65535 && len(t2) <= 65535)
	m := hUnSubscribe(v, id, true, n, t1, t2)
	x, ok := hTrip(m, buf).(*UnSubscribe)
	vAssert("C04.unsubscribe", ok)
	hSameID(m, x)
	hSameTopics(m.topics, x.topics)
}

func VerifyC04_SubAck(v byte, id uint16, codes []byte, buf []byte) {
	vAssume(v >= 3 && v <= 5 && len(codes) >= 1)
	codes = hNearCodes(v, 9, codes)
	m := hSubAck(v, id, true, codes)
	x, ok := hTrip(m, buf).(*SubAck)
	vAssert("C04.suback", ok)
	hSameID(m, x)
	a, b := m.ReturnCodes(), x.ReturnCodes()
	vAssert("C04.suback.n", len(a) == len(b) && len(b) == len(codes))
	vAssert("C04.suback.codes", vBytesEq(hCodeBytes(b), codes))
}

func VerifyC04_UnSubAck(v byte, id uint16, codes []byte, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	vAssume(len(codes) >= 1 == (v == 5)) // codes exist in version 5 only
	codes = hNearCodes(v, 11, codes)
	m := hUnSubAck(v, id, true, codes)
	x, ok := hTrip(m, buf).(*UnSubAck)
	vAssert("C04.unsuback", ok)
	hSameID(m, x)
	a, b := m.ReturnCodes(), x.ReturnCodes()
	vAssert("C04.unsuback.n", len(a) == len(b) && len(b) == len(codes))
	vAssert("C04.unsuback.codes", vBytesEq(hCodeBytes(b), codes))
}

func VerifyC04_Disconnect(v byte, code byte, buf []byte) {
	vAssume(v >= 3 && v <= 5 && (v < 5 || hCodeFor(code, 14)))
	vAssume(v == 5 || code == 0)
	m := hDisconnect(v, code)
	x, ok := hTrip(m, buf).(*Disconnect)
	vAssert("C04.disconnect", ok)
	vAssert("C04.disconnect.code", x.ReasonCode() == m.ReasonCode())
}

func VerifyC04_Auth(code byte, buf []byte) {
	m := hAuth(5, code)
	x, ok := hTrip(m, buf).(*Auth)
	vAssert("C04.auth", ok)
	vAssert("C04.auth.code", x.ReasonCode() == m.ReasonCode())
}

func VerifyC04_Ping(v byte, resp bool, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	var m IFace = NewPingReq(ProtocolVersion(v))
	if resp {
		m = NewPingResp(ProtocolVersion(v))
	}
	hTrip(m, buf)
}

func VerifyC04_LemmaProp1(t byte, id byte, kind byte, n uint32, s []byte, k []byte, buf []byte) {
	hLemmaProp1("C04.prop1", t, id, kind, n, s, k, buf)
}

func VerifyC04_LemmaProp2(t byte, id byte, kind byte, n uint32, s []byte, k []byte, id2 byte, str bool, n2 byte, s2 []byte, buf []byte) {
	hLemmaProp2("C04.prop2", t, id, kind, n, s, k, id2, str, n2, s2, buf)
}
