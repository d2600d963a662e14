package mqttp

import "unicode/utf8"

// C17: PUBLISH topics.

func hTopicOK(b []byte) bool {
	return utf8.Valid(b) && vRegex("^[^\u0000-\u001F\u007F-\u009F+#]*$", b)
}

func VerifyC17_ValidTopic(b []byte) {
	vReach("any")
	vAssert("C17.valid", ValidTopic(b) == hTopicOK(b))
}

func VerifyC17_Set(v byte, old string, t string, p []byte, qos byte, retain bool, dup bool) {
	m := NewPublish(ProtocolVersion(v))
	vAssume(len(old) > 0 && m.SetTopic(old) == nil)
	vAssert("C17.old", m.Topic() == old)
	err := m.Set(t, p, QosType(qos), retain, dup)
	if !hTopicOK([]byte(t)) {
		vReach("refused")
		vAssert("C17.set.refused", err != nil && m.Topic() == old)
	} else if err == nil {
		vReach("set")
		vAssert("C17.set.stored", m.Topic() == t)
	} else {
		vAssert("C17.set.kept", qos > 2 && m.Topic() == old)
	}
}

func VerifyC17_SetTopic(v byte, old string, t string) {
	m := NewPublish(ProtocolVersion(v))
	vAssume(len(old) > 0 && m.SetTopic(old) == nil)
	err := m.SetTopic(t)
	ok := hTopicOK([]byte(t)) && (v >= 5 || len(t) > 0)
	vAssert("C17.settopic.accepts", (err == nil) == ok)
	if ok {
		vReach("set")
		vAssert("C17.settopic.stored", m.Topic() == t)
	} else {
		vReach("refused")
		vAssert("C17.settopic.kept", m.Topic() == old)
	}
}

// hPubFrame lays a PUBLISH frame out in buf: first byte, topic and whatever follows.
func hPubFrame(first byte, topic, rest, buf []byte) []byte {
	vAssume(first>>4 == 3 && len(topic) <= 65535)
	rl := 2 + len(topic) + len(rest)
	vAssume(rl <= 268435455)
	w := vUvLen(uint64(rl))
	buf = hExact(buf, 1+w+rl)
	vAssume(len(buf) == 1+w+rl)
	buf[0] = first
	copy(buf[1:], vUvBytes(uint64(rl)))
	WriteLPBytes(buf[1+w:], topic)
	copy(buf[3+w+len(topic):], rest)
	return buf
}

func VerifyC17_Decode(v byte, first byte, topic []byte, rest []byte, buf []byte) {
	vUse("property__decode")
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	m, _, err := Decode(ProtocolVersion(v), hPubFrame(first, topic, rest, buf))
	if err != nil {
		vAssert("C17.decode.nil", m == nil)
		return
	}
	vReach("decoded")
	p, ok := m.(*Publish)
	vAssert("C17.decode.type", ok)
	vAssert("C17.decode.valid", hTopicOK(topic) && p.Topic() == string(topic))
	vAssert("C17.decode.nonempty", v == 5 || len(topic) > 0)
	if len(topic) == 0 {
		vReach("alias")
		a := p.PropertyGet(PropertyTopicAlias)
		vAssert("C17.decode.alias", a != nil)
		x, xerr := a.AsShort()
		vAssert("C17.decode.alias.value", xerr == nil && x != 0)
	}
}

// Version 5, empty topic, a Topic Alias as the only property: accepted exactly if it is not zero.
func VerifyC17_DecodeAlias(retain bool, alias uint16) {
	first := byte(0x30)
	if retain {
		first = 0x31
	}
	m, _, err := Decode(ProtocolV50, []byte{first, 6, 0, 0, 3, 0x23, byte(alias >> 8), byte(alias)})
	vAssert("C17.alias.accepts", (err == nil) == (alias != 0))
	if err == nil {
		vReach("decoded")
		p, ok := m.(*Publish)
		vAssert("C17.alias.type", ok && p.Topic() == "")
	}
}
