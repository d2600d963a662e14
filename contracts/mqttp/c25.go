package mqttp

import "time"

// C25: message expiry.

func VerifyC25_None(v byte, topic string, payload []byte, qos byte, retain bool, dup bool) {
	m := NewPublish(ProtocolVersion(v))
	_, left, exp := m.Expired()
	vAssert("C25.fresh", !exp && left == 0)
	vAssume(m.Set(topic, payload, QosType(qos), retain, dup) == nil)
	vReach("set")
	at, left, exp := m.Expired()
	vAssert("C25.none", !exp && left == 0 && at.IsZero())
}

// hWhole is the number of whole seconds in d (0 if negative), at most 2^32-1.
func hWhole(d time.Duration) int64 {
	if d < 0 {
		return 0
	}
	s := int64(d / time.Second)
	if s > 4294967295 {
		return 4294967295
	}
	return s
}

// Expired against an instant up to 584 years away, seen from readings of the clock around it.
func VerifyC25_Expiry(v byte, d1 int64, d2 int64) {
	m := NewPublish(ProtocolVersion(v))
	tm := time.Now().Add(time.Duration(d1)).Add(time.Duration(d2))
	vAssume(!tm.IsZero())
	m.SetExpireAt(tm)
	before := time.Now()
	at, left, exp := m.Expired()
	after := time.Now()
	vAssert("C25.at", at.Equal(tm))
	hi, lo := hWhole(tm.Sub(before)), hWhole(tm.Sub(after))
	if exp {
		vReach("expired")
		vAssert("C25.expired", lo < 1 && left == 0)
	} else {
		vReach("alive")
		vAssert("C25.alive", hi >= 1)
		vAssert("C25.left", int64(left) <= hi && int64(left) >= lo && left >= 1)
	}
	at2, left2, exp2 := m.Expired()
	vAssert("C25.at2", at2.Equal(tm))
	vAssert("C25.stays", !exp || exp2)
	vAssert("C25.falls", left2 <= left)
}

// Setters and encoding do not touch the expiry.
func VerifyC25_Only(v byte, d int64, topic string, payload []byte, qos byte, retain bool, dup bool, id uint16, buf []byte) {
	hUvarint()
	m := NewPublish(ProtocolVersion(v))
	tm := time.Now().Add(time.Duration(d))
	vAssume(!tm.IsZero())
	m.SetExpireAt(tm)
	m.Set(topic, payload, QosType(qos), retain, dup)
	m.SetTopic(topic)
	m.SetPayload(payload)
	m.SetQoS(QosType(qos))
	m.SetRetain(retain)
	m.SetDup(dup)
	m.SetPacketID(IDType(id))
	m.SetPublishID(uintptr(id))
	m.PropertySet(PropertyPublicationExpiry, uint32(id))
	m.PropertiesDiscard()
	m.Encode(buf)
	m.SetVersion(ProtocolVersion(id))
	vReach("done")
	at, _, _ := m.Expired()
	vAssert("C25.only", at.Equal(tm))
}
