package mqttp

import "time"

// C20: Publish.Clone.

func VerifyC20_Clone(v byte, cv byte, topic string, payload []byte, qos byte, retain bool, dup bool, id uint16, pid uint16, expires bool, d int64) {
	m := NewPublish(ProtocolVersion(v))
	vAssume(m.Set(topic, payload, QosType(qos), retain, dup) == nil)
	m.SetPacketID(IDType(id))
	m.SetPublishID(uintptr(pid))
	if expires {
		m.SetExpireAt(time.Now().Add(time.Duration(d)))
	}
	at, _, _ := m.Expired()
	c, err := m.Clone(ProtocolVersion(cv))
	vAssert("C20.ok", err == nil && c != nil && c != m)
	vReach("cloned")
	vAssert("C20.version", byte(c.Version()) == v)
	vAssert("C20.topic", c.Topic() == topic)
	vAssert("C20.payload", vBytesEq(c.Payload(), payload))
	vAssert("C20.flags", byte(c.QoS()) == qos && c.Retain() == retain && !c.Dup())
	_, ierr := c.ID()
	vAssert("C20.noid", ierr == ErrNotSet)
	vAssert("C20.nopid", c.PublishID() == 0)
	at2, _, _ := c.Expired()
	vAssert("C20.expiry", at.Equal(at2) && at.IsZero() == at2.IsZero())
	// the original
	oid, oerr := m.ID()
	vAssert("C20.original.id", oerr == nil && oid == IDType(id) && m.PublishID() == uintptr(pid))
	vAssert("C20.original.flags", byte(m.QoS()) == qos && m.Retain() == retain && m.Dup() == dup)
	vAssert("C20.original.body", m.Topic() == topic && vBytesEq(m.Payload(), payload))
}

// hSameProp: property id is present in c exactly if want, with the given kind and value.
func hSameProp(tag string, c *Publish, id PropertyID, want bool, kind int, n uint32, s, k []byte) {
	got := c.PropertyGet(id)
	vAssert(tag+".present", (got != nil) == want)
	if want {
		switch kind {
		case 0:
			x, e := got.AsByte()
			vAssert(tag+".value", e == nil && x == byte(n))
		case 4:
			x, e := got.AsString()
			vAssert(tag+".value", e == nil && x == string(s))
		case 5:
			x, e := got.AsStringPair()
			vAssert(tag+".value", e == nil && x.K == string(k) && x.V == string(s))
		case 6:
			x, e := got.AsBinary()
			vAssert(tag+".value", e == nil && vBytesEq(x, s))
		case 7:
			x, e := got.AsStringPairs()
			vAssert(tag+".value", e == nil && len(x) == 2 && x[0].K == string(k) && x[0].V == string(s) && x[1].K == string(s) && x[1].V == string(k))
		}
	}
}

func hBit(mask, i byte) bool { return mask>>i&1 == 1 }

// Any set of properties on the original: exactly the forwardable ones arrive.
func VerifyC20_Properties(cv byte, mask byte, list bool, n uint32, b byte, rt []byte, cd []byte, s []byte, k []byte, ct []byte, other uint32) {
	m := NewPublish(ProtocolV50)
	vAssume(m.Set("t", []byte("p"), 1, false, false) == nil)
	kind := 5
	if list {
		kind = 7
	}
	set := func(i byte, id PropertyID, v interface{}) {
		if hBit(mask, i) {
			vAssert("C20.set", m.PropertySet(id, v) == nil)
		}
	}
	set(0, 0x01, b)
	set(1, 0x08, string(rt))
	set(2, 0x09, cd)
	set(3, 0x26, hVal(kind, 0, s, k))
	set(4, 0x03, string(ct))
	set(5, 0x02, n)
	if hBit(mask, 6) {
		vAssert("C20.set.alias", m.PropertySet(0x23, uint16(n)) == nil)
		vAssert("C20.set.subid", m.PropertySet(0x0B, n&1023) == nil)
		vAssert("C20.set.willdelay", m.PropertySet(0x18, n) == nil)
	}
	before := m.properties.FullLen()
	c, err := m.Clone(ProtocolVersion(cv))
	vAssert("C20.props.ok", err == nil)
	vReach("cloned")
	if cv == 5 {
		vReach("forwarded")
	}
	f := cv == 5
	hSameProp("C20.payloadformat", c, 0x01, f && hBit(mask, 0), 0, uint32(b), nil, nil)
	hSameProp("C20.responsetopic", c, 0x08, f && hBit(mask, 1), 4, 0, rt, nil)
	hSameProp("C20.correlation", c, 0x09, f && hBit(mask, 2), 6, 0, cd, nil)
	hSameProp("C20.user", c, 0x26, f && hBit(mask, 3), kind, 0, s, k)
	hSameProp("C20.contenttype", c, 0x03, f && hBit(mask, 4), 4, 0, ct, nil)
	if c.PropertyGet(PropertyID(other)) != nil {
		vAssert("C20.only", other == 0x01 || other == 0x08 || other == 0x09 || other == 0x26 || other == 0x03)
	}
	hSameProp("C20.orig.payloadformat", m, 0x01, hBit(mask, 0), 0, uint32(b), nil, nil)
	hSameProp("C20.orig.responsetopic", m, 0x08, hBit(mask, 1), 4, 0, rt, nil)
	hSameProp("C20.orig.correlation", m, 0x09, hBit(mask, 2), 6, 0, cd, nil)
	hSameProp("C20.orig.user", m, 0x26, hBit(mask, 3), kind, 0, s, k)
	hSameProp("C20.orig.contenttype", m, 0x03, hBit(mask, 4), 4, 0, ct, nil)
	vAssert("C20.orig.len", m.properties.FullLen() == before)
}
