package mqttp

// Builders: packets in an arbitrary state, made through the API.

// hMaxProps limits the properties of natively built packets.
var hMaxProps = 4

func hPublish(v byte, topic string, payload []byte, qos byte, retain, dup bool, id uint16, hasID bool) *Publish {
	m := NewPublish(ProtocolVersion(v))
	vAssume(m.Set(topic, payload, QosType(qos), retain, dup) == nil)
	if hasID {
		m.SetPacketID(IDType(id))
	}
	hArbProps(m)
	return m
}

func hConnect(v byte, clean bool, keep uint16, cid []byte) *Connect {
	m := NewConnect(ProtocolVersion(v))
	m.SetClean(clean)
	m.SetKeepAlive(keep)
	vAssume(m.SetClientID(cid) == nil)
	hArbProps(m)
	return m
}

func hConnAck(v byte, sp bool, code byte) *ConnAck {
	m := NewConnAck(ProtocolVersion(v))
	m.SetSessionPresent(sp)
	vAssume(m.SetReturnCode(ReasonCode(code)) == nil)
	hArbProps(m)
	return m
}

// hAck makes PUBACK, PUBREC, PUBREL or PUBCOMP (t = 4..7).
func hAck(v, t byte, id uint16, hasID bool, code byte) *Ack {
	var m *Ack
	switch t {
	case 4:
		m = NewPubAck(ProtocolVersion(v))
	case 5:
		m = NewPubRec(ProtocolVersion(v))
	case 6:
		m = NewPubRel(ProtocolVersion(v))
	default:
		m = NewPubComp(ProtocolVersion(v))
	}
	if hasID {
		m.SetPacketID(IDType(id))
	}
	m.SetReason(ReasonCode(code))
	hArbProps(m)
	return m
}

func hTopic(t []byte, ops byte) *Topic {
	vUse("NewTopic")
	x, err := NewSubscribeTopic(t, SubscriptionOptions(ops))
	vAssume(err == nil)
	return x
}

func hSubscribe(v byte, id uint16, hasID bool, n byte, t1 []byte, o1 byte, t2 []byte, o2 byte) *Subscribe {
	m := NewSubscribe(ProtocolVersion(v))
	if hasID {
		m.SetPacketID(IDType(id))
	}
	if n >= 1 {
		vAssume(m.AddTopic(hTopic(t1, o1)) == nil)
	}
	if n >= 2 {
		vAssume(m.AddTopic(hTopic(t2, o2)) == nil)
	}
	hArbProps(m)
	return m
}

func hUnSubscribe(v byte, id uint16, hasID bool, n byte, t1, t2 []byte) *UnSubscribe {
	vUse("NewTopic")
	m := NewUnSubscribe(ProtocolVersion(v))
	if hasID {
		m.SetPacketID(IDType(id))
	}
	if n >= 1 {
		x, err := NewTopic(t1)
		vAssume(err == nil)
		vAssume(m.AddTopic(x) == nil)
	}
	if n >= 2 {
		x, err := NewTopic(t2)
		vAssume(err == nil)
		vAssume(m.AddTopic(x) == nil)
	}
	hArbProps(m)
	return m
}

// hSubAck and hUnSubAck hold the codes with the given bytes, any number of them.
func hSubAck(v byte, id uint16, hasID bool, codes []byte) *SubAck {
	vCut(1, "")
	v = byte(vForkInt(int(v), 5, 5))
	m := NewSubAck(ProtocolVersion(v))
	if hasID {
		m.SetPacketID(IDType(id))
	}
	vAssume(m.AddReturnCodes(hCodeList(codes)) == nil)
	hArbProps(m)
	return m
}

func hUnSubAck(v byte, id uint16, hasID bool, codes []byte) *UnSubAck {
	vCut(1, "")
	v = byte(vForkInt(int(v), 5, 5))
	m := NewUnSubAck(ProtocolVersion(v))
	if hasID {
		m.SetPacketID(IDType(id))
	}
	vAssume(m.AddReturnCodes(hCodeList(codes)) == nil)
	hArbProps(m)
	return m
}

func hDisconnect(v byte, code byte) *Disconnect {
	m := NewDisconnect(ProtocolVersion(v))
	m.SetReasonCode(ReasonCode(code))
	hArbProps(m)
	return m
}

func hAuth(v byte, code byte) *Auth {
	m := NewAuth(ProtocolVersion(v))
	vAssume(m.SetReasonCode(ReasonCode(code)) == nil)
	hArbProps(m)
	return m
}

// hWithWill gives a CONNECT a will message with arbitrary properties.
func hWithWill(m *Connect, topic string, payload []byte, qos byte, retain bool) {
	w := NewPublish(m.Version())
	vAssume(w.Set(topic, payload, QosType(qos), retain, false) == nil)
	hArbProps(w)
	vAssume(m.SetWill(w) == nil)
}
