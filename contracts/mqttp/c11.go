package mqttp

// C11: reason codes.

func VerifyC11_Tables(c byte, t byte) {
	r := ReasonCode(c)
	vReach("any")
	vAssert("C11.fortype", r.IsValidForType(Type(t)) == hCodeFor(c, t))
	vAssert("C11.value", r.Value() == c)
	vAssert("C11.valid", r.IsValid() == (c <= 5 || hCodeV5(c)))
	vAssert("C11.v3", r.IsValidV3() == (c <= 5))
	vAssert("C11.v5", r.IsValidV5() == hCodeV5(c))
}

func VerifyC11_Dir(c byte, t byte) {
	iss, err := ReasonCode(c).PacketTypeDir(Type(t))
	if hCodeFor(c, t) {
		vReach("valid")
		vAssert("C11.dir.ok", err == nil)
		vAssert("C11.dir.issuer", iss == CodeIssuerServer || iss == CodeIssuerClient || iss == CodeIssuerBoth)
		if want, ok := hIssuer(c, t); ok {
			vAssert("C11.dir.who", iss == want)
		}
		return
	}
	vReach("invalid")
	vAssert("C11.dir.error", err != nil)
}

func VerifyC11_Setters(v byte, c1 byte, c2 byte) {
	m := NewConnAck(ProtocolVersion(v))
	old := byte(m.ReturnCode())
	e1 := m.SetReturnCode(ReasonCode(c1))
	vAssert("C11.connack.accepts", (e1 == nil) == hCodeFor(c1, 2))
	if e1 == nil {
		vReach("connack.ok")
		old = c1
	}
	vAssert("C11.connack.stored", byte(m.ReturnCode()) == old)
	e2 := m.SetReturnCode(ReasonCode(c2))
	vAssert("C11.connack.accepts2", (e2 == nil) == hCodeFor(c2, 2))
	if e2 == nil {
		old = c2
	}
	vAssert("C11.connack.stored2", byte(m.ReturnCode()) == old)
}

func VerifyC11_AuthSetter(v byte, c1 byte, c2 byte) {
	m := NewAuth(ProtocolVersion(v))
	old := byte(m.ReasonCode())
	e1 := m.SetReasonCode(ReasonCode(c1))
	vAssert("C11.auth.accepts", (e1 == nil) == hCodeFor(c1, 15))
	if e1 == nil {
		vReach("auth.ok")
		old = c1
	}
	vAssert("C11.auth.stored", byte(m.ReasonCode()) == old)
	e2 := m.SetReasonCode(ReasonCode(c2))
	vAssert("C11.auth.accepts2", (e2 == nil) == hCodeFor(c2, 15))
	if e2 == nil {
		old = c2
	}
	vAssert("C11.auth.stored2", byte(m.ReasonCode()) == old)
}

// PUBACK..PUBCOMP and DISCONNECT setters store what they are given (no error result).
func VerifyC11_PlainSetters(t byte, c byte) {
	vAssume(t >= 4 && t <= 7 || t == 14)
	m, err := New(ProtocolV50, Type(t))
	vAssert("C11.plain.new", err == nil)
	switch p := m.(type) {
	case *Ack:
		p.SetReason(ReasonCode(c))
		vReach("ack")
		vAssert("C11.plain.ack", byte(p.Reason()) == c)
	case *Disconnect:
		p.SetReasonCode(ReasonCode(c))
		vReach("disconnect")
		vAssert("C11.plain.disconnect", byte(p.ReasonCode()) == c)
	default:
		vAssert("C11.plain.type", false)
	}
}

// Decoders accept exactly the codes assigned to the type (packets without properties).
func VerifyC11_DecodeConnAck(v byte, flags byte, c byte) {
	vAssume(v >= 3 && v <= 5 && flags <= 1)
	buf := []byte{0x20, 2, flags, c}
	if v == 5 {
		buf = []byte{0x20, 3, flags, c, 0}
	}
	m, _, err := Decode(ProtocolVersion(v), buf)
	vAssert("C11.dec.connack.accepts", (err == nil) == hCodeFor(c, 2))
	if err == nil {
		vReach("connack.ok")
		p, ok := m.(*ConnAck)
		vAssert("C11.dec.connack.type", ok)
		vAssert("C11.dec.connack.code", byte(p.ReturnCode()) == c && p.SessionPresent() == (flags == 1))
	}
}

func VerifyC11_DecodeAck(t byte, id uint16, c byte, withProps bool) {
	vAssume(t >= 4 && t <= 7)
	t = byte(vForkInt(int(t), 4, 7))
	first := t<<4 | hTypeFlags(t)
	buf := []byte{first, 3, byte(id >> 8), byte(id), c}
	if withProps {
		buf = []byte{first, 4, byte(id >> 8), byte(id), c, 0}
	}
	m, _, err := Decode(ProtocolV50, buf)
	vAssert("C11.dec.ack.accepts", (err == nil) == hCodeFor(c, t))
	if err == nil {
		vReach("ack.ok")
		p, ok := m.(*Ack)
		vAssert("C11.dec.ack.type", ok)
		vAssert("C11.dec.ack.code", byte(p.Reason()) == c)
	}
}

func VerifyC11_DecodeDisconnectAuth(auth bool, c byte) {
	t := byte(14)
	if auth {
		t = 15
	}
	m, _, err := Decode(ProtocolV50, []byte{t << 4, 2, c, 0})
	vAssert("C11.dec.da.accepts", (err == nil) == hCodeFor(c, t))
	if err != nil {
		return
	}
	if auth {
		vReach("auth.ok")
		p, ok := m.(*Auth)
		vAssert("C11.dec.auth", ok && byte(p.ReasonCode()) == c)
		return
	}
	vReach("disconnect.ok")
	p, ok := m.(*Disconnect)
	vAssert("C11.dec.disconnect", ok && byte(p.ReasonCode()) == c)
}

// Omitted reason codes mean success.
func VerifyC11_DecodeOmitted(t byte, id uint16) {
	vAssume(t >= 4 && t <= 7 || t == 14 || t == 15)
	t = byte(vForkInt(int(t), 4, 15))
	var buf []byte
	if t < 8 {
		buf = []byte{t<<4 | hTypeFlags(t), 2, byte(id >> 8), byte(id)}
	} else {
		buf = []byte{t << 4, 0}
	}
	m, _, err := Decode(ProtocolV50, buf)
	vAssert("C11.dec.omitted", err == nil)
	vReach("omitted")
	switch p := m.(type) {
	case *Ack:
		vAssert("C11.dec.omitted.ack", p.Reason() == CodeSuccess)
	case *Disconnect:
		vAssert("C11.dec.omitted.disconnect", p.ReasonCode() == CodeSuccess)
	case *Auth:
		vAssert("C11.dec.omitted.auth", p.ReasonCode() == CodeSuccess)
	default:
		vAssert("C11.dec.omitted.type", false)
	}
}

// hIssuer is the "sent by" column of MQTT 5 tables 3-1, 3-10 and 3-11 and of the acknowledgements.
func hIssuer(c, t byte) (CodeIssuer, bool) {
	switch t {
	case 2: // CONNACK: the server (3.1.1 return codes have no such column)
		return CodeIssuerServer, c == 0 || c >= 0x80
	case 4, 5, 6, 7:
		return CodeIssuerBoth, true
	case 14:
		switch c {
		case 0x00, 0x04:
			return CodeIssuerClient, true
		case 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2:
			return CodeIssuerServer, true
		}
		return CodeIssuerBoth, true
	case 15:
		switch c {
		case 0x18:
			return CodeIssuerBoth, true
		case 0x19:
			return CodeIssuerClient, true
		}
		return CodeIssuerServer, true
	}
	return 0, false
}
