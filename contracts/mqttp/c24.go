package mqttp

// C24: factory and type metadata.

func hFresh(m IFace, v, t byte) {
	vAssert("C24.type", byte(m.Type()) == t)
	vAssert("C24.version", byte(m.Version()) == v)
	vAssert("C24.flags", m.getHeader().Flags() == hTypeFlags(t))
	_, err := m.ID()
	vAssert("C24.noid", err == ErrNotSet)
	n := 0
	e := m.PropertyForEach(func(PropertyID, PropertyToType) { n++ })
	if v == 5 {
		vAssert("C24.noprops", e == nil && n == 0)
	} else {
		vAssert("C24.noprops.v3", e == ErrNotSupported && n == 0)
	}
}

func VerifyC24_New(v byte, t byte) {
	m, err := New(ProtocolVersion(v), Type(t))
	if t < 1 || t > 15 || (t == 15 && v < 5) {
		vReach("refused")
		vAssert("C24.refuses", err == ErrInvalidMessageType && m == nil)
		return
	}
	vReach("made")
	vAssert("C24.makes", err == nil && m != nil)
	hFresh(m, v, t)
}

func VerifyC24_NewKind(v byte, t byte) {
	vAssume(t >= 1 && t <= 15 && (t != 15 || v >= 5))
	m, err := New(ProtocolVersion(v), Type(t))
	vAssert("C24.kind.ok", err == nil)
	ok := false
	switch m.(type) {
	case *Connect:
		ok = t == 1
	case *ConnAck:
		ok = t == 2
	case *Publish:
		ok = t == 3
	case *Ack:
		ok = t >= 4 && t <= 7
	case *Subscribe:
		ok = t == 8
	case *SubAck:
		ok = t == 9
	case *UnSubscribe:
		ok = t == 10
	case *UnSubAck:
		ok = t == 11
	case *PingReq:
		ok = t == 12
	case *PingResp:
		ok = t == 13
	case *Disconnect:
		ok = t == 14
	case *Auth:
		ok = t == 15
	}
	vReach("kind")
	vAssert("C24.kind", ok)
}

func VerifyC24_Constructors(v byte, k byte) {
	vAssume(k >= 1 && k <= 15)
	var m IFace
	pv := ProtocolVersion(v)
	switch k {
	case 1:
		m = NewConnect(pv)
	case 2:
		m = NewConnAck(pv)
	case 3:
		m = NewPublish(pv)
	case 4:
		m = NewPubAck(pv)
	case 5:
		m = NewPubRec(pv)
	case 6:
		m = NewPubRel(pv)
	case 7:
		m = NewPubComp(pv)
	case 8:
		m = NewSubscribe(pv)
	case 9:
		m = NewSubAck(pv)
	case 10:
		m = NewUnSubscribe(pv)
	case 11:
		m = NewUnSubAck(pv)
	case 12:
		m = NewPingReq(pv)
	case 13:
		m = NewPingResp(pv)
	case 14:
		m = NewDisconnect(pv)
	default:
		m = NewAuth(pv)
	}
	vReach("made")
	hFresh(m, v, k)
}

// Two packets never share state.
func VerifyC24_Independent(t byte, id uint16) {
	vAssume(t >= 1 && t <= 15)
	a, _ := New(ProtocolV50, Type(t))
	b, _ := New(ProtocolV50, Type(t))
	a.getHeader().setPacketID(IDType(id))
	if hPropAllowed(0x26, t) {
		vReach("props")
		vAssert("C24.indep.set", a.PropertySet(PropertyUserProperty, StringPair{K: "k", V: "v"}) == nil)
	}
	hFresh(b, 5, t)
}

func VerifyC24_Meta(v byte, t byte) {
	ty := Type(t)
	ok, err := ty.Valid(ProtocolVersion(v))
	if v == 3 || v == 4 {
		vReach("v3")
		vAssert("C24.valid.v3", err == nil && ok == (t >= 1 && t <= 14))
	} else if v == 5 {
		vReach("v5")
		vAssert("C24.valid.v5", err == nil && ok == (t >= 1 && t <= 15))
	} else {
		vReach("other")
		vAssert("C24.valid.other", err == ErrInvalidProtocolVersion && !ok)
	}
	vAssert("C24.defaultflags", ty.DefaultFlags() == hTypeFlags(t))
	vAssert("C24.version.valid", ProtocolVersion(v).IsValid() == (v >= 3 && v <= 5))
}

func VerifyC24_Name(t byte) {
	k := byte(vForkInt(int(t), 0, 15))
	n := Type(k).Name()
	d := Type(k).Desc()
	if k > 15 {
		vReach("unknown")
		vAssert("C24.name.unknown", n == "UNKNOWN" && d == "UNKNOWN")
		return
	}
	vReach("name")
	vAssert("C24.name", n == hName(k))
	vAssert("C24.desc", len(d) > 0 && d != "UNKNOWN")
}
