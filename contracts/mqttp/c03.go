package mqttp

// C03: Size is exact.

// hSizeExact checks m against two buffers of arbitrary length and content.
// The packet is built at one version and may be switched to any other.
func hSizeExact(m IFace, a, b []byte) {
	hUvarint()
	if vFreshBool() {
		m.SetVersion(ProtocolVersion(vFreshByte()))
	}
	sz, serr := m.Size()
	if !vSymbolic() && vDraw()%2 == 0 {
		a = hRoom(a, sz)
	}
	old := string(a)
	if serr != nil {
		vAssert("C03.toolong", serr == ErrInvalidLength)
		n, err := m.Encode(a)
		vAssert("C03.toolong.encode", err == ErrInvalidLength && n == 0 && string(a) == old)
		return
	}
	vAssert("C03.limit", sz <= 268435455+5)
	n, err := m.Encode(a)
	if len(a) < sz {
		vReach("short")
		vAssert("C03.short", n == sz && err == ErrInsufficientBufferSize)
		vAssert("C03.short.untouched", string(a) == old)
		return
	}
	if err != nil {
		return
	}
	vReach("encoded")
	vAssert("C03.exact", n == sz)
	vAssert("C03.tail", string(a[sz:]) == old[sz:])
	if len(b) < sz {
		return
	}
	n2, err2 := m.Encode(b)
	vAssert("C03.again", n2 == sz && err2 == nil)
	vAssert("C03.determined", vBytesEq(a[:sz], b[:sz]))
}

func VerifyC03_PublishQoS0(v byte, topic string, payload []byte, retain bool, dup bool, id uint16, hasID bool, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hPublish(v, topic, payload, 0, retain, dup, id, hasID), a, b)
}

func VerifyC03_PublishQoS1(v byte, topic string, payload []byte, retain bool, dup bool, id uint16, hasID bool, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hPublish(v, topic, payload, 1, retain, dup, id, hasID), a, b)
}

func VerifyC03_PublishQoS2(v byte, topic string, payload []byte, retain bool, dup bool, id uint16, hasID bool, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hPublish(v, topic, payload, 2, retain, dup, id, hasID), a, b)
}

func VerifyC03_Connect(v byte, clean bool, keep uint16, cid []byte, user []byte, pass []byte, a []byte, b []byte) {
	hMaxProps = 1
	m := hConnect(v, clean, keep, cid)
	vAssume(m.SetCredentials(user, pass) == nil)
	hSizeExact(m, a, b)
}

func VerifyC03_ConnectWill(v byte, clean bool, keep uint16, cid []byte, topic string, payload []byte, qos byte, retain bool, a []byte, b []byte) {
	hMaxProps = 1
	m := hConnect(v, clean, keep, cid)
	hWithWill(m, topic, payload, qos, retain)
	hSizeExact(m, a, b)
}

func VerifyC03_ConnAck(v byte, sp bool, code byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hConnAck(v, sp, code), a, b)
}

func VerifyC03_Ack(v byte, t byte, id uint16, hasID bool, code byte, a []byte, b []byte) {
	hMaxProps = 1
	vAssume(t >= 4 && t <= 7)
	hSizeExact(hAck(v, t, id, hasID, code), a, b)
}

func VerifyC03_Subscribe(v byte, id uint16, hasID bool, n byte, t1 []byte, o1 byte, t2 []byte, o2 byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hSubscribe(v, id, hasID, n, t1, o1, t2, o2), a, b)
}

func VerifyC03_UnSubscribe(v byte, id uint16, hasID bool, n byte, t1 []byte, t2 []byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hUnSubscribe(v, id, hasID, n, t1, t2), a, b)
}

func VerifyC03_SubAck(v byte, id uint16, hasID bool, codes []byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hSubAck(v, id, hasID, hNearCodes(v, 9, codes)), a, b)
}

func VerifyC03_UnSubAck(v byte, id uint16, hasID bool, codes []byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hUnSubAck(v, id, hasID, hNearCodes(v, 11, codes)), a, b)
}

func VerifyC03_Disconnect(v byte, code byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hDisconnect(v, code), a, b)
}

func VerifyC03_Auth(v byte, code byte, a []byte, b []byte) {
	hMaxProps = 1
	hSizeExact(hAuth(v, code), a, b)
}

func VerifyC03_Ping(v byte, resp bool, a []byte, b []byte) {
	if resp {
		hSizeExact(NewPingResp(ProtocolVersion(v)), a, b)
	} else {
		hSizeExact(NewPingReq(ProtocolVersion(v)), a, b)
	}
}

func VerifyC03_LemmaProp1(t byte, id byte, kind byte, n uint32, s []byte, k []byte, buf []byte) {
	hLemmaProp1("C03.prop1", t, id, kind, n, s, k, buf)
}

func VerifyC03_LemmaPropTooLong(t byte, id byte, kind byte, s []byte, k []byte, buf []byte) {
	hLemmaPropTooLong("C03.prop", t, id, kind, s, k, buf)
}

// hStub is a packet whose Size and Encode do anything.
type hStub struct {
	*PingReq
	n, k  int
	fill  []byte
	serr  error
	eerr  error
	calls int
	got   int
}

func (s *hStub) Size() (int, error) { return s.n, s.serr }
func (s *hStub) Encode(to []byte) (int, error) {
	s.calls++
	s.got = len(to)
	copy(to, s.fill)
	return s.k, s.eerr
}

// The package function Encode: a buffer of exactly Size bytes, filled by the packet.
func VerifyC03_TopLevel(n uint32, k int, fill []byte, sfail bool, efail bool) {
	vAssume(n <= 1<<20)
	s := &hStub{PingReq: NewPingReq(4), n: int(n), k: k, fill: fill}
	if sfail {
		s.serr = ErrInvalidLength
	}
	if efail {
		s.eerr = ErrInvalidLPStringSize
	}
	buf, err := Encode(s)
	if sfail {
		vReach("size")
		vAssert("C03.top.size", err == ErrInvalidLength && s.calls == 0)
		return
	}
	vAssert("C03.top.once", s.calls == 1 && s.got == int(n))
	if efail {
		vReach("encode")
		vAssert("C03.top.encode", err == ErrInvalidLPStringSize)
		return
	}
	vReach("ok")
	vAssert("C03.top.ok", err == nil && len(buf) == int(n))
	l := len(fill)
	if l > len(buf) {
		l = len(buf)
	}
	vAssert("C03.top.bytes", vBytesEq(buf[:l], fill[:l]))
}

// The property section of any set of properties, however many.
func VerifyC03_Section(t byte, buf []byte) {
	hUvarint()
	vAssume(t >= 1 && t <= 15)
	vCut(0, "C03.section.ends")
	vMapSpec(16)
	p := hAnyProps(t)
	l := p.len
	full := l + hVarLen(l)
	vAssume(l <= 268435455)
	old := string(buf)
	vAssert("C03.section.full", p.FullLen() == full)
	n, err := p.encode(buf)
	vAssert("C03.section.state", p.len == l)
	if len(old) < full {
		vReach("short")
		vAssert("C03.section.short", n == 0 && err == ErrInsufficientBufferSize && string(buf) == old)
		return
	}
	vReach("encoded")
	vAssert("C03.section.size", err == nil && n == full)
	vAssert("C03.section.tail", string(buf[n:]) == old[n:])
}

// hAnyProps is any set of properties a packet of type t may hold while it is built.
func hAnyProps(t byte) *property {
	if vSymbolic() {
		p := &property{properties: vFreshMapProps()}
		p.len = vMapLenProps(p.properties)
		return p
	}
	m, err := New(ProtocolV50, Type(t))
	vAssume(err == nil)
	hRandProps(m, Type(t))
	return &m.getHeader().properties
}
