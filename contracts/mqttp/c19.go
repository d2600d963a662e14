package mqttp

// C19: return code lists of SUBACK and UNSUBACK.

// hAdd calls AddReturnCodes.
func hAdd(un bool, v byte, lists ...[]ReasonCode) (IFace, []error) {
	var errs []error
	if un {
		m := NewUnSubAck(ProtocolVersion(v))
		for _, l := range lists {
			errs = append(errs, m.AddReturnCodes(l))
		}
		return m, errs
	}
	m := NewSubAck(ProtocolVersion(v))
	for _, l := range lists {
		errs = append(errs, m.AddReturnCodes(l))
	}
	return m, errs
}

func hCodes(m IFace) []ReasonCode {
	if s, ok := m.(*SubAck); ok {
		return s.ReturnCodes()
	}
	return m.(*UnSubAck).ReturnCodes()
}

// Any list added to a packet that holds a legal code.
func VerifyC19_Add(un bool, v byte, c0 byte, codes []byte) {
	vCut(1, "C19.add.ends")
	v = byte(vForkInt(int(v), 5, 5))
	t := byte(9)
	if un {
		t = 11
	}
	vAssume(hListCodeOK(v, t, c0))
	codes = hNearCodes(v, t, codes)
	l := hCodeList(codes)
	m, errs := hAdd(un, v, []ReasonCode{ReasonCode(c0)}, l)
	vAssert("C19.add.first", errs[0] == nil)
	got := hCodes(m)
	vAssert("C19.add.accepts", (errs[1] == nil) == hLegalCodes(v, t, l))
	vAssert("C19.add.onlylegal", hLegalCodes(v, t, got))
	vAssert("C19.add.keeps", len(got) >= 1 && got[0] == ReasonCode(c0))
	if errs[1] == nil {
		vReach("legal")
		vAssert("C19.add.order", vBytesEq(hCodeBytes(got[1:]), codes))
	}
}

// One code.
func VerifyC19_Single(un bool, v byte, c byte) {
	t := byte(9)
	var err error
	var got []ReasonCode
	if un {
		t = 11
		m := NewUnSubAck(ProtocolVersion(v))
		err = m.AddReturnCode(ReasonCode(c))
		got = m.ReturnCodes()
	} else {
		m := NewSubAck(ProtocolVersion(v))
		err = m.AddReturnCode(ReasonCode(c))
		got = m.ReturnCodes()
	}
	vAssert("C19.single.accepts", (err == nil) == hListCodeOK(v, t, c))
	if err == nil {
		vReach("added")
		vAssert("C19.single.stored", len(got) == 1 && byte(got[0]) == c)
	} else {
		vAssert("C19.single.refused", len(got) == 0)
	}
}

// Decode accepts exactly the legal lists and keeps their order, any number of codes
// behind any property section.
func VerifyC19_Decode(un bool, v byte, id uint16, codes []byte, buf []byte) {
	hUvarint()
	vUse("property__encode")
	vUse("property__decode")
	vCut(1, "C19.decode.ends")
	vAssume(v >= 3 && v <= 5)
	v = byte(vForkInt(int(v), 3, 5))
	vAssume(!un || v == 5)
	t := byte(9)
	if un {
		t = 11
	}
	codes = hNearCodes(v, t, codes)
	body := []byte{byte(id >> 8), byte(id)}
	var props map[PropertyID]interface{}
	if v == 5 {
		p := hPropSection(t)
		props = p.properties
		sect := make([]byte, p.FullLen())
		n, err := p.encode(sect)
		vAssume(err == nil && n == len(sect))
		body = append(body, sect...)
	}
	body = append(body, codes...)
	vAssume(len(body) <= 268435455)
	w := vUvLen(uint64(len(body)))
	buf = hExact(buf, 1+w+len(body))
	vAssume(len(buf) == 1+w+len(body))
	buf[0] = t << 4
	copy(buf[1:], vUvBytes(uint64(len(body))))
	copy(buf[1+w:], body)
	m, _, err := Decode(ProtocolVersion(v), buf)
	legal := hLegalCodes(v, t, hCodeList(codes))
	vAssert("C19.decode.accepts", (err == nil) == legal)
	if err != nil {
		vReach("refused")
		return
	}
	vReach("decoded")
	vAssert("C19.decode.order", vBytesEq(hCodeBytes(hCodes(m)), codes))
	if v == 5 {
		vAssert("C19.decode.props", vMapSameProps(hProps(m), props))
	}
}

// Encode writes the codes in order behind identifier and properties.
func VerifyC19_Encode(un bool, v byte, id uint16, codes []byte, buf []byte) {
	hUvarint()
	var m IFace
	if un {
		codes = hNearCodes(v, 11, codes)
		m = hUnSubAck(v, id, true, codes)
	} else {
		codes = hNearCodes(v, 9, codes)
		m = hSubAck(v, id, true, codes)
	}
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	k, err := m.Encode(buf)
	if err != nil {
		return
	}
	vReach("encoded")
	body := 2
	if v == 5 {
		body += m.getHeader().properties.FullLen()
	}
	if un && v != 5 {
		codes = nil
	}
	vAssert("C19.encode.len", int(m.getHeader().RemainingLength()) == body+len(codes))
	vAssert("C19.encode.order", vBytesEq(buf[k-len(codes):k], codes))
}

// Codes that were added stay: neither a later change of the caller's slice nor another
// packet given the same slice changes them.
func VerifyC19_Own(un bool, v byte, c0, c1, d, x, y byte) {
	v = byte(vForkInt(int(v), 5, 5))
	t := byte(9)
	if un {
		t = 11
	}
	vAssume(hListCodeOK(v, t, c0) && hListCodeOK(v, t, c1) && hListCodeOK(v, t, x) && hListCodeOK(v, t, y))
	base := make([]ReasonCode, 2, 8)
	base[0], base[1] = ReasonCode(c0), ReasonCode(c1)
	a, errs := hAdd(un, v, base[:1], []ReasonCode{ReasonCode(x)})
	vAssert("C19.own.a", errs[0] == nil && errs[1] == nil)
	b, errs := hAdd(un, v, base, []ReasonCode{ReasonCode(y)})
	vAssert("C19.own.b", errs[0] == nil && errs[1] == nil)
	base[0] = ReasonCode(d)
	vReach("added")
	p, q := hCodes(a), hCodes(b)
	vAssert("C19.own.first", len(p) == 2 && byte(p[0]) == c0 && byte(p[1]) == x)
	vAssert("C19.own.second", len(q) == 3 && byte(q[0]) == c0 && byte(q[1]) == c1 && byte(q[2]) == y)
}
