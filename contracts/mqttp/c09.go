package mqttp

// C09: the recorded property length.

// One PropertySet from any state in which the recorded length is right: base
// stands for the wire size of all the other properties. old is the value the
// property had before, if any.
func VerifyC09_Set(t byte, id byte, base uint32, had bool, oldKind byte, on uint32, os []byte, ok []byte, kind byte, n uint32, s []byte, k []byte) {
	kd := vForkInt(int(kind), 0, 8)
	vAssume(kd >= 0 && kd <= 8 && t <= 15)
	h := &header{}
	h.init(Type(t), ProtocolV50, nil, nil, nil)
	want := int(base)
	if had {
		okd := vForkInt(int(oldKind), 0, 8)
		vAssume(okd >= 0 && okd <= 8 && hPropAllowed(uint32(id), t) && hPropKind(uint32(id)) == hValKind(okd))
		vAssume(okd < 7 || hPropRepeat(uint32(id), t))
		vAssume(okd != 3 && okd != 8 || on <= 268435455)
		h.properties.properties[PropertyID(id)] = hVal(okd, on, os, ok)
		want += hValLen(okd, on, os, ok)
	}
	h.properties.len = want
	err := h.PropertySet(PropertyID(id), hVal(kd, n, s, k))
	if err != nil {
		vReach("refused")
		vAssert("C09.set.refused", h.properties.len == want)
		return
	}
	vReach("set")
	vAssume(hPropKind(uint32(id)) == hValKind(kd)) // two kinds are uint32
	vAssert("C09.set.len", h.properties.len == int(base)+hValLen(kd, n, s, k))
	l, w := h.properties.Len()
	vAssert("C09.set.Len", l == h.properties.len && w == hVarLen(l) || l > 268435455)
	vAssert("C09.set.FullLen", h.properties.FullLen() == l+w)
}

// A value of any Go type: what is refused counts nothing.
func VerifyC09_Refused(t byte, id uint32, base uint32, val interface{}) {
	vCut(0, "")
	t = byte(vForkInt(int(t), 1, 15))
	h := &header{}
	h.init(Type(t), ProtocolV50, nil, nil, nil)
	h.properties.len = int(base)
	if h.PropertySet(PropertyID(id), val) != nil {
		vReach("refused")
		vAssert("C09.refused", h.properties.len == int(base))
		vAssert("C09.refused.frame", len(h.properties.properties) == 0)
	}
}

// A list of any length.
func VerifyC09_List(t byte, id uint32, base uint32, val interface{}) {
	vCut(0, "")
	t = byte(vForkInt(int(t), 1, 15))
	want := int(base)
	switch l := val.(type) {
	case []StringPair:
		want += vSumPairs(l)
	case []uint32:
		want += vSumInts(l)
	default:
		return
	}
	h := &header{}
	h.init(Type(t), ProtocolV50, nil, nil, nil)
	h.properties.len = int(base)
	if h.PropertySet(PropertyID(id), val) == nil {
		vReach("set")
		vAssert("C09.list.len", h.properties.len == want)
	}
}

// A new packet and one whose properties were discarded count zero.
func VerifyC09_Discard(v byte, t byte, base uint32, n uint32) {
	t = byte(vForkInt(int(t), 1, 15))
	m, err := New(ProtocolVersion(v), Type(t))
	if err != nil {
		return
	}
	p := &m.getHeader().properties
	vAssert("C09.new", p.len == 0 && len(p.properties) == 0)
	p.len = int(base)
	if p.properties != nil {
		p.properties[0x02] = n
	}
	m.PropertiesDiscard()
	vReach("discarded")
	vAssert("C09.discard", p.len == 0 && len(p.properties) == 0)
	m.SetVersion(ProtocolV50)
	if t != 12 && t != 13 && t != 8 && t != 10 {
		err = m.PropertySet(0x1F, "why")
		if hPropAllowed(0x1F, t) {
			vAssert("C09.discard.again", err == nil && p.len == 6)
		}
	}
}

// Changing the version of a packet, back and forth.
func VerifyC09_Version(t byte, v byte, w byte, s []byte) {
	t = byte(vForkInt(int(t), 1, 15))
	m, err := New(ProtocolVersion(v), Type(t))
	if err != nil {
		return
	}
	p := &m.getHeader().properties
	want := 0
	set := func() {
		if m.PropertySet(0x26, StringPair{K: string(s), V: "v"}) == nil {
			vAssert("C09.version.allowed", hPropAllowed(0x26, t) && m.Version() == 5)
			want = 6 + len(s)
		} else {
			vReach("refused")
		}
		vAssert("C09.version.len", p.len == want)
	}
	set()
	m.SetVersion(ProtocolVersion(w))
	vAssert("C09.version.same", p.len == want)
	set()
	m.SetVersion(ProtocolVersion(5))
	set()
	vReach("set")
}

// The same, seen from outside: the size of a packet that carries its properties.
func VerifyC09_Size(id byte, kind byte, n uint32, s []byte, k []byte, kind2 byte, n2 uint32, s2 []byte, k2 []byte) {
	kd := vForkInt(int(kind), 0, 8)
	kd2 := vForkInt(int(kind2), 0, 8)
	vAssume(kd >= 0 && kd <= 8 && kd2 >= 0 && kd2 <= 8)
	vAssume(hPropAllowed(uint32(id), 3) && hPropKind(uint32(id)) == hValKind(kd) && hPropKind(uint32(id)) == hValKind(kd2))
	m := NewPublish(ProtocolV50)
	vAssume(m.Set("t", nil, QoS0, false, false) == nil)
	l := 0
	if m.PropertySet(PropertyID(id), hVal(kd, n, s, k)) == nil {
		l = hValLen(kd, n, s, k)
	}
	if m.PropertySet(PropertyID(id), hVal(kd2, n2, s2, k2)) == nil {
		l = hValLen(kd2, n2, s2, k2)
	}
	vAssume(l < 100000000)
	sz, err := m.Size()
	vReach("sized")
	body := 3 + hVarLen(l) + l
	vAssert("C09.size", err == nil && sz == 1+hVarLen(body)+body)
	m.PropertiesDiscard()
	sz, err = m.Size()
	vAssert("C09.size.discarded", err == nil && sz == 6)
}

func VerifyC09_LemmaProp1(t byte, id byte, kind byte, n uint32, s []byte, k []byte, buf []byte) {
	hLemmaProp1("C09.prop1", t, id, kind, n, s, k, buf)
}

func VerifyC09_LemmaProp2(t byte, id byte, kind byte, n uint32, s []byte, k []byte, id2 byte, str bool, n2 byte, s2 []byte, buf []byte) {
	hLemmaProp2("C09.prop2", t, id, kind, n, s, k, id2, str, n2, s2, buf)
}
