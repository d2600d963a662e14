package mqttp

// C08: PropertySet and PropertyGet.

// hAccepts: PropertySet must accept val for property id in packets of type t.
// Lists with many elements are settled by the numbers in them.
func hAccepts(t byte, id uint32, val interface{}) bool {
	if !hPropAllowed(id, t) {
		return false
	}
	rep := hPropRepeat(id, t)
	k := hPropKind(id)
	switch v := val.(type) {
	case byte:
		return k == 0
	case uint16:
		return k == 1
	case uint32:
		return k == 2 || k == 3 && v <= 268435455
	case string:
		return k == 4
	case StringPair:
		return k == 5
	case []byte:
		return k == 6
	case []StringPair:
		return k == 5 && rep
	case []uint32:
		if k != 3 || !rep {
			return false
		}
		return vAllInts(v)
	}
	return false
}

// hOnly: got answers through the accessor of its kind with the value and through no other.
func hOnly(tag string, kind int, n uint32, s, k []byte, got PropertyToType) {
	a, e0 := got.AsByte()
	b, e1 := got.AsShort()
	c, e2 := got.AsInt()
	d, e3 := got.AsInts()
	e, e4 := got.AsString()
	f, e5 := got.AsStringPair()
	g, e6 := got.AsStringPairs()
	h, e7 := got.AsBinary()
	vAssert(tag+".byte", (e0 == nil) == (kind == 0) && (e0 != nil || a == byte(n)))
	vAssert(tag+".short", (e1 == nil) == (kind == 1) && (e1 != nil || b == uint16(n)))
	vAssert(tag+".int", (e2 == nil) == (kind == 2 || kind == 3) && (e2 != nil || c == n))
	vAssert(tag+".ints", (e3 == nil) == (kind == 8) && (e3 != nil || len(d) == 2 && d[0] == n && d[1] == n/3))
	vAssert(tag+".string", (e4 == nil) == (kind == 4) && (e4 != nil || e == string(s)))
	vAssert(tag+".pair", (e5 == nil) == (kind == 5) && (e5 != nil || f.K == string(k) && f.V == string(s)))
	vAssert(tag+".pairs", (e6 == nil) == (kind == 7) && (e6 != nil || len(g) == 2 && g[0].K == string(k) && g[0].V == string(s) && g[1].K == string(s) && g[1].V == string(k)))
	vAssert(tag+".binary", (e7 == nil) == (kind == 6) && (e7 != nil || vBytesEq(h, s)))
}

// Any identifier, packet type and value: accepted exactly when it should be.
func VerifyC08_Accepts(t byte, id uint32, val interface{}) {
	vCut(0, "C08.ends")
	t = byte(vForkInt(int(t), 1, 15))
	m, err := New(ProtocolV50, Type(t))
	vAssume(err == nil)
	err = m.PropertySet(PropertyID(id), val)
	vAssert("C08.accepts", (err == nil) == hAccepts(t, id, val))
	got := m.PropertyGet(PropertyID(id))
	if err != nil {
		vReach("refused")
		vAssert("C08.refused.absent", got == nil)
	} else {
		vReach("accepted")
		vAssert("C08.accepted.present", got != nil)
	}
}

// A value of every kind, whatever the identifier: what was set is what is found, and only that.
func VerifyC08_GetSet(t byte, id byte, kind byte, n uint32, s []byte, k []byte) {
	t = byte(vForkInt(int(t), 1, 15))
	kd := vForkInt(int(kind), 0, 8)
	vAssume(kd >= 0 && kd <= 8 && hPropAllowed(uint32(id), t))
	m, err := New(ProtocolV50, Type(t))
	vAssume(err == nil)
	vAssert("C08.fresh", m.PropertyGet(PropertyID(id)) == nil)
	v := hVal(kd, n, s, k)
	if m.PropertySet(PropertyID(id), v) != nil {
		vAssert("C08.getset.none", m.PropertyGet(PropertyID(id)) == nil)
		return
	}
	vReach("set")
	got := m.PropertyGet(PropertyID(id))
	vAssert("C08.getset.found", got != nil)
	vAssert("C08.getset.type", int(got.Type()) == hPropKind(uint32(id)))
	hOnly("C08.getset", kd, n, s, k, got)
	cnt := 0
	ferr := m.PropertyForEach(func(i PropertyID, x PropertyToType) {
		cnt++
		vAssert("C08.foreach.id", i == PropertyID(id))
		hOnly("C08.foreach", kd, n, s, k, x)
	})
	vAssert("C08.foreach", ferr == nil && cnt == 1)
}

// With two properties present, setting a third value (any identifier, any kind)
// replaces that property or leaves everything alone.
func VerifyC08_Frame(pub bool, id byte, kind byte, n uint32, s []byte, k []byte, old uint32, ot []byte) {
	kd := vForkInt(int(kind), 0, 8)
	vAssume(kd >= 0 && kd <= 8)
	m, a, b := hTwoProps(pub, old, ot)
	err := m.PropertySet(PropertyID(id), hVal(kd, n, s, k))
	if err == nil {
		vReach("set")
		got := m.PropertyGet(PropertyID(id))
		vAssert("C08.frame.found", got != nil)
		hOnly("C08.frame", kd, n, s, k, got)
	} else {
		vReach("refused")
		if uint32(id) != a && uint32(id) != b {
			vAssert("C08.frame.absent", m.PropertyGet(PropertyID(id)) == nil)
		}
	}
	if uint32(id) != a || err != nil {
		got := m.PropertyGet(PropertyID(a))
		vAssert("C08.frame.kept", got != nil)
		x, e := got.AsInt()
		vAssert("C08.frame.kept.value", e == nil && x == old)
	}
	if uint32(id) != b || err != nil {
		got := m.PropertyGet(PropertyID(b))
		vAssert("C08.frame.kept2", got != nil)
		x, e := got.AsBinary()
		vAssert("C08.frame.kept2.value", e == nil && vBytesEq(x, ot))
	}
}

// hTwoProps is a packet with a four byte integer and a binary property.
func hTwoProps(pub bool, n uint32, b []byte) (IFace, uint32, uint32) {
	if pub {
		m := NewPublish(ProtocolV50)
		vAssert("C08.two.a", m.PropertySet(0x02, n) == nil)
		vAssert("C08.two.b", m.PropertySet(0x09, b) == nil)
		return m, 0x02, 0x09
	}
	m := NewConnAck(ProtocolV50)
	vAssert("C08.two.c", m.PropertySet(0x11, n) == nil)
	vAssert("C08.two.d", m.PropertySet(0x16, b) == nil)
	return m, 0x11, 0x16
}

// A packet that has properties and becomes one of another version does not show them.
func VerifyC08_Switched(v byte, w byte, pub bool, id byte, kind byte, n uint32, s []byte, k []byte, old uint32, ot []byte) {
	kd := vForkInt(int(kind), 0, 8)
	vAssume(kd >= 0 && kd <= 8 && v != 5)
	m, a, b := hTwoProps(pub, old, ot)
	m.SetVersion(ProtocolVersion(w))
	m.SetVersion(ProtocolVersion(v))
	vReach("other")
	vAssert("C08.switched.set", m.PropertySet(PropertyID(id), hVal(kd, n, s, k)) == ErrNotSupported)
	vAssert("C08.switched.get", m.PropertyGet(PropertyID(id)) == nil && m.PropertyGet(PropertyID(a)) == nil)
	calls := 0
	vAssert("C08.switched.each", m.PropertyForEach(func(PropertyID, PropertyToType) { calls++ }) == ErrNotSupported && calls == 0)
	// the refused PropertySet has changed nothing
	m.SetVersion(ProtocolV50)
	if uint32(id) != a && uint32(id) != b {
		vAssert("C08.switched.absent", m.PropertyGet(PropertyID(id)) == nil)
	}
}

// Other versions have no properties.
func VerifyC08_OtherVersions(v byte, t byte, id uint32, val interface{}) {
	vAssume(v != 5)
	t = byte(vForkInt(int(t), 1, 15))
	m, err := New(ProtocolVersion(v), Type(t))
	if err != nil {
		return
	}
	vReach("other")
	vAssert("C08.other.set", m.PropertySet(PropertyID(id), val) == ErrNotSupported)
	vAssert("C08.other.get", m.PropertyGet(PropertyID(id)) == nil)
	calls := 0
	vAssert("C08.other.each", m.PropertyForEach(func(PropertyID, PropertyToType) { calls++ }) == ErrNotSupported)
	vAssert("C08.other.calls", calls == 0)
}
