package mqttp

// C07: property registry.

func VerifyC07_Registry(id uint32, t byte) {
	p := PropertyID(id)
	kind := hPropKind(id)
	vReach("any")
	vAssert("C07.valid", p.IsValid() == (kind >= 0))
	vAssert("C07.packet", p.IsValidPacketType(Type(t)) == hPropAllowed(id, t))
	vAssert("C07.repeat", p.DupAllowed(Type(t)) == hPropRepeat(id, t))
}

// hValueOf is a Go value of the wire type of kind.
func hValueOf(kind int, n uint32, s string) interface{} {
	switch kind {
	case 0:
		return byte(n)
	case 1:
		return uint16(n)
	case 2:
		return n
	case 3:
		return n % 268435456
	case 4:
		return s
	case 5:
		return StringPair{K: s, V: s}
	case 6:
		return []byte(s)
	}
	return nil
}

// A property is stored under the wire type of the table, whatever the packet.
func VerifyC07_StoredType(id uint32, t byte, n uint32, s string) {
	vAssume(t <= 15)
	vAssume(hPropAllowed(id, t))
	kind := vForkInt(hPropKind(id), 0, 6)
	m, err := New(ProtocolV50, Type(t))
	vAssert("C07.stored.new", err == nil)
	err = m.PropertySet(PropertyID(id), hValueOf(kind, n, s))
	vAssert("C07.stored.accepts", err == nil)
	g := m.PropertyGet(PropertyID(id))
	vAssert("C07.stored.present", g != nil)
	vReach("stored")
	vAssert("C07.stored.type", int(g.Type()) == kind)
}
