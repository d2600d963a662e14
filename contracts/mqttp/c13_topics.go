package mqttp

func VerifyC13_SubscribeAny(v byte, id uint16, un bool, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m, _ := hTopics(v, id, true, un, false)
	hCarriesID(m, id, 0, buf)
}

func VerifyC13_DecodeSubscribeAny(v byte, id uint16) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, false, true)
	vAssume(len(l) >= 1)
	hUvarint()
	got, _, err := Decode(m.Version(), hWire(m, 0x82, id, vFlatSubs(l)))
	vReach("decoded")
	vAssert("C13.any.accepted", err == nil)
	x, err := got.ID()
	vAssert("C13.any.id", x == IDType(id) && err == nil)
}

func VerifyC13_DecodeUnSubscribeAny(v byte, id uint16) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, true, true)
	vAssume(len(l) >= 1)
	hUvarint()
	got, _, err := Decode(m.Version(), hWire(m, 0xA2, id, vFlatUnsubs(l)))
	vReach("decoded")
	vAssert("C13.any.accepted", err == nil)
	x, err := got.ID()
	vAssert("C13.any.id", x == IDType(id) && err == nil)
}
