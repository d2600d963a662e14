package mqttp

// hSizeAny: as hSizeExact, for lists of any length.
func hSizeAny(m IFace, a, b []byte) {
	hUvarint()
	sz, serr := m.Size()
	if !vSymbolic() && vDraw()%2 == 0 {
		a = hRoom(a, sz)
	}
	old := string(a)
	if serr != nil {
		vAssert("C03.toolong", serr == ErrInvalidLength)
		n, err := m.Encode(a)
		vAssert("C03.toolong.encode", err == ErrInvalidLength && n == 0 && string(a) == old)
		return
	}
	n, err := m.Encode(a)
	if len(a) < sz {
		vReach("short")
		vAssert("C03.short", n == sz && err == ErrInsufficientBufferSize)
		vAssert("C03.short.untouched", string(a) == old)
		return
	}
	if err != nil {
		return
	}
	vReach("encoded")
	vAssert("C03.exact", n == sz)
	vAssert("C03.tail", string(a[sz:]) == old[sz:])
	if len(b) < sz {
		return
	}
	n2, err2 := m.Encode(b)
	vAssert("C03.again", n2 == sz && err2 == nil)
	vAssert("C03.determined", vBytesEq(a[:sz], b[:sz]))
}

func VerifyC03_SubscribeAny(v byte, id uint16, a []byte, b []byte) {
	hMaxProps = 1
	vAssume(v >= 3 && v <= 5)
	m, _ := hTopics(v, id, true, false, false)
	hSizeAny(m, a, b)
}

func VerifyC03_UnSubscribeAny(v byte, id uint16, a []byte, b []byte) {
	hMaxProps = 1
	vAssume(v >= 3 && v <= 5)
	m, _ := hTopics(v, id, true, true, false)
	hSizeAny(m, a, b)
}
