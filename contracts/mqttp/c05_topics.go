package mqttp

func VerifyC05_SubscribeAny(v byte, id uint16, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m, _ := hTopics(v, id, true, false, false)
	hFixedHeader(m, 8, 2, buf)
}

func VerifyC05_UnSubscribeAny(v byte, id uint16, buf []byte) {
	vAssume(v >= 3 && v <= 5)
	m, _ := hTopics(v, id, true, true, false)
	hFixedHeader(m, 10, 2, buf)
}
