package mqttp

// Encode refuses a topic that is not valid, however it got there.
func VerifyC17_Encode(v byte, t string, p []byte, qos byte, retain bool, id uint16, buf []byte) {
	hUvarint()
	m := hPublish(v, "t", p, qos, retain, false, id, true)
	m.topic = t
	sz, serr := m.Size()
	buf = hRoom(buf, sz)
	vAssume(serr == nil && len(buf) >= sz)
	_, err := m.Encode(buf)
	if !hTopicOK([]byte(t)) {
		vReach("refused")
		vAssert("C17.encode.refused", err != nil)
	} else if len(t) <= 65535 {
		vReach("ok")
		vAssert("C17.encode.ok", err == nil || v == 5)
	}
}
