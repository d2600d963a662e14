package mqttp

// C06: length-prefixed fields.

func VerifyC06_Write(buf []byte, b []byte) {
	vCut(1, "C06.ends")
	old := string(buf)
	src := string(b)
	n, err := WriteLPBytes(buf, b)
	vAssert("C06.write.src-unchanged", string(b) == src)
	if len(src) > 65535 {
		vReach("toolong")
		vAssert("C06.write.toolong", err == ErrInvalidLPStringSize)
		vAssert("C06.write.toolong-untouched", string(buf) == old)
		return
	}
	if len(old) < 2+len(src) {
		vReach("short")
		vAssert("C06.write.short", err == ErrInsufficientBufferSize && n == 2+len(src))
		vAssert("C06.write.short-untouched", string(buf) == old)
		return
	}
	vReach("ok")
	vAssert("C06.write.ok", err == nil && n == 2+len(src))
	vAssert("C06.write.prefix", int(buf[0])*256+int(buf[1]) == len(src))
	vAssert("C06.write.body", string(buf[2:n]) == src)
	vAssert("C06.write.tail", string(buf[n:]) == old[n:])
}

func VerifyC06_Read(buf []byte) {
	vCut(1, "C06.ends")
	old := string(buf)
	b, n, err := ReadLPBytes(buf)
	vAssert("C06.read.frame", string(buf) == old)
	if len(old) < 2 {
		vReach("tiny")
		vAssert("C06.read.tiny", err == ErrInsufficientDataSize && len(b) == 0)
		return
	}
	l := int(old[0])*256 + int(old[1])
	if len(old) < 2+l {
		vReach("short")
		vAssert("C06.read.short", err == ErrInsufficientDataSize && len(b) == 0)
		return
	}
	vReach("ok")
	vAssert("C06.read.ok", err == nil && n == 2+l)
	vAssert("C06.read.body", string(b) == old[2:2+l])
}
