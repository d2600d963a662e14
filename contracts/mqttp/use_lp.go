package mqttp

// Contracts of the length-prefixed field functions (C06).

func use_WriteLPBytes(buf []byte, b []byte) (int, error) {
	if len(b) > 65535 {
		return 0, ErrInvalidLPStringSize
	}
	if len(buf) < 2+len(b) {
		return 2 + len(b), ErrInsufficientBufferSize
	}
	buf[0], buf[1] = byte(len(b)>>8), byte(len(b))
	copy(buf[2:], b)
	return 2 + len(b), nil
}

func use_ReadLPBytes(buf []byte) ([]byte, int, error) {
	if len(buf) >= 2 {
		n := int(buf[0])<<8 | int(buf[1])
		if len(buf) >= 2+n {
			return buf[2 : 2+n], 2 + n, nil
		}
	}
	n := vFreshInt()
	vAssume(n >= 0 && n <= 2 && n <= len(buf))
	return nil, n, ErrInsufficientDataSize
}

// hLemmaLP verifies them for one buffer and field.
func hLemmaLP(tag string, buf, b []byte) {
	vCut(1, "")
	old, src := string(buf), string(b)
	f, r, rerr := ReadLPBytes(buf)
	vAssert(tag+".read.frame", string(buf) == old)
	if len(old) < 2 || len(old) < 2+int(old[0])*256+int(old[1]) {
		vReach("readshort")
		vAssert(tag+".read.short", rerr == ErrInsufficientDataSize && len(f) == 0 && r >= 0 && r <= 2 && r <= len(old))
	} else {
		vReach("read")
		vAssert(tag+".read", rerr == nil && r == 2+int(old[0])*256+int(old[1]) && string(f) == old[2:r])
	}
	n, err := WriteLPBytes(buf, b)
	vAssert(tag+".write.source", string(b) == src)
	switch {
	case len(src) > 65535:
		vReach("toolong")
		vAssert(tag+".write.toolong", n == 0 && err == ErrInvalidLPStringSize && string(buf) == old)
	case len(old) < 2+len(src):
		vReach("writeshort")
		vAssert(tag+".write.short", n == 2+len(src) && err == ErrInsufficientBufferSize && string(buf) == old)
	default:
		vReach("written")
		vAssert(tag+".write", n == 2+len(src) && err == nil && int(buf[0])*256+int(buf[1]) == len(src))
		vAssert(tag+".write.bytes", string(buf[2:n]) == src && string(buf[n:]) == old[n:])
	}
}
