package mqttp

import "encoding/binary"

func use_binary_PutUvarint(buf []byte, x uint64) int {
	w := vUvLen(x)
	_ = buf[w-1]
	copy(buf, vUvBytes(x))
	return w
}

func use_uvarint(buf []byte) (uint32, int) {
	if x, ok := vUvPrefix(buf); ok && x < 1<<28 {
		return uint32(x), vUvLen(x)
	}
	return uvarint(buf)
}

// hLemmaUvarint verifies them for one value, buffer and continuation.
func hLemmaUvarint(tag string, x uint32, buf []byte) {
	if x >= 1<<28 || len(buf) < vUvLen(uint64(x)) {
		return
	}
	old := string(buf)
	w := binary.PutUvarint(buf, uint64(x))
	vReach("lemma")
	vAssert(tag+".put", w == vUvLen(uint64(x)) && string(buf[w:]) == old[w:])
	vAssert(tag+".put.bytes", vBytesEq(buf[:w], vUvBytes(uint64(x))))
	y, n := uvarint(buf)
	vAssert(tag+".get", y == x && n == w)
}
