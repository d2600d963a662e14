package mqttp

func VerifyC05_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C05.uvarint", x, buf) }
