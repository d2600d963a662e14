package mqttp

func VerifyC19_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C19.uvarint", x, buf) }
