package mqttp

func VerifyC13_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C13.uvarint", x, buf) }
