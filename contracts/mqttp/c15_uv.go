package mqttp

func VerifyC15_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C15.uvarint", x, buf) }
