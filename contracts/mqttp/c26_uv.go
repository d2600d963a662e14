package mqttp

func VerifyC26_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C26.uvarint", x, buf) }
