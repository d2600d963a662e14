package mqttp

func VerifyC10_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C10.uvarint", x, buf) }
