package mqttp

func VerifyC09_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C09.uvarint", x, buf) }
