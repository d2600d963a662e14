package mqttp

func VerifyC01_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C01.uvarint", x, buf) }
