package mqttp

func VerifyC03_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C03.uvarint", x, buf) }
