package mqttp

func VerifyC04_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C04.uvarint", x, buf) }
