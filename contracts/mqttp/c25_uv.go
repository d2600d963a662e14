package mqttp

func VerifyC25_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C25.uvarint", x, buf) }
