package mqttp

func VerifyC17_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C17.uvarint", x, buf) }
