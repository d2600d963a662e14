package mqttp

func VerifyC18_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C18.uvarint", x, buf) }
