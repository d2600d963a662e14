package mqttp

func VerifyC14_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C14.uvarint", x, buf) }
