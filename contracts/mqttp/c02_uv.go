package mqttp

func VerifyC02_LemmaUvarint(x uint32, buf []byte) { hLemmaUvarint("C02.uvarint", x, buf) }
