package mqttp

func VerifyC01_LemmaUvCalc(x uint32) { hLemmaUvCalc("C01.uvarint", x) }
