package mqttp

func VerifyC15_LemmaUvCalc(x uint32) { hLemmaUvCalc("C15.uvarint", x) }
