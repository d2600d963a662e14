package mqttp

func VerifyC13_LemmaUvCalc(x uint32) { hLemmaUvCalc("C13.uvarint", x) }
