package mqttp

func VerifyC10_LemmaUvCalc(x uint32) { hLemmaUvCalc("C10.uvarint", x) }
