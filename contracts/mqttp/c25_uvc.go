package mqttp

func VerifyC25_LemmaUvCalc(x uint32) { hLemmaUvCalc("C25.uvarint", x) }
