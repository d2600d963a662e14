package mqttp

func VerifyC19_LemmaUvCalc(x uint32) { hLemmaUvCalc("C19.uvarint", x) }
