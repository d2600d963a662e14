package mqttp

func VerifyC26_LemmaUvCalc(x uint32) { hLemmaUvCalc("C26.uvarint", x) }
