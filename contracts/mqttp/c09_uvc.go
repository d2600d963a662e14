package mqttp

func VerifyC09_LemmaUvCalc(x uint32) { hLemmaUvCalc("C09.uvarint", x) }
