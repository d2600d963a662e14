package mqttp

func VerifyC04_LemmaUvCalc(x uint32) { hLemmaUvCalc("C04.uvarint", x) }
