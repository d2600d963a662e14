package mqttp

func VerifyC17_LemmaUvCalc(x uint32) { hLemmaUvCalc("C17.uvarint", x) }
