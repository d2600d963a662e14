package mqttp

func VerifyC18_LemmaUvCalc(x uint32) { hLemmaUvCalc("C18.uvarint", x) }
