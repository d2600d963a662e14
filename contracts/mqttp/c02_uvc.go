package mqttp

func VerifyC02_LemmaUvCalc(x uint32) { hLemmaUvCalc("C02.uvarint", x) }
