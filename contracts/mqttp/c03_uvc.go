package mqttp

func VerifyC03_LemmaUvCalc(x uint32) { hLemmaUvCalc("C03.uvarint", x) }
