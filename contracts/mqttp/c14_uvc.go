package mqttp

func VerifyC14_LemmaUvCalc(x uint32) { hLemmaUvCalc("C14.uvarint", x) }
