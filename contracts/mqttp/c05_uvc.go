package mqttp

func VerifyC05_LemmaUvCalc(x uint32) { hLemmaUvCalc("C05.uvarint", x) }
