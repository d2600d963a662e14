package mqttp

func VerifyC01_LemmaLP(buf []byte, b []byte) { hLemmaLP("C01.lp", buf, b) }
