package mqttp

func VerifyC03_LemmaLP(buf []byte, b []byte) { hLemmaLP("C03.lp", buf, b) }
