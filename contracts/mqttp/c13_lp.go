package mqttp

func VerifyC13_LemmaLP(buf []byte, b []byte) { hLemmaLP("C13.lp", buf, b) }
