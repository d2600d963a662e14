package mqttp

func VerifyC15_LemmaLP(buf []byte, b []byte) { hLemmaLP("C15.lp", buf, b) }
