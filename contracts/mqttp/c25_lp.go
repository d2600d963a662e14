package mqttp

func VerifyC25_LemmaLP(buf []byte, b []byte) { hLemmaLP("C25.lp", buf, b) }
