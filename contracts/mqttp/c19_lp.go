package mqttp

func VerifyC19_LemmaLP(buf []byte, b []byte) { hLemmaLP("C19.lp", buf, b) }
