package mqttp

func VerifyC26_LemmaLP(buf []byte, b []byte) { hLemmaLP("C26.lp", buf, b) }
