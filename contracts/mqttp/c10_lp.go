package mqttp

func VerifyC10_LemmaLP(buf []byte, b []byte) { hLemmaLP("C10.lp", buf, b) }
