package mqttp

func VerifyC09_LemmaLP(buf []byte, b []byte) { hLemmaLP("C09.lp", buf, b) }
