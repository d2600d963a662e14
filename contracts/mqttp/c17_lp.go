package mqttp

func VerifyC17_LemmaLP(buf []byte, b []byte) { hLemmaLP("C17.lp", buf, b) }
