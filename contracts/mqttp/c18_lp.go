package mqttp

func VerifyC18_LemmaLP(buf []byte, b []byte) { hLemmaLP("C18.lp", buf, b) }
