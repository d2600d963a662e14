package mqttp

func VerifyC14_LemmaLP(buf []byte, b []byte) { hLemmaLP("C14.lp", buf, b) }
