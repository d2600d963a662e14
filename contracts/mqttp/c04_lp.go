package mqttp

func VerifyC04_LemmaLP(buf []byte, b []byte) { hLemmaLP("C04.lp", buf, b) }
