package mqttp

func VerifyC02_LemmaLP(buf []byte, b []byte) { hLemmaLP("C02.lp", buf, b) }
