package mqttp

func VerifyC05_LemmaLP(buf []byte, b []byte) { hLemmaLP("C05.lp", buf, b) }
