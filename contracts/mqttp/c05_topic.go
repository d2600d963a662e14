package mqttp

func VerifyC05_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C05.newtopic", k, a, b) }
