package mqttp

func VerifyC01_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C01.newtopic", k, a, b) }
