package mqttp

func VerifyC13_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C13.newtopic", k, a, b) }
