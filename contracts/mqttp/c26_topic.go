package mqttp

func VerifyC26_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C26.newtopic", k, a, b) }
