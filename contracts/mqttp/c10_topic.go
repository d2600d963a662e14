package mqttp

func VerifyC10_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C10.newtopic", k, a, b) }
