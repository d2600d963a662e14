package mqttp

func VerifyC18_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C18.newtopic", k, a, b) }
