package mqttp

func VerifyC03_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C03.newtopic", k, a, b) }
