package mqttp

func VerifyC04_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C04.newtopic", k, a, b) }
