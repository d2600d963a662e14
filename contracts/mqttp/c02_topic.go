package mqttp

func VerifyC02_LemmaTopic(k byte, a []byte, b []byte) { hLemmaTopic("C02.newtopic", k, a, b) }
