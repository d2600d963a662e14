package mqttp

// vUFInt and vUFBool are unspecified functions of a byte sequence; never called natively.
func vUFInt(name string, b []byte) int   { return 0 }
func vUFBool(name string, b []byte) bool { return false }
