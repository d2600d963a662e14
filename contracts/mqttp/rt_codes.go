package mqttp

// Lists of reason codes of any length.

func all_SubCodes(c ReasonCode) bool   { return hCodeFor(byte(c), 9) }
func all_UnSubCodes(c ReasonCode) bool { return hCodeFor(byte(c), 11) }
func all_V3Codes(c ReasonCode) bool    { return c <= 2 || c == 0x80 }

func vAllSubCodes(l []ReasonCode) bool {
	for _, c := range l {
		if !all_SubCodes(c) {
			return false
		}
	}
	return true
}

func vAllUnSubCodes(l []ReasonCode) bool {
	for _, c := range l {
		if !all_UnSubCodes(c) {
			return false
		}
	}
	return true
}

func vAllV3Codes(l []ReasonCode) bool {
	for _, c := range l {
		if !all_V3Codes(c) {
			return false
		}
	}
	return true
}

// hCodeList is the list of the codes with the given bytes.
func hCodeList(codes []byte) []ReasonCode {
	var l []ReasonCode
	for _, c := range codes {
		l = append(l, ReasonCode(c))
	}
	return l
}

// hCodeBytes is the reverse.
func hCodeBytes(l []ReasonCode) []byte {
	var b []byte
	for _, c := range l {
		b = append(b, byte(c))
	}
	return b
}

// hLegalCodes: every code is legal in a SUBACK (t = 9) or UNSUBACK (t = 11) of the version.
func hLegalCodes(v, t byte, l []ReasonCode) bool {
	switch {
	case v != 5:
		return vAllV3Codes(l)
	case t == 9:
		return vAllSubCodes(l)
	}
	return vAllUnSubCodes(l)
}

// hNearCodes: natively, lists are mostly made legal and now and then long.
func hNearCodes(v, t byte, codes []byte) []byte {
	if vSymbolic() {
		return codes
	}
	vInitRng()
	r := vRng.Intn(40)
	if r < 10 {
		return codes
	}
	codes = append([]byte(nil), codes...)
	if r == 10 {
		codes = append(codes, make([]byte, 65530+vRng.Intn(5000))...)
	} else if r < 14 {
		codes = append(codes, make([]byte, 120+vRng.Intn(300))...)
	}
	for i, c := range codes {
		if !hListCodeOK(v, t, c) {
			codes[i] = []byte{0, 1, 2, 0x80}[vRng.Intn(4)]
			if t == 11 {
				codes[i] = []byte{0, 0x11, 0x80}[vRng.Intn(3)]
			}
		}
	}
	if len(codes) > 0 && r < 17 {
		codes[vRng.Intn(len(codes))] = byte(vRng.Intn(256))
	}
	return codes
}

func hListCodeOK(v, t, c byte) bool {
	if v == 5 {
		return hCodeFor(c, t)
	}
	return c <= 2 || c == 0x80
}

// hRoom: natively, buf with room for n bytes; hExact: of exactly n bytes.
func hRoom(buf []byte, n int) []byte {
	if !vSymbolic() && len(buf) < n {
		return make([]byte, n)
	}
	return buf
}

func hExact(buf []byte, n int) []byte {
	if !vSymbolic() && len(buf) != n {
		return make([]byte, n)
	}
	return buf
}
