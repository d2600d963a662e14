package mqttp

// C15: the reject code of each violation of the connect flags.

// hFlagsCode is the code MQTT prescribes; ok is false when the flags are legal.
// (A packet violating two rules may be refused for either.)
func hFlagsCode(level, f byte, code ReasonCode) (bool, bool) {
	if level == 5 {
		if f&1 != 0 || f&0x18 == 0x18 || f&4 == 0 && f&0x38 != 0 {
			return true, code == CodeMalformedPacket
		}
		return false, false
	}
	bad, is := false, false
	if f&1 != 0 || f&0x18 == 0x18 || f&4 == 0 && f&0x38 != 0 {
		bad, is = true, code == CodeRefusedServerUnavailable
	}
	if f&0xC0 == 0x40 {
		bad, is = true, is || code == CodeRefusedBadUsernameOrPassword
	}
	return bad, is
}

func hConnBody(level, flags byte, rest []byte) []byte {
	name := "MQTT"
	if level == 3 {
		name = "MQIsdp"
	}
	body := append([]byte{0, byte(len(name))}, name...)
	body = append(body, level, flags)
	return append(body, rest...)
}

func VerifyC15_Codes(v byte, level byte, flags byte, keep uint16, rest []byte) {
	vAssume(v >= 3 && v <= 5 && level >= 3 && level <= 5)
	vUse("property__decode")
	body := hConnBody(byte(vForkInt(int(level), 3, 5)), flags, append([]byte{byte(keep >> 8), byte(keep)}, rest...))
	_, err := NewConnect(ProtocolVersion(v)).decodeMessage(body)
	code, _ := err.(ReasonCode)
	bad, is := hFlagsCode(level, flags, code)
	if bad {
		vReach("refused")
		vAssert("C15.code", err != nil && is)
	}
}

// An empty client identifier needs a clean session below version 5.
func VerifyC15_CodeEmptyID(v byte, v31 bool, flags byte, keep uint16, rest []byte) {
	vAssume(v >= 3 && v <= 5)
	level := byte(4)
	if v31 {
		level = 3
	}
	bad, _ := hFlagsCode(level, flags, 0)
	vAssume(!bad && flags&2 == 0)
	body := hConnBody(level, flags, append([]byte{byte(keep >> 8), byte(keep), 0, 0}, rest...))
	_, err := NewConnect(ProtocolVersion(v)).decodeMessage(body)
	vReach("refused")
	vAssert("C15.code.emptyid", err == CodeRefusedIdentifierRejected)
}

// The same through Decode, which reports Malformed Packet when bytes are left.
func VerifyC15_CodesDecode(v byte, level byte, flags byte, more bool, keep uint16) {
	vAssume(v >= 3 && v <= 5 && level >= 3 && level <= 5)
	var rest []byte
	if more {
		rest = []byte{byte(keep >> 8), byte(keep), 0, 0, 0}
	}
	body := hConnBody(byte(vForkInt(int(level), 3, 5)), flags, rest)
	m, _, err := Decode(ProtocolVersion(v), append([]byte{0x10, byte(len(body))}, body...))
	code, _ := err.(ReasonCode)
	bad, is := hFlagsCode(level, flags, code)
	if bad {
		vReach("refused")
		vAssert("C15.decode.code", m == nil && err != nil && (is || code == CodeMalformedPacket))
	}
}
