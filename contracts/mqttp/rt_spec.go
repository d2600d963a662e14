package mqttp

// Specification functions: an independent transcription of the MQTT tables.
// They are executable Go and have no side effects.

// hPropKind is the wire type of an MQTT 5 property (table 2-4):
// 0 byte, 1 two byte integer, 2 four byte integer, 3 variable byte integer,
// 4 UTF-8 string, 5 UTF-8 string pair, 6 binary data, -1 not a property.
func hPropKind(id uint32) int {
	switch id {
	case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
		return 0
	case 0x13, 0x21, 0x22, 0x23:
		return 1
	case 0x02, 0x11, 0x18, 0x27:
		return 2
	case 0x0B:
		return 3
	case 0x03, 0x08, 0x12, 0x15, 0x1A, 0x1C, 0x1F:
		return 4
	case 0x26:
		return 5
	case 0x09, 0x16:
		return 6
	}
	return -1
}

// hPropAllowed tells whether a property may appear in a packet of type t
// (will properties count as PUBLISH), hPropRepeat whether it may repeat there.
func hPropAllowed(id uint32, t byte) bool {
	const (
		connect  = 1 << 1
		connack  = 1 << 2
		publish  = 1 << 3
		puback   = 1 << 4
		pubrec   = 1 << 5
		pubrel   = 1 << 6
		pubcomp  = 1 << 7
		sub      = 1 << 8
		suback   = 1 << 9
		unsub    = 1 << 10
		unsuback = 1 << 11
		disc     = 1 << 14
		auth     = 1 << 15
	)
	var m uint32
	switch id {
	case 0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x23:
		m = publish
	case 0x0B:
		m = publish | sub
	case 0x11:
		m = connect | connack | disc
	case 0x12, 0x13, 0x1A, 0x24, 0x25, 0x28, 0x29, 0x2A:
		m = connack
	case 0x15, 0x16:
		m = connect | connack | auth
	case 0x17, 0x19:
		m = connect
	case 0x1C:
		m = connack | disc
	case 0x1F:
		m = connack | puback | pubrec | pubrel | pubcomp | suback | unsuback | disc | auth
	case 0x21, 0x22, 0x27:
		m = connect | connack
	case 0x26:
		m = connect | connack | publish | puback | pubrec | pubrel | pubcomp | sub | suback | unsub | unsuback | disc | auth
	}
	if t > 15 {
		return false
	}
	return (m>>uint(t))&1 == 1
}

func hPropRepeat(id uint32, t byte) bool {
	if id == 0x26 {
		return hPropAllowed(id, t)
	}
	return id == 0x0B && t == 3
}

// hVarLen is the size of a variable byte integer.
func hVarLen(n int) int {
	if n < 128 {
		return 1
	}
	if n < 16384 {
		return 2
	}
	if n < 2097152 {
		return 3
	}
	return 4
}

// hCodeFor tells whether a reason code is assigned to a packet type
// (CONNACK includes the MQTT 3.1.1 return codes).
func hCodeFor(c byte, t byte) bool {
	switch t {
	case 2:
		switch c {
		case 0, 1, 2, 3, 4, 5, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C,
			0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F:
			return true
		}
	case 4, 5:
		switch c {
		case 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99:
			return true
		}
	case 6, 7:
		return c == 0 || c == 0x92
	case 9:
		switch c {
		case 0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2:
			return true
		}
	case 11:
		switch c {
		case 0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91:
			return true
		}
	case 14:
		switch c {
		case 0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96,
			0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2:
			return true
		}
	case 15:
		return c == 0 || c == 0x18 || c == 0x19
	}
	return false
}

// hCodeV5 tells whether MQTT 5 defines the code (value 0, or 0x10 and above).
func hCodeV5(c byte) bool {
	return c == 0 || c == 0x10 || c == 0x11 || c == 0x18 || c == 0x19 || (c >= 0x80 && c <= 0xA2)
}

// hTypeFlags are the fixed header flags MQTT prescribes (PUBLISH: its default).
func hTypeFlags(t byte) byte {
	if t == 6 || t == 8 || t == 10 {
		return 2
	}
	return 0
}

func hName(t byte) string {
	switch t {
	case 0:
		return "RESERVED"
	case 1:
		return "CONNECT"
	case 2:
		return "CONNACK"
	case 3:
		return "PUBLISH"
	case 4:
		return "PUBACK"
	case 5:
		return "PUBREC"
	case 6:
		return "PUBREL"
	case 7:
		return "PUBCOMP"
	case 8:
		return "SUBSCRIBE"
	case 9:
		return "SUBACK"
	case 10:
		return "UNSUBSCRIBE"
	case 11:
		return "UNSUBACK"
	case 12:
		return "PINGREQ"
	case 13:
		return "PINGRESP"
	case 14:
		return "DISCONNECT"
	case 15:
		return "AUTH"
	}
	return ""
}

// hRemLen decodes the remaining-length field of buf[1:]: width 1..4 and the
// value, 0 when the field is incomplete, -1 when it is longer than four bytes.
func hRemLen(buf []byte) (int, int) {
	if len(buf) < 2 {
		return 0, 0
	}
	if buf[1] < 128 {
		return 1, int(buf[1])
	}
	if len(buf) < 3 {
		return 0, 0
	}
	if buf[2] < 128 {
		return 2, int(buf[1]) - 128 + 128*int(buf[2])
	}
	if len(buf) < 4 {
		return 0, 0
	}
	if buf[3] < 128 {
		return 3, int(buf[1]) - 128 + 128*(int(buf[2])-128) + 16384*int(buf[3])
	}
	if len(buf) < 5 {
		return 0, 0
	}
	if buf[4] < 128 {
		return 4, int(buf[1]) - 128 + 128*(int(buf[2])-128) + 16384*(int(buf[3])-128) + 2097152*int(buf[4])
	}
	return -1, 0
}
