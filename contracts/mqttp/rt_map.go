package mqttp

import "unicode/utf8"

// What a legal entry of a property map is, and how long it is on the wire.
// The verifier attaches these to abstract maps (vMapSpec) and lists.

func sum_Pairs(p StringPair) int { return 5 + len(p.K) + len(p.V) }
func all_Pairs(p StringPair) bool {
	return len(p.K) <= 65535 && len(p.V) <= 65535 && utf8.ValidString(p.K) && utf8.ValidString(p.V)
}
func sum_Ints(x uint32) int  { return 1 + hVarLen(int(x)) }
func all_Ints(x uint32) bool { return x <= 268435455 }

// vSumX and vAllX fold the element functions over a list of any length.
func vSumPairs(l []StringPair) int {
	n := 0
	for _, x := range l {
		n += sum_Pairs(x)
	}
	return n
}

func vAllPairs(l []StringPair) bool {
	for _, x := range l {
		if !all_Pairs(x) {
			return false
		}
	}
	return true
}

func vSumInts(l []uint32) int {
	n := 0
	for _, x := range l {
		n += sum_Ints(x)
	}
	return n
}

func vAllInts(l []uint32) bool {
	for _, x := range l {
		if !all_Ints(x) {
			return false
		}
	}
	return true
}

// spec_MapOK: a decoded packet of type t may hold v for property id. With t = 16:
// a packet of some type under construction may, whose text fits its length prefix.
func spec_MapOK(t int, id PropertyID, v interface{}) bool {
	if t == 16 {
		return hSettable(id, v)
	}
	if !hPropAllowed(uint32(id), byte(t)) {
		return false
	}
	switch hPropKind(uint32(id)) {
	case 0:
		_, ok := v.(byte)
		return ok
	case 1:
		_, ok := v.(uint16)
		return ok
	case 2:
		_, ok := v.(uint32)
		return ok
	case 3:
		if l, ok := v.([]uint32); ok {
			return hPropRepeat(uint32(id), byte(t)) && len(l) >= 2 && vAllInts(l)
		}
		x, ok := v.(uint32)
		return ok && all_Ints(x)
	case 4:
		s, ok := v.(string)
		return ok && len(s) <= 65535 && utf8.ValidString(s)
	case 5:
		l, ok := v.([]StringPair)
		return ok && len(l) >= 1 && vAllPairs(l)
	case 6:
		b, ok := v.([]byte)
		return ok && len(b) <= 65535
	}
	return false
}

// hSettable: PropertySet stores v for property id on some packet (texts that fit).
func hSettable(id PropertyID, v interface{}) bool {
	rep := hPropRepeat(uint32(id), 3)
	switch x := v.(type) {
	case byte:
		return hPropKind(uint32(id)) == 0
	case uint16:
		return hPropKind(uint32(id)) == 1
	case uint32:
		return hPropKind(uint32(id)) == 2 || hPropKind(uint32(id)) == 3 && all_Ints(x)
	case string:
		return hPropKind(uint32(id)) == 4 && len(x) <= 65535
	case []byte:
		return hPropKind(uint32(id)) == 6 && len(x) <= 65535
	case StringPair:
		return hPropKind(uint32(id)) == 5 && fits_Pair(x)
	case []StringPair:
		return hPropKind(uint32(id)) == 5 && rep && vAllFit(x)
	case []uint32:
		return hPropKind(uint32(id)) == 3 && rep && vAllInts(x)
	}
	return false
}

func fits_Pair(p StringPair) bool { return len(p.K) <= 65535 && len(p.V) <= 65535 }
func all_Fit(p StringPair) bool   { return len(p.K) <= 65535 && len(p.V) <= 65535 }
func vAllFit(l []StringPair) bool {
	for _, x := range l {
		if !all_Fit(x) {
			return false
		}
	}
	return true
}

// spec_MapLen: the bytes the entry takes on the wire, identifiers included.
func spec_MapLen(id PropertyID, v interface{}) int {
	switch x := v.(type) {
	case byte:
		return 2
	case uint16:
		return 3
	case uint32:
		if hPropKind(uint32(id)) == 3 {
			return sum_Ints(x)
		}
		return 5
	case string:
		return 3 + len(x)
	case []byte:
		return 3 + len(x)
	case StringPair:
		return sum_Pairs(x)
	case []StringPair:
		return vSumPairs(x)
	case []uint32:
		return vSumInts(x)
	}
	return 0
}
