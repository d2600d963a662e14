package mqttp

// Contracts of the variable byte integer functions. vUvBytes(x) is the base-128
// encoding of x as one sequence with symbolic length vUvLen(x).

func vUvLen(x uint64) int {
	switch {
	case x < 1<<7:
		return 1
	case x < 1<<14:
		return 2
	case x < 1<<21:
		return 3
	case x < 1<<28:
		return 4
	case x < 1<<35:
		return 5
	}
	n := 6
	for x >>= 42; x > 0; x >>= 7 {
		n++
	}
	return n
}

func vUvBytes(x uint64) []byte {
	b := make([]byte, 0, 10)
	for n := vUvLen(x); n > 1; n-- {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

// vUvPrefix recognises an encoding produced by vUvBytes at the start of b.
func vUvPrefix(b []byte) (uint64, bool) { return 0, false }

// hUvarint switches the contracts of the integers and length-prefixed fields on.
func hUvarint() {
	vUse("binary_PutUvarint")
	vUse("uvarintCalc")
	vUse("uvarint")
	vUse("WriteLPBytes")
	vUse("ReadLPBytes")
}
