package mqttp

func use_uvarintCalc(x uint32) int { return vUvLen(uint64(x)) }

// hLemmaUvCalc verifies it.
func hLemmaUvCalc(tag string, x uint32) {
	vReach("lemma")
	vAssert(tag+".calc", uvarintCalc(x) == vUvLen(uint64(x)))
}
