package mqttp

import "reflect"

// C10: decoding a property section.

// Any bytes: what is accepted.
func VerifyC10_Section(t byte, sect []byte) {
	vAssume(t <= 15)
	vCut(0, "C10.ends")
	vMapSpec(int(t))
	old := string(sect)
	var p property
	p.reset()
	n, err := p.decode(Type(t), sect)
	vAssert("C10.frame", string(sect) == old)
	if err != nil {
		vReach("rejected")
		vAssert("C10.code", err == CodeMalformedPacket || err == CodeProtocolError)
		vAssert("C10.inside", n >= 0 && n <= len(sect))
		return
	}
	vReach("accepted")
	w, l := hRemLen(append([]byte{0}, sect...))
	vAssert("C10.length", w >= 1 && w == hVarLen(l))
	vAssert("C10.consumed", n == w+l)
	vAssert("C10.len", p.len == l)
	vAssert("C10.entries", vMapLenProps(p.properties) == l)
	vAssert("C10.legal", vMapLegalProps(p.properties, Type(t)))
}

// hEntry is one property on the wire.
func hEntry(id byte, kind int, n uint32, s, k []byte) []byte {
	e := []byte{id}
	switch kind {
	case 0:
		e = append(e, byte(n))
	case 1:
		e = append(e, byte(n>>8), byte(n))
	case 2:
		e = append(e, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	case 3:
		e = append(e, vUvBytes(uint64(n))...)
	case 4, 6:
		e = append(append(e, byte(len(s)>>8), byte(len(s))), s...)
	case 5:
		e = append(append(e, byte(len(k)>>8), byte(len(k))), k...)
		e = append(append(e, byte(len(s)>>8), byte(len(s))), s...)
	}
	return e
}

// hPre is an arbitrary state of a section decoder: the properties decoded so far.
func hPre(t byte) *property {
	p := &property{}
	p.reset()
	if vSymbolic() {
		vMapSpec(int(t))
		m := vFreshMapProps()
		vAssume(vMapLegalProps(m, Type(t)))
		p.properties = m
		p.len = vMapLenProps(m)
		return p
	}
	m, err := New(ProtocolV50, Type(t))
	vAssume(err == nil)
	hRandProps(m, Type(t))
	for id, v := range hProps(m) {
		if x, ok := v.(StringPair); ok { // the way the decoder keeps it
			v = []StringPair{x}
		}
		p.properties[id] = v
	}
	p.len = m.getHeader().properties.len
	return p
}

// One more legal entry in any state: a second value of a property that occurs once
// is a protocol error, everything else is stored, lists grow at their end, and
// the other properties stay.
func VerifyC10_Entry(t byte, id byte, kind byte, n uint32, s []byte, k []byte, other byte, i uint16) {
	hUvarint()
	kd := vForkInt(int(kind), 0, 6)
	t, id, kd, n, s, k = hNearLegal(t, id, kd, n, s, k)
	vAssume(kd >= 0 && kd <= 6 && t >= 1 && t <= 15 && other != id)
	hLegalVal(t, id, kd, n, s, k)
	p := hPre(t)
	olen := p.len
	prev, had := p.properties[PropertyID(id)]
	oprev, ohad := p.properties[PropertyID(other)]
	var pairs []StringPair
	var ints []uint32
	if had && hPropRepeat(uint32(id), t) {
		switch x := prev.(type) {
		case []StringPair:
			pairs = x
		case []uint32:
			ints = x
		case uint32:
			ints = []uint32{x}
		}
	}
	entry := hEntry(id, kd, n, s, k)
	vAssume(len(entry) < 1<<28)
	buf := append(vUvBytes(uint64(len(entry))), entry...)
	c, err := p.decode(Type(t), buf)
	if had && !hPropRepeat(uint32(id), t) {
		vReach("repeated")
		vAssert("C10.repeated", err == CodeProtocolError)
		return
	}
	vAssert("C10.entry.accepted", err == nil && c == len(buf))
	vAssert("C10.entry.len", p.len == olen+len(entry))
	got, ok := p.properties[PropertyID(id)]
	vAssert("C10.entry.present", ok)
	switch {
	case kd == 5:
		l, isList := got.([]StringPair)
		vAssert("C10.entry.pairs", isList && len(l) == len(pairs)+1)
		if had {
			vReach("pairs")
		}
		vAssert("C10.entry.pair", l[len(pairs)].K == string(k) && l[len(pairs)].V == string(s))
		if int(i) < len(pairs) {
			vAssert("C10.entry.order", l[i].K == pairs[i].K && l[i].V == pairs[i].V)
		}
	case had:
		vReach("ints")
		l, isList := got.([]uint32)
		vAssert("C10.entry.ints", isList && len(l) == len(ints)+1 && l[len(ints)] == n)
		if int(i) < len(ints) {
			vAssert("C10.entry.order", l[i] == ints[i])
		}
	default:
		vReach("single")
		vAssert("C10.entry.value", hValSame(kd, n, s, k, got))
	}
	now, ohas := p.properties[PropertyID(other)]
	vAssert("C10.entry.other", ohas == ohad && (!ohad || hSameVal(now, oprev)))
}

// hSameVal: the same property value.
func hSameVal(a, b interface{}) bool {
	if vSymbolic() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// Two entries from the empty state, in one section.
func VerifyC10_Two(t byte, id byte, kind byte, n uint32, s []byte, k []byte, id2 byte, str bool, n2 byte, s2 []byte, buf []byte) {
	hLemmaProp2("C10.two", t, id, kind, n, s, k, id2, str, n2, s2, buf)
}
