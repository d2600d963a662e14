package mqttp

import "unicode/utf8"

// The property section codec on sections with one or two entries of every
// identifier and packet type, against a specification of the wire format.

// hVal makes a property value of the given kind (7 and 8: lists of two).
func hVal(kind int, n uint32, s, k []byte) interface{} {
	switch kind {
	case 0:
		return byte(n)
	case 1:
		return uint16(n)
	case 2, 3:
		return n
	case 4:
		return string(s)
	case 5:
		return StringPair{K: string(k), V: string(s)}
	case 6:
		return s
	case 7:
		return []StringPair{{K: string(k), V: string(s)}, {K: string(s), V: string(k)}}
	case 8:
		return []uint32{n, n / 3}
	}
	return nil
}

// hValKind is the wire kind of hVal.
func hValKind(kind int) int {
	if kind == 7 {
		return 5
	}
	if kind == 8 {
		return 3
	}
	return kind
}

// hValLen is the size of the entries on the wire, identifiers included.
func hValLen(kind int, n uint32, s, k []byte) int {
	switch kind {
	case 0:
		return 2
	case 1:
		return 3
	case 2:
		return 5
	case 3:
		return 1 + hVarLen(int(n))
	case 4, 6:
		return 3 + len(s)
	case 5:
		return 5 + len(k) + len(s)
	case 7:
		return 2 * (5 + len(k) + len(s))
	case 8:
		return 2 + hVarLen(int(n)) + hVarLen(int(n/3))
	}
	return 0
}

// hValSame: got is the value hVal built (a single user property decodes as a list of one).
func hValSame(kind int, n uint32, s, k []byte, got interface{}) bool {
	switch kind {
	case 0:
		x, ok := got.(byte)
		return ok && x == byte(n)
	case 1:
		x, ok := got.(uint16)
		return ok && x == uint16(n)
	case 2, 3:
		x, ok := got.(uint32)
		return ok && x == n
	case 4:
		x, ok := got.(string)
		return ok && x == string(s)
	case 5:
		x, ok := got.([]StringPair)
		return ok && len(x) == 1 && x[0].K == string(k) && x[0].V == string(s)
	case 6:
		x, ok := got.([]byte)
		return ok && vBytesEq(x, s)
	case 7:
		x, ok := got.([]StringPair)
		return ok && len(x) == 2 && x[0].K == string(k) && x[0].V == string(s) && x[1].K == string(s) && x[1].V == string(k)
	case 8:
		x, ok := got.([]uint32)
		return ok && len(x) == 2 && x[0] == n && x[1] == n/3
	}
	return false
}

// hLegalVal assumes a value MQTT allows for the property in packet type t.
func hLegalVal(t byte, id byte, kind int, n uint32, s, k []byte) {
	vAssume(hPropAllowed(uint32(id), t) && hPropKind(uint32(id)) == hValKind(kind))
	vAssume(kind < 7 || hPropRepeat(uint32(id), t))
	switch kind {
	case 0:
		vAssume(n <= 255)
	case 1:
		vAssume(n <= 65535)
	case 3, 8:
		vAssume(n <= 268435455)
	case 4, 5, 7:
		vAssume(len(s) <= 65535 && len(k) <= 65535 && utf8.Valid(s) && utf8.Valid(k))
	case 6:
		vAssume(len(s) <= 65535)
	}
}

// hNearLegal: natively, illegal arguments become legal ones so that the search is not wasted on them.
func hNearLegal(t byte, id byte, kind int, n uint32, s, k []byte) (byte, byte, int, uint32, []byte, []byte) {
	if vSymbolic() {
		return t, id, kind, n, s, k
	}
	vInitRng()
	if t > 15 || !hPropAllowed(uint32(id), t) || kind < 0 || kind > 8 || hPropKind(uint32(id)) != hValKind(kind) {
		if t = 1 + t%15; t >= 12 && t <= 13 {
			t = 3
		}
		for id = byte(vRng.Intn(0x2B)); !hPropAllowed(uint32(id), t); id = byte(vRng.Intn(0x2B)) {
		}
		if vRng.Intn(3) == 0 {
			id = 0x26
		}
		for kind = vRng.Intn(9); hPropKind(uint32(id)) != hValKind(kind) || kind >= 7 && !hPropRepeat(uint32(id), t); kind = vRng.Intn(9) {
		}
	}
	switch {
	case kind == 0:
		n &= 255
	case kind == 1:
		n &= 65535
	case kind == 3 || kind == 8:
		n &= 268435455
	}
	if len(s) > 65535 || !utf8.Valid(s) && kind != 6 {
		s = []byte(hRandText())
	}
	if len(k) > 65535 || !utf8.Valid(k) {
		k = []byte(hRandText())
	}
	return t, id, kind, n, s, k
}

// hLemmaProp1: one property; encode is exact and decode inverts it.
func hLemmaProp1(tag string, t byte, id byte, kind byte, n uint32, s []byte, k []byte, buf []byte) {
	hUvarint()
	kd := vForkInt(int(kind), 0, 8)
	t, id, kd, n, s, k = hNearLegal(t, id, kd, n, s, k)
	vAssume(kd >= 0 && kd <= 8 && t <= 15)
	hLegalVal(t, id, kd, n, s, k)
	var p property
	p.reset()
	vAssert(tag+".set", p.Set(Type(t), PropertyID(id), hVal(kd, n, s, k)) == nil)
	l := hValLen(kd, n, s, k)
	vAssert(tag+".len", p.len == l && p.FullLen() == l+hVarLen(l))
	old := string(buf)
	w, err := p.encode(buf)
	if len(buf) < l+hVarLen(l) {
		vAssert(tag+".short", w == 0 && err == ErrInsufficientBufferSize && string(buf) == old)
		return
	}
	vReach("encoded")
	vAssert(tag+".encode", err == nil && w == l+hVarLen(l))
	vAssert(tag+".tail", string(buf[w:]) == old[w:])
	var q property
	r, derr := q.decode(Type(t), buf[:w])
	vAssert(tag+".decode", derr == nil && r == w)
	vAssert(tag+".decode.len", q.len == p.len)
	got, ok := q.properties[PropertyID(id)]
	vAssert(tag+".value", ok && len(q.properties) == 1 && hValSame(kd, n, s, k, got))
}

// hLemmaProp2: two different properties, in either wire order.
func hLemmaProp2(tag string, t byte, id byte, kind byte, n uint32, s []byte, k []byte, id2 byte, str bool, n2 byte, s2 []byte, buf []byte) {
	hUvarint()
	kd := vForkInt(int(kind), 0, 8)
	vAssume(kd >= 0 && kd <= 8 && t <= 15 && id != id2)
	hLegalVal(t, id, kd, n, s, k)
	kd2 := 0
	if str {
		kd2 = 4
	}
	hLegalVal(t, id2, kd2, uint32(n2), s2, nil)
	var p property
	p.reset()
	vAssert(tag+".set", p.Set(Type(t), PropertyID(id), hVal(kd, n, s, k)) == nil)
	vAssert(tag+".set2", p.Set(Type(t), PropertyID(id2), hVal(kd2, uint32(n2), s2, nil)) == nil)
	l := hValLen(kd, n, s, k) + hValLen(kd2, uint32(n2), s2, nil)
	vAssert(tag+".len", p.len == l)
	buf = hRoom(buf, l+hVarLen(l))
	vAssume(len(buf) >= l+hVarLen(l))
	w, err := p.encode(buf)
	vReach("encoded")
	vAssert(tag+".encode", err == nil && w == l+hVarLen(l))
	var q property
	r, derr := q.decode(Type(t), buf[:w])
	vAssert(tag+".decode", derr == nil && r == w)
	vAssert(tag+".decode.len", q.len == p.len && len(q.properties) == 2)
	got, ok := q.properties[PropertyID(id)]
	vAssert(tag+".value", ok && hValSame(kd, n, s, k, got))
	got, ok = q.properties[PropertyID(id2)]
	vAssert(tag+".value2", ok && hValSame(kd2, uint32(n2), s2, nil, got))
}

// hLemmaPropTooLong: text that does not fit its length prefix.
func hLemmaPropTooLong(tag string, t byte, id byte, kind byte, s []byte, k []byte, buf []byte) {
	hUvarint()
	kd := vForkInt(int(kind), 4, 7)
	vAssume(kd >= 4 && kd <= 7 && t <= 15)
	vAssume(hPropAllowed(uint32(id), t) && hPropKind(uint32(id)) == hValKind(kd))
	vAssume(kd < 7 || hPropRepeat(uint32(id), t))
	vAssume(len(s) > 65535 || (kd == 5 || kd == 7) && len(k) > 65535)
	var p property
	p.reset()
	vAssert(tag+".set", p.Set(Type(t), PropertyID(id), hVal(kd, 0, s, k)) == nil)
	l := hValLen(kd, 0, s, k)
	vAssert(tag+".len", p.len == l)
	vAssume(l <= 268435455 && len(buf) >= l+hVarLen(l)) // larger packets have no size (C03)
	old := string(buf)
	w, err := p.encode(buf)
	vReach("encoded")
	vAssert(tag+".encode", err == ErrInvalidLPStringSize && w >= 0 && w <= l+hVarLen(l))
	vAssert(tag+".tail", string(buf[l+hVarLen(l):]) == old[l+hVarLen(l):])
}
