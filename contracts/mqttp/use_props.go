package mqttp

import "reflect"

// Abstract contracts of the property section codec, used by the packet level
// harnesses (vUse("property__encode"), vUse("property__decode")). The functions
// are verified against these contracts by the C09/C10 harnesses.

// An arbitrary property map; natively never called.
func vFreshMapProps() map[PropertyID]interface{} { return map[PropertyID]interface{}{} }

// vMapLenProps is the number of bytes the entries of m occupy on the wire.
func vMapLenProps(m map[PropertyID]interface{}) int {
	n := 0
	for id, v := range m {
		n += spec_MapLen(id, v)
	}
	return n
}

// vMapFitsProps: every string and binary value fits its two-byte length prefix.
func vMapFitsProps(m map[PropertyID]interface{}) bool { return true }

// vMapLegalProps: m is a legal property set of packet type t.
func vMapLegalProps(m map[PropertyID]interface{}, t Type) bool {
	for id, v := range m {
		if !spec_MapOK(int(t), id, v) {
			return false
		}
	}
	return true
}

// vMapBytesProps is the property section (length and entries) of m.
func vMapBytesProps(m map[PropertyID]interface{}) []byte { return nil }

// vMapPrefixProps recognises the section of a known map at the start of b.
func vMapPrefixProps(b []byte) (map[PropertyID]interface{}, bool) { return nil, false }

// vMapSameProps: equal contents (a single StringPair equals the list holding it).
func vMapSameProps(a, b map[PropertyID]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	norm := func(v interface{}) interface{} {
		switch x := v.(type) {
		case StringPair:
			return []StringPair{x}
		case []uint32:
			if len(x) == 1 {
				return x[0]
			}
		case []byte:
			if len(x) == 0 {
				return []byte{}
			}
		}
		return v
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !reflect.DeepEqual(norm(v), norm(w)) {
			return false
		}
	}
	return true
}

func use_property__encode(p *property, to []byte) (int, error) {
	full := p.FullLen()
	if full > len(to) {
		return 0, ErrInsufficientBufferSize
	}
	if !vMapFitsProps(p.properties) {
		// a value that does not fit its two-byte length prefix
		n := vFreshInt()
		vAssume(n >= 0 && n <= full)
		copy(to[:n], vFreshBytes())
		return n, ErrInvalidLPStringSize
	}
	copy(to, vMapBytesProps(p.properties))
	return full, nil
}

// hPropPanics allows the section decoder to panic (Decode recovers).
var hPropPanics bool

// hMemo makes the section decoder a function: the same bytes give the same answer.
type hMemoT struct {
	on, set bool
	t       Type
	from    []byte
	n, len  int
	m       map[PropertyID]interface{}
	err     error
}

var hMemo hMemoT

func use_property__decode(p *property, t Type, from []byte) (int, error) {
	if !hMemo.on {
		return hDecodeSection(p, t, from)
	}
	if hMemo.set {
		if hMemo.t == t && vBytesEq(hMemo.from, from) {
			p.properties, p.len = hMemo.m, hMemo.len
			return hMemo.n, hMemo.err
		}
		return hDecodeSection(p, t, from)
	}
	n, err := hDecodeSection(p, t, from)
	hMemo.set, hMemo.t, hMemo.from = true, t, from
	hMemo.n, hMemo.err, hMemo.m, hMemo.len = n, err, p.properties, p.len
	return n, err
}

func hDecodeSection(p *property, t Type, from []byte) (int, error) {
	if hPropPanics && vFreshBool() {
		panic("property section")
	}
	if m, ok := vMapPrefixProps(from); ok && vMapLegalProps(m, t) {
		n := len(vMapBytesProps(m))
		p.properties = m
		p.len = vMapLenProps(m)
		return n, nil
	}
	n := vFreshInt()
	vAssume(n >= 0 && n <= len(from))
	m := vFreshMapProps()
	p.properties = m
	if vFreshBool() {
		p.len = vFreshInt()
		if vFreshBool() {
			return n, CodeMalformedPacket
		}
		return n, CodeProtocolError
	}
	vAssume(n >= 1 && vMapLegalProps(m, t))
	p.len = vMapLenProps(m)
	vAssume(n == p.FullLen())
	return n, nil
}

// hArbProps gives a packet arbitrary properties satisfying the length invariant
// (C09); natively a few random ones.
func hArbProps(m IFace) {
	h := m.getHeader()
	if m.Version() < ProtocolV50 && vFreshBool() {
		return // has never been a version 5 packet
	}
	if vSymbolic() {
		vUse("property__encode")
		vUse("property__decode")
		p := vFreshMapProps()
		vAssume(vMapLegalProps(p, m.Type()))
		h.properties.properties = p
		h.properties.len = vMapLenProps(p)
		return
	}
	v := m.Version()
	m.SetVersion(ProtocolV50)
	hRandProps(m, m.Type())
	m.SetVersion(v)
}

// hProps is the property map of a packet.
func hProps(m IFace) map[PropertyID]interface{} { return m.getHeader().properties.properties }

// hRandProps sets random legal properties (native runs only).
func hRandProps(m IFace, t Type) {
	vInitRng()
	n := vRng.Intn(hMaxProps + 1)
	for i := 0; i < n; i++ {
		id := uint32(vRng.Intn(0x2B))
		if !hPropAllowed(id, byte(t)) {
			id = 0x26
		}
		m.PropertySet(PropertyID(id), hRandValue(id, byte(t)))
	}
}

func hRandText() string {
	vInitRng()
	if vRng.Intn(3) == 0 {
		return []string{"", "a", "b"}[vRng.Intn(3)]
	}
	l := vRng.Intn(6)
	if vRng.Intn(20) == 0 {
		l = 100 + vRng.Intn(300)
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = "abcxyz/ 09"[vRng.Intn(10)]
	}
	return string(b)
}

func hRandValue(id uint32, t byte) interface{} {
	vInitRng()
	switch hPropKind(id) {
	case 0:
		return byte(vRng.Intn(2))
	case 1:
		return uint16(1 + vRng.Intn(65535))
	case 2:
		return uint32(vDraw())
	case 3:
		if hPropRepeat(id, t) && vRng.Intn(2) == 0 {
			l := make([]uint32, 1+vRng.Intn(3))
			for i := range l {
				l[i] = 1 + uint32(vDraw()%268435455)
			}
			return l
		}
		return 1 + uint32(vDraw()%268435455)
	case 4:
		return hRandText()
	case 5:
		if vRng.Intn(2) == 0 {
			l := make([]StringPair, 1+vRng.Intn(5))
			for i := range l {
				l[i] = StringPair{K: hRandText(), V: hRandText()}
			}
			return l
		}
		return StringPair{K: hRandText(), V: hRandText()}
	}
	return []byte(hRandText())
}

// hPropSection is an arbitrary legal property set of packet type t.
func hPropSection(t byte) *property {
	if vSymbolic() {
		p := &property{properties: vFreshMapProps()}
		vAssume(vMapLegalProps(p.properties, Type(t)))
		p.len = vMapLenProps(p.properties)
		return p
	}
	m, err := New(ProtocolV50, Type(t))
	vAssume(err == nil)
	hRandProps(m, Type(t))
	return &m.getHeader().properties
}
