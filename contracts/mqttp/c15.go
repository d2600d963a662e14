package mqttp

import "unicode/utf8"

// C15: what an accepted CONNECT looked like on the wire.

// hReader reads the packet independently of the code; running past the end
// fails the property (an accepted packet holds all of its fields).
type hReader struct {
	b  []byte
	at int
}

func (r *hReader) u8() byte {
	vAssert("C15.inside", r.at+1 <= len(r.b))
	x := r.b[r.at]
	r.at++
	return x
}

func (r *hReader) u16() int {
	vAssert("C15.inside", r.at+2 <= len(r.b))
	x := int(r.b[r.at])*256 + int(r.b[r.at+1])
	r.at += 2
	return x
}

func (r *hReader) text() []byte {
	n := r.u16()
	vAssert("C15.inside", r.at+n <= len(r.b))
	s := r.b[r.at : r.at+n]
	r.at += n
	return s
}

// section steps over a property section the code decoded (C10: it is as long as that).
func (r *hReader) section(m IFace) {
	p := &m.getHeader().properties
	if vSymbolic() {
		r.at += p.FullLen()
		vAssert("C15.inside", r.at <= len(r.b))
		return
	}
	_, w := uvarint(r.b[r.at:])
	l, _ := uvarint(r.b[r.at:])
	r.at += w + int(l)
}

// hDecodeConnect decodes an arbitrary CONNECT frame.
func hDecodeConnect(v byte, buf []byte) (*Connect, *hReader) {
	vUse("property__decode")
	hPropPanics = true
	vAssume(len(buf) >= 1 && buf[0]>>4 == 1)
	m, n, err := Decode(ProtocolVersion(v), buf)
	if err != nil {
		vAssert("C15.refused", m == nil)
		return nil, nil
	}
	c, ok := m.(*Connect)
	vAssert("C15.type", ok)
	w, l := hRemLen(buf)
	vAssert("C15.frame", w >= 1 && n == 1+w+l && len(buf) == n)
	return c, &hReader{buf, 1 + w}
}

// The variable header: name, level, flags, keep alive.
func hConnHead(c *Connect, r *hReader) byte {
	name := r.text()
	level := r.u8()
	if level == 3 {
		vReach("v31")
		vAssert("C15.name", string(name) == "MQIsdp")
	} else {
		vReach("v311")
		vAssert("C15.level", level == 4 || level == 5)
		vAssert("C15.name", string(name) == "MQTT")
	}
	vAssert("C15.version", byte(c.Version()) == level)
	f := r.u8()
	vAssert("C15.flags.reserved", f&1 == 0)
	vAssert("C15.flags.willqos", f&0x18 != 0x18)
	vAssert("C15.flags.nowill", f&4 != 0 || f&0x38 == 0)
	vAssert("C15.flags.password", level == 5 || f&0xC0 != 0x40)
	vAssert("C15.clean", c.IsClean() == (f&2 != 0))
	vAssert("C15.keepalive", int(c.KeepAlive()) == r.u16())
	if level == 5 {
		r.section(c)
	}
	return f
}

func VerifyC15_Header(v byte, buf []byte) {
	c, r := hDecodeConnect(v, buf)
	if c != nil {
		hConnHead(c, r)
	}
}

// The payload, for each level: buf is the frame around an arbitrary rest.
func VerifyC15_V31(v byte, flags byte, rest []byte, buf []byte) {
	hConnPayload(v, 3, "MQIsdp", flags, rest, buf)
}

func VerifyC15_V311(v byte, flags byte, rest []byte, buf []byte) {
	hConnPayload(v, 4, "MQTT", flags, rest, buf)
}

func VerifyC15_V5(v byte, flags byte, rest []byte, buf []byte) {
	hConnPayload(v, 5, "MQTT", flags, rest, buf)
}

func hConnPayload(v, level byte, name string, flags byte, rest, buf []byte) {
	hUvarint()
	rl := 4 + len(name) + len(rest)
	vAssume(rl <= 268435455)
	fw := vUvLen(uint64(rl))
	buf = hExact(buf, 1+fw+rl)
	vAssume(len(buf) == 1+fw+rl)
	buf[0] = 0x10
	copy(buf[1:], vUvBytes(uint64(rl)))
	WriteLPBytes(buf[1+fw:], []byte(name))
	at := 3 + fw + len(name)
	buf[at], buf[at+1] = level, flags
	copy(buf[at+2:], rest)

	vUse("property__decode")
	hPropPanics = true
	m, n, err := Decode(ProtocolVersion(v), buf)
	if err != nil {
		return
	}
	c, ok := m.(*Connect)
	vAssert("C15.type", ok && n == len(buf))
	r := &hReader{rest, 0}
	f := flags
	vAssert("C15.keepalive", int(c.KeepAlive()) == r.u16())
	if level == 5 {
		r.section(c)
	}
	cid := r.text()
	vAssert("C15.cid", vBytesEq(c.ClientID(), cid))
	vAssert("C15.cid.legal", utf8.Valid(cid) && vRegex(`^[0-9a-zA-Z \-_,.|/]*$`, cid))
	vAssert("C15.cid.clean", len(cid) != 0 || level == 5 || f&2 != 0)
	w := c.Will()
	if f&4 != 0 {
		vReach("will")
		vAssert("C15.will", w != nil)
		vAssert("C15.will.flags", byte(w.QoS()) == f>>3&3 && w.Retain() == (f&0x20 != 0) && !w.Dup())
		vAssert("C15.will.version", w.Version() == c.Version())
		if level == 5 {
			r.section(w)
			vAssert("C15.will.props", w.PropertyGet(PropertySubscriptionIdentifier) == nil && w.PropertyGet(PropertyTopicAlias) == nil)
		}
		vAssert("C15.will.topic", w.Topic() == string(r.text()))
		vAssert("C15.will.payload", vBytesEq(w.Payload(), r.text()))
	} else {
		vReach("nowill")
		vAssert("C15.will.none", w == nil)
	}
	user, pass := c.Credentials()
	if f&0x80 != 0 {
		vReach("user")
		u := r.text()
		vAssert("C15.user", vBytesEq(user, u))
		vAssert("C15.user.legal", utf8.Valid(u) && vRegex("^[^\u0000-\u001F\u007F-\u009F]*$", u))
	} else {
		vAssert("C15.user.none", len(user) == 0)
	}
	if f&0x40 != 0 {
		vReach("pass")
		vAssert("C15.pass", vBytesEq(pass, r.text()))
	} else {
		vAssert("C15.pass.none", len(pass) == 0)
	}
	vAssert("C15.end", r.at == len(rest))
}
