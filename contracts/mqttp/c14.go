package mqttp

import "unicode/utf8"

// C14: CONNECT setters and the connect flags.

// hConn is what a CONNECT is expected to hold.
type hConn struct {
	clean      bool
	keep       uint16
	cid        []byte
	user, pass []byte
	will       *Publish
}

func (e *hConn) flags() byte {
	f := byte(0)
	if e.clean {
		f |= 2
	}
	if e.will != nil {
		f |= 4 | byte(e.will.QoS())<<3
		if e.will.Retain() {
			f |= 0x20
		}
	}
	if len(e.pass) != 0 {
		f |= 0x40
	}
	if len(e.user) != 0 {
		f |= 0x80
	}
	return f
}

// hWireFlags reads the connect flags byte the packet puts on the wire.
func hWireFlags(m *Connect, to []byte) byte {
	sz, err := m.Size()
	vAssume(err == nil && len(to) >= sz)
	n, err := m.Encode(to)
	vAssume(err == nil)
	at := n - int(m.RemainingLength()) + 7
	if m.Version() == ProtocolV31 {
		at += 2
	}
	return to[at]
}

func hConnIs(tag string, m *Connect, e *hConn) {
	vAssert(tag+".clean", m.IsClean() == e.clean)
	vAssert(tag+".keep", m.KeepAlive() == e.keep)
	vAssert(tag+".cid", vBytesEq(m.ClientID(), e.cid))
	u, p := m.Credentials()
	vAssert(tag+".user", vBytesEq(u, e.user))
	vAssert(tag+".pass", vBytesEq(p, e.pass))
	vAssert(tag+".will", m.Will() == e.will)
}

func hWill(v byte, topic string, payload []byte, qos byte, retain bool) *Publish {
	w := NewPublish(ProtocolVersion(v))
	vAssume(w.Set(topic, payload, QosType(qos), retain, false) == nil)
	return w
}

// hConnState is a CONNECT in an arbitrary state: what any history of setters leaves.
func hConnState(v byte, clean bool, keep uint16, cid, user, pass []byte, hasWill bool, w *Publish) (*Connect, *hConn) {
	m := NewConnect(ProtocolVersion(v))
	e := &hConn{clean: clean, keep: keep, cid: cid, user: user, pass: pass}
	m.SetClean(clean)
	m.SetKeepAlive(keep)
	vAssume(m.SetClientID(cid) == nil)
	vAssume(m.SetCredentials(user, pass) == nil)
	if hasWill {
		vAssume(m.SetWill(w) == nil)
		e.will = w
	}
	return m, e
}

// The state itself, after every setter was called once.
func VerifyC14_State(v byte, clean bool, keep uint16, cid []byte, user []byte, pass []byte, hasWill bool, topic string, payload []byte, qos byte, retain bool, buf []byte) {
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	m, e := hConnState(v, clean, keep, cid, user, pass, hasWill, hWill(v, topic, payload, qos, retain))
	hConnIs("C14.state", m, e)
	vReach("state")
	vAssert("C14.state.flags", hWireFlags(m, buf) == e.flags())
}

// One more setter from any state.
func VerifyC14_Clean(v byte, clean bool, keep uint16, user []byte, pass []byte, hasWill bool, topic string, payload []byte, qos byte, retain bool, x bool, k uint16, buf []byte) {
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	m, e := hConnState(v, clean, keep, []byte("c"), user, pass, hasWill, hWill(v, topic, payload, qos, retain))
	m.SetClean(x)
	e.clean = x
	m.SetKeepAlive(k)
	e.keep = k
	vReach("clean")
	hConnIs("C14.clean", m, e)
	vAssert("C14.clean.flags", hWireFlags(m, buf) == e.flags())
}

func VerifyC14_ClientID(v byte, clean bool, user []byte, pass []byte, hasWill bool, topic string, payload []byte, qos byte, retain bool, cid []byte, cid2 []byte, buf []byte) {
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	m, e := hConnState(v, clean, 7, cid, user, pass, hasWill, hWill(v, topic, payload, qos, retain))
	err := m.SetClientID(cid2)
	ok := vRegex(`^[0-9a-zA-Z \-_,.|/]*$`, cid2)
	vAssert("C14.cid.accepts", (err == nil) == ok)
	if ok {
		vReach("accepted")
		e.cid = cid2
	} else {
		vReach("refused")
	}
	hConnIs("C14.cid", m, e)
	vAssert("C14.cid.flags", hWireFlags(m, buf) == e.flags())
}

func VerifyC14_Credentials(v byte, clean bool, user []byte, pass []byte, hasWill bool, topic string, payload []byte, qos byte, retain bool, u []byte, p []byte, buf []byte) {
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	m, e := hConnState(v, clean, 7, []byte("c"), user, pass, hasWill, hWill(v, topic, payload, qos, retain))
	err := m.SetCredentials(u, p)
	if v < 5 && len(u) == 0 && len(p) != 0 || !utf8.Valid(u) {
		vReach("refused")
		vAssert("C14.cred.refused", err != nil)
	} else {
		vReach("accepted")
		vAssert("C14.cred.accepted", err == nil)
		e.user, e.pass = u, p
	}
	hConnIs("C14.cred", m, e)
	vAssert("C14.cred.flags", hWireFlags(m, buf) == e.flags())
}

func VerifyC14_Will(v byte, clean bool, user []byte, pass []byte, hasWill bool, topic string, payload []byte, qos byte, retain bool, op byte, topic2 string, payload2 []byte, qos2 byte, retain2 bool, qos3 byte, retain3 bool, buf []byte) {
	hUvarint()
	vAssume(v >= 3 && v <= 5)
	first := hWill(v, topic, payload, qos, retain)
	m, e := hConnState(v, clean, 7, []byte("c"), user, pass, hasWill, first)
	was := e.flags()
	// the caller may go on using the message it gave as will
	vAssume(first.SetQoS(QosType(qos3)) == nil)
	first.SetRetain(retain3)
	done := true
	switch op {
	case 0:
		m.ResetWill()
		e.will = nil
	case 1:
		vAssert("C14.will.nil", m.SetWill(nil) != nil)
		done = false
	case 2:
		vAssert("C14.will.same", (m.SetWill(first) == nil) == (len(topic) != 0 && len(payload) != 0))
		if len(topic) != 0 && len(payload) != 0 {
			e.will = first
		} else {
			done = false
		}
	default:
		w := hWill(v, topic2, payload2, qos2, retain2)
		if m.SetWill(w) == nil {
			vReach("accepted")
			e.will = w
		} else {
			vReach("refused")
			vAssert("C14.will.refused", len(topic2) == 0 || len(payload2) == 0)
			done = false
		}
	}
	hConnIs("C14.will", m, e)
	if done {
		was = e.flags()
	}
	vAssert("C14.will.flags", hWireFlags(m, buf) == was)
}
