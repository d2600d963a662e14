package mqttp

import (
	"bytes"
	"unicode/utf8"
)

// The contract of NewTopic (use_topic.go) against its body. The text comes in the
// shapes of C16, which cover every byte string.

func hTopicText(k byte, a, b []byte) []byte {
	var full []byte
	switch vForkInt(int(k), 0, 4) {
	case 0: // no '$' in front
		vAssume(len(a) == 0 || a[0] != '$')
		return a
	case 1: // "$", no '/' at all
		vAssume(!hHasSlash(a))
		return append([]byte("$"), a...)
	case 2: // "$" and a first level other than "$share"
		vAssume(!hHasSlash(a) && string(a) != "share")
		full = append([]byte("$"), a...)
	case 3: // a shared subscription
		vAssume(!hHasSlash(a))
		full = append([]byte("$share/"), a...)
	default:
		vAssume(!hHasSlash(a))
		return append([]byte("$share/"), a...)
	}
	full = append(full, '/')
	return append(full, b...)
}

func hLemmaTopic(tag string, k byte, a, b []byte) {
	vAssume(k <= 4)
	topic := hTopicText(k, a, b)
	old := string(topic)
	t, err := NewTopic(topic)
	u, err2 := NewTopic([]byte(old))
	vAssert(tag+".frame", string(topic) == old)
	vAssert(tag+".function", err == err2)
	if len(old) == 0 {
		vReach("empty")
		vAssert(tag+".empty", t == nil && err == CodeMalformedPacket)
		return
	}
	if err != nil {
		vReach("refused")
		vAssert(tag+".refused", t == nil && err == CodeProtocolError)
		return
	}
	vReach("accepted")
	vAssert(tag+".text", utf8.Valid(topic) && string(t.full) == old && t.ops == 0)
	vAssert(tag+".function.parts", string(u.filter) == string(t.filter) && string(u.dollarPrefix) == string(t.dollarPrefix) && string(u.shareName) == string(t.shareName))
	d, n := len(t.dollarPrefix), len(t.shareName)
	if n == 0 {
		vAssert(tag+".filter", string(t.filter) == old)
	}
	if d == 0 {
		vAssert(tag+".plain", n == 0)
		return
	}
	vAssert(tag+".dollar", d < len(old) && string(t.dollarPrefix) == old[:d])
	if n != 0 {
		s := d + 1 + n
		vAssert(tag+".share.place", s+1 < len(old))
		vAssert(tag+".share", string(t.shareName) == old[d+1:s] && string(t.filter) == old[s+1:])
	}
}

func hHasSlash(b []byte) bool { return bytes.IndexByte(b, '/') >= 0 }
