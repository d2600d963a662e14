package mqttp

import "unicode/utf8"

// Contract of NewTopic for the packet level harnesses: acceptance and the way a
// topic is split depend on its bytes only. C16 verifies NewTopic against the
// explicit grammar, of which this is a weakening.

func use_NewTopic(topic []byte) (*Topic, error) {
	if len(topic) == 0 {
		return nil, CodeMalformedPacket
	}
	if !utf8.Valid(topic) || !vUFBool("topic.ok", topic) {
		return nil, CodeProtocolError
	}
	t := &Topic{full: topic, filter: topic}
	if vUFBool("topic.dollar", topic) {
		d := vUFInt("topic.d", topic)
		vAssume(d >= 1 && d < len(topic))
		t.dollarPrefix = topic[:d]
		if vUFBool("topic.share", topic) {
			s := vUFInt("topic.s", topic)
			vAssume(s > d+1 && s+1 < len(topic))
			t.shareName = topic[d+1 : s]
			t.filter = topic[s+1:]
		}
	}
	return t, nil
}
