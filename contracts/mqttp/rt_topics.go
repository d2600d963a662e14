package mqttp

import "unicode/utf8"

// Topic lists of any length: what an element occupies on the wire, when it is a
// legal filter, and its encoding (MQTT 3.8.3, 3.10.3).

func sum_Subs(t *Topic) int   { return 3 + len(t.full) }
func sum_Unsubs(t *Topic) int { return 2 + len(t.full) }

func flat_Unsubs(t *Topic) string {
	return string([]byte{byte(len(t.full) >> 8), byte(len(t.full))}) + string(t.full)
}

func flat_Subs(t *Topic) string {
	return string([]byte{byte(len(t.full) >> 8), byte(len(t.full))}) + string(t.full) + string([]byte{byte(t.ops)})
}

// hTopicAs: t is what NewTopic makes of its text (use_NewTopic).
func hTopicAs(t *Topic) bool {
	if len(t.full) == 0 || len(t.full) > 65535 || !utf8.Valid(t.full) {
		return false
	}
	if !vSymbolic() {
		x, err := NewTopic(t.full)
		return err == nil && same_Names(x, t)
	}
	if !vUFBool("topic.ok", t.full) {
		return false
	}
	if !vUFBool("topic.dollar", t.full) {
		return len(t.dollarPrefix) == 0 && len(t.shareName) == 0 && string(t.filter) == string(t.full)
	}
	d := vUFInt("topic.d", t.full)
	if d < 1 || d >= len(t.full) || string(t.dollarPrefix) != string(t.full[:d]) {
		return false
	}
	if !vUFBool("topic.share", t.full) {
		return len(t.shareName) == 0 && string(t.filter) == string(t.full)
	}
	s := vUFInt("topic.s", t.full)
	return s > d+1 && s+1 < len(t.full) && string(t.shareName) == string(t.full[d+1:s]) && string(t.filter) == string(t.full[s+1:])
}

func all_Subs5(t *Topic) bool {
	return hTopicAs(t) && hOpts(5, byte(t.ops))
}
func all_Subs3(t *Topic) bool  { return hTopicAs(t) && hOpts(3, byte(t.ops)) }
func all_Unsubs(t *Topic) bool { return hTopicAs(t) && t.ops == 0 }

// all_Short: the text fits its length prefix.
func all_Short(t *Topic) bool { return len(t.full) <= 65535 }

// same_Names relates the elements of a decoded list to those that were encoded.
func same_Names(a, b *Topic) bool {
	return string(a.full) == string(b.full) && string(a.filter) == string(b.filter) &&
		string(a.dollarPrefix) == string(b.dollarPrefix) && string(a.shareName) == string(b.shareName) && a.ops == b.ops
}

// The same for what was decoded with the option bytes as they are legal in a version.
func same_Opts3(a, b *Topic) bool {
	return string(a.full) == string(b.full) && a.ops == b.ops && hOpts(3, byte(b.ops))
}

func same_Opts5(a, b *Topic) bool {
	return string(a.full) == string(b.full) && a.ops == b.ops && hOpts(5, byte(b.ops))
}

func hOpts(v, o byte) bool {
	if v == 5 {
		return o&0xC0 == 0 && o&0x30 != 0x30 && o&3 != 3
	}
	return o <= 2
}

func vSumSubs(l []*Topic) (n int) {
	for _, t := range l {
		n += sum_Subs(t)
	}
	return
}

func vSumUnsubs(l []*Topic) (n int) {
	for _, t := range l {
		n += sum_Unsubs(t)
	}
	return
}

func vAllSubs5(l []*Topic) bool {
	for _, t := range l {
		if !all_Subs5(t) {
			return false
		}
	}
	return true
}

func vAllSubs3(l []*Topic) bool {
	for _, t := range l {
		if !all_Subs3(t) {
			return false
		}
	}
	return true
}

func vAllUnsubs(l []*Topic) bool {
	for _, t := range l {
		if !all_Unsubs(t) {
			return false
		}
	}
	return true
}

func vAllShort(l []*Topic) bool {
	for _, t := range l {
		if !all_Short(t) {
			return false
		}
	}
	return true
}

func vFlatSubs(l []*Topic) (s string) {
	for _, t := range l {
		s += flat_Subs(t)
	}
	return
}

func vFlatUnsubs(l []*Topic) (s string) {
	for _, t := range l {
		s += flat_Unsubs(t)
	}
	return
}

var hTexts = []string{"a", "a/b", "+", "#", "/", "$SYS/x", "$share/g/a", "$share/g/+/#", "a//b", "x/+/y"}

// vFreshListTopics is an arbitrary list.
func vFreshListTopics() []*Topic {
	vInitRng()
	var l []*Topic
	n := vRng.Intn(7)
	if vRng.Intn(3) == 0 {
		n = vRng.Intn(70)
	}
	if vRng.Intn(30) == 0 {
		n = 250 + vRng.Intn(350)
	}
	for ; n > 0; n-- {
		s := hTexts[vRng.Intn(len(hTexts))]
		for vRng.Intn(20) == 0 {
			s += "/" + s
		}
		o := vRng.Intn(3)
		if vRng.Intn(2) == 0 {
			o = vRng.Intn(48)
		}
		t, err := NewSubscribeTopic([]byte(s), SubscriptionOptions(o))
		if err == nil {
			l = append(l, t)
		}
	}
	return l
}

// hTopics is a SUBSCRIBE or UNSUBSCRIBE of version v with a list of any length;
// legal: its elements are legal filters with legal options.
func hTopics(v byte, id uint16, hasID, un, legal bool) (IFace, []*Topic) {
	vUse("NewTopic")
	vCut(1, "")
	if v == 5 {
		v = 5
	} else {
		v = byte(vForkInt(int(v), 3, 4))
	}
	l := vFreshListTopics()
	if !vSymbolic() {
		odd := -1
		if len(l) > 0 && !legal && vRng.Intn(3) == 0 {
			odd = vRng.Intn(len(l))
		}
		for i, t := range l {
			switch {
			case i == odd:
				t.ops = SubscriptionOptions(vRng.Intn(256))
			case un:
				t.ops = 0
			case v < 5:
				t.ops %= 3
			default:
				if t.ops &= 0x2F; t.ops&3 == 3 {
					t.ops--
				}
			}
		}
	}
	switch {
	case !legal:
		vAssume(vAllShort(l))
	case un:
		vAssume(vAllUnsubs(l))
	case v == 5:
		vAssume(vAllSubs5(l))
	default:
		vAssume(vAllSubs3(l))
	}
	if un {
		m := NewUnSubscribe(ProtocolVersion(v))
		m.topics = l
		if hasID {
			m.SetPacketID(IDType(id))
		}
		hArbProps(m)
		return m, l
	}
	m := NewSubscribe(ProtocolVersion(v))
	m.topics = l
	if hasID {
		m.SetPacketID(IDType(id))
	}
	hArbProps(m)
	return m, l
}

// hWire is the frame of m with the given first byte, identifier and payload.
func hWire(m IFace, first byte, id uint16, body string) []byte {
	rest := string([]byte{byte(id >> 8), byte(id)})
	if m.Version() == ProtocolV50 {
		if vSymbolic() {
			rest += string(vMapBytesProps(m.getHeader().properties.properties))
		} else {
			sect := make([]byte, m.getHeader().properties.FullLen())
			if _, err := m.getHeader().properties.encode(sect); err != nil {
				panic(vSkip{})
			}
			rest += string(sect)
		}
	}
	rest += body
	vAssume(len(rest) < 1<<28)
	return []byte(string([]byte{first}) + string(vUvBytes(uint64(len(rest)))) + rest)
}
