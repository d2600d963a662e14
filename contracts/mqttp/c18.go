package mqttp

// C18: subscription options.

func VerifyC18_Getters(o byte) {
	s := SubscriptionOptions(o)
	vReach("any")
	vAssert("C18.qos", byte(s.QoS()) == o&3)
	vAssert("C18.nl", s.NL() == (o&4 != 0))
	vAssert("C18.rap", s.RAP() == (o&8 != 0))
	vAssert("C18.rh", byte(s.RetainHandling()) == (o>>4)&3)
	vAssert("C18.raw", s.Raw() == o)
}

// hOptionsOK: the options byte is legal in a SUBSCRIBE of version v.
func hOptionsOK(v, o byte) bool {
	if v == 5 {
		return o&0xC0 == 0 && o&3 != 3 && o&0x30 != 0x30
	}
	return o <= 2
}

// One subscription: accepted exactly for legal options (valid topic, no properties).
func VerifyC18_DecodeOne(v byte, o byte, id uint16) {
	vAssume(v >= 3 && v <= 5)
	buf := []byte{0x82, 8, byte(id >> 8), byte(id), 0, 3, 'a', '/', 'b', o}
	if v == 5 {
		buf = []byte{0x82, 9, byte(id >> 8), byte(id), 0, 0, 3, 'a', '/', 'b', o}
	}
	m, _, err := Decode(ProtocolVersion(v), buf)
	vAssert("C18.one.accepts", (err == nil) == hOptionsOK(v, o))
	if err != nil {
		return
	}
	vReach("decoded")
	s, ok := m.(*Subscribe)
	vAssert("C18.one.type", ok && len(s.topics) == 1)
	vAssert("C18.one.ops", s.topics[0].Ops().Raw() == o)
	_, ops := s.topics[0].Topic()
	vAssert("C18.one.ops2", ops.Raw() == o)
}

// Two subscriptions with any topics keep their own options.
func VerifyC18_DecodeTwo(v byte, o1 byte, o2 byte, t1 []byte, t2 []byte, buf []byte) {
	vAssume(v >= 3 && v <= 5 && len(t1) <= 65535 && len(t2) <= 65535)
	vUse("NewTopic")
	hUvarint()
	p := 2
	if v == 5 {
		p = 3
	}
	rl := p + 6 + len(t1) + len(t2)
	w := vUvLen(uint64(rl))
	buf = hExact(buf, 1+w+rl)
	vAssume(len(buf) == 1+w+rl)
	buf[0] = 0x82
	copy(buf[1:], vUvBytes(uint64(rl)))
	i := 1 + w
	buf[i], buf[i+1] = 0, 1
	if v == 5 {
		buf[i+2] = 0
	}
	i += p
	WriteLPBytes(buf[i:], t1)
	i += 2 + len(t1)
	buf[i] = o1
	WriteLPBytes(buf[i+1:], t2)
	buf[i+3+len(t2)] = o2
	m, _, err := Decode(ProtocolVersion(v), buf)
	if err != nil {
		return
	}
	vReach("decoded")
	vAssert("C18.two.legal", hOptionsOK(v, o1) && hOptionsOK(v, o2))
	s, ok := m.(*Subscribe)
	vAssert("C18.two.type", ok && len(s.topics) == 2)
	vAssert("C18.two.first", s.topics[0].Ops().Raw() == o1 && s.topics[0].Full() == string(t1))
	vAssert("C18.two.second", s.topics[1].Ops().Raw() == o2 && s.topics[1].Full() == string(t2))
	k := 0
	s.ForEachTopic(func(t *Topic) error {
		k++
		f, o := t.Topic()
		if k == 1 {
			vAssert("C18.each.first", o.Raw() == o1 && f == s.topics[0].Filter())
		} else {
			vAssert("C18.each.second", o.Raw() == o2 && f == s.topics[1].Filter())
		}
		return nil
	})
	vAssert("C18.each.n", k == 2)
}

// ForEachTopic visits the topics in order and stops at the first error.
func VerifyC18_Each(t1, t2 []byte, stop byte, un bool) {
	vUse("NewTopic")
	a, err := NewTopic(t1)
	vAssume(err == nil)
	b, err := NewTopic(t2)
	vAssume(err == nil)
	k := byte(0)
	visit := func(t *Topic) error {
		k++
		if k == 1 {
			vAssert("C18.range.first", t == a)
		} else {
			vAssert("C18.range.second", t == b)
		}
		if k == stop {
			return ErrInvalidArgs
		}
		return nil
	}
	var got error
	if un {
		m := NewUnSubscribe(ProtocolV50)
		m.AddTopic(a)
		m.AddTopic(b)
		got = m.ForEachTopic(visit)
	} else {
		m := NewSubscribe(ProtocolV50)
		m.AddTopic(a)
		m.AddTopic(b)
		got = m.ForEachTopic(visit)
	}
	vReach("visited")
	stopped := stop == 1 || stop == 2
	vAssert("C18.range.error", (got == ErrInvalidArgs) == stopped && (got == nil) == !stopped)
	vAssert("C18.range.count", stopped && k == stop || !stopped && k == 2)
}

// ... nor for a list of any length.
func VerifyC18_DecodeAny(v byte, id uint16, g int) {
	vAssume(v >= 3 && v <= 5)
	m, l := hTopics(v, id, true, false, false)
	hUvarint()
	got, _, err := Decode(m.Version(), hWire(m, 0x82, id, vFlatSubs(l)))
	if err != nil {
		return
	}
	vReach("decoded")
	s, ok := got.(*Subscribe)
	vAssert("C18.any.type", ok && len(s.topics) == len(l) && len(l) >= 1)
	if g < 0 || g >= len(l) {
		return
	}
	vReach("element")
	vAssert("C18.any.ops", s.topics[g].Ops() == l[g].Ops())
	vAssert("C18.any.legal", hOptionsOK(byte(m.Version()), byte(l[g].ops)))
	vAssert("C18.any.full", s.topics[g].Full() == l[g].Full())
}

func VerifyC18_EachAny(stop int, un bool) {
	vCut(1, "")
	l := vFreshListTopics()
	if !vSymbolic() {
		stop = vRng.Intn(len(l) + 3)
	}
	never := 1
	if stop >= 1 {
		never = 0
	}
	fails, left := vForkInt(never, 0, 1) == 0, stop-1
	k := 0
	visit := func(t *Topic) error {
		vAssert("C18.rangeany.order", k < len(l) && t.Full() == l[k].Full() && t.Ops() == l[k].Ops())
		k++
		if fails {
			if left == 0 {
				return ErrInvalidArgs
			}
			left--
		}
		return nil
	}
	var got error
	if un {
		m := NewUnSubscribe(ProtocolV50)
		m.topics = l
		got = m.ForEachTopic(visit)
	} else {
		m := NewSubscribe(ProtocolV50)
		m.topics = l
		got = m.ForEachTopic(visit)
	}
	vReach("visited")
	stopped := fails && stop <= len(l)
	vAssert("C18.rangeany.error", (got == ErrInvalidArgs) == stopped && (got == nil) == !stopped)
	vAssert("C18.rangeany.count", stopped && k == stop || !stopped && k == len(l))
}
