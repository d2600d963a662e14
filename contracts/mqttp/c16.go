package mqttp

import (
	"unicode/utf8"
)

// C16: topic filters. The bytes are given in pieces that cover every shape:
//   plain:  no '$' in front
//   dollar: "$" + a, no '/' at all
//   level:  "$" + a + "/" + b, a without '/', "$"+a other than "$share"
//   share:  "$share/" + name [+ "/" + filter], name without '/'

const hGrammar = `^((\+|[^+#/]*)(/(\+|[^+#/]*))*(/#)?|#)$`

func hFilterText(b []byte) bool {
	return utf8.Valid(b) && vRegex("^[^\u0000-\u001F\u007F-\u009F]*$", b)
}

// hNew runs both constructors and checks that they agree.
func hNew(tag string, full []byte, ops byte) (*Topic, bool) {
	t, err := NewTopic(full)
	vAssert(tag+".neither", (t == nil) == (err != nil))
	s, serr := NewSubscribeTopic(full, SubscriptionOptions(ops))
	vAssert(tag+".sub.neither", (s == nil) == (serr != nil))
	vAssert(tag+".sub", (serr == nil) == (err == nil && ops&3 != 3))
	if err != nil {
		return nil, false
	}
	vAssert(tag+".full", t.Full() == string(full))
	vAssert(tag+".ops", t.Ops().Raw() == 0)
	if serr == nil {
		vAssert(tag+".sub.full", s.Full() == string(full))
		vAssert(tag+".sub.filter", s.Filter() == t.Filter())
		vAssert(tag+".sub.dollar", s.DollarPrefix() == t.DollarPrefix())
		vAssert(tag+".sub.share", s.ShareName() == t.ShareName())
		vAssert(tag+".sub.ops", s.Ops().Raw() == ops)
	}
	f, _ := t.Topic()
	vAssert(tag+".topic", f == t.Filter())
	return t, true
}

func VerifyC16_Plain(full []byte, ops byte) {
	vAssume(len(full) == 0 || full[0] != '$')
	t, ok := hNew("C16.plain", full, ops)
	vAssert("C16.plain.accepts", ok == (len(full) > 0 && hFilterText(full) && vRegex(hGrammar, full)))
	if ok {
		vReach("plain")
		vAssert("C16.plain.filter", t.Filter() == string(full))
		vAssert("C16.plain.parts", t.DollarPrefix() == "" && t.ShareName() == "")
	}
}

func VerifyC16_Dollar(a []byte, ops byte) {
	vAssume(!hHasSlash(a))
	full := append([]byte("$"), a...)
	_, ok := hNew("C16.dollar", full, ops)
	vReach("dollar")
	vAssert("C16.dollar.refused", !ok)
}

func VerifyC16_Level(a []byte, b []byte, ops byte) {
	vAssume(!hHasSlash(a) && string(a) != "share")
	full := append([]byte("$"), a...)
	full = append(full, '/')
	full = append(full, b...)
	t, ok := hNew("C16.level", full, ops)
	vAssert("C16.level.accepts", ok == (hFilterText(full) && vRegex(hGrammar, full)))
	if ok {
		vReach("level")
		vAssert("C16.level.filter", t.Filter() == string(full))
		vAssert("C16.level.parts", t.DollarPrefix() == "$"+string(a) && t.ShareName() == "")
	}
}

func VerifyC16_Share(name []byte, filter []byte, ops byte) {
	vAssume(!hHasSlash(name))
	full := append([]byte("$share/"), name...)
	full = append(full, '/')
	full = append(full, filter...)
	t, ok := hNew("C16.share", full, ops)
	legal := len(name) > 0 && vRegex(`^[^+#]*$`, name) && len(filter) > 0 && hFilterText(full) && vRegex(hGrammar, filter)
	vAssert("C16.share.accepts", ok == legal)
	if ok {
		vReach("share")
		vAssert("C16.share.filter", t.Filter() == string(filter))
		vAssert("C16.share.parts", t.DollarPrefix() == "$share" && t.ShareName() == string(name))
		vAssert("C16.share.joined", t.DollarPrefix()+"/"+t.ShareName()+"/"+t.Filter() == string(full))
	}
}

func VerifyC16_ShareNameOnly(name []byte, ops byte) {
	vAssume(!hHasSlash(name))
	full := append([]byte("$share/"), name...)
	_, ok := hNew("C16.nameonly", full, ops)
	vReach("nameonly")
	vAssert("C16.nameonly.refused", !ok)
}
