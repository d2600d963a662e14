package vltypes

import "reflect"

// C23: NormalizeConfig.

func hSame(a, b interface{}) bool {
	if vSymbolic() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// hKey: a key of the given kind.
func hKey(kind byte, s string, i int) interface{} {
	switch kind {
	case 0:
		return s
	case 1:
		return i
	case 2:
		return i == 0
	case 3:
		return byte(i)
	case 4:
		return ErrInvalidConfigType
	}
	return nil
}

// Anything that is not a map of one of the two types.
func VerifyC23_Other(val interface{}) {
	switch val.(type) {
	case map[string]interface{}, map[interface{}]interface{}:
		return
	}
	m, err := NormalizeConfig(val)
	vReach("other")
	vAssert("C23.other", m == nil && err == ErrInvalidConfigType)
}

func VerifyC23_Nil() {
	m, err := NormalizeConfig(nil)
	vAssert("C23.nil", m == nil && err == ErrInvalidConfigType)
	var s map[string]interface{}
	m, err = NormalizeConfig(s)
	vAssert("C23.nilmap", m == nil && err == nil)
	m, err = NormalizeConfig(&s)
	vAssert("C23.pointer", m == nil && err == ErrInvalidConfigType)
	m, err = NormalizeConfig(map[string]string{"a": "b"})
	vAssert("C23.stringmap", m == nil && err == ErrInvalidConfigType)
	m, err = NormalizeConfig([]interface{}{"a"})
	vAssert("C23.list", m == nil && err == ErrInvalidConfigType)
	var i map[interface{}]interface{}
	m, err = NormalizeConfig(i)
	vAssert("C23.nilmap2", len(m) == 0 && err == nil)
}

// The right type already: the argument itself.
func VerifyC23_Itself(k string, v interface{}, k2 string, v2 interface{}) {
	in := map[string]interface{}{k: v}
	m, err := NormalizeConfig(in)
	vReach("same")
	vAssert("C23.itself", err == nil && len(m) == 1 && len(in) == 1)
	got, ok := m[k]
	vAssert("C23.itself.value", ok && hSame(got, v))
	in[k2] = v2
	got, ok = m[k2]
	vAssert("C23.itself.alias", ok && hSame(got, v2))
}

// Up to three keys of any type, with any values: the number of entries as well.
// Maps of any size are settled by VerifyC23_Strings and VerifyC23_NotString.
func VerifyC23_Convert(n, t1, t2, t3 byte, s1 string, i1 int, v1 interface{}, s2 string, i2 int, v2 interface{}, s3 string, i3 int, v3 interface{}) {
	vAssume(n <= 3 && t1 <= 5 && t2 <= 5 && t3 <= 5)
	k1, k2, k3 := hKey(t1, s1, i1), hKey(t2, s2, i2), hKey(t3, s3, i3)
	vAssume(k1 != k2 && k1 != k3 && k2 != k3)
	in := map[interface{}]interface{}{}
	all := true
	if n >= 1 {
		in[k1] = v1
		all = all && t1 == 0
	}
	if n >= 2 {
		in[k2] = v2
		all = all && t2 == 0
	}
	if n >= 3 {
		in[k3] = v3
		all = all && t3 == 0
	}
	m, err := NormalizeConfig(in)
	vAssert("C23.in.len", len(in) == int(n))
	if !all {
		vReach("refused")
		vAssert("C23.refused", m == nil && err == ErrInvalidConfigType)
	} else {
		vReach("converted")
		vAssert("C23.converted", err == nil && len(m) == int(n))
	}
	has := func(tag string, k, v interface{}) {
		x, ok := in[k]
		vAssert(tag+".in", ok && hSame(x, v))
		if all {
			x, ok = m[k.(string)]
			vAssert(tag, ok && hSame(x, v))
		}
	}
	if n >= 1 {
		has("C23.entry1", k1, v1)
	}
	if n >= 2 {
		has("C23.entry2", k2, v2)
	}
	if n >= 3 {
		has("C23.entry3", k3, v3)
	}
}

// Maps of any size. A map whose entries satisfy spec_MapOK(1, ...) has string keys only.
func spec_MapOK(t int, k interface{}, v interface{}) bool {
	_, ok := k.(string)
	return ok || t == 0
}

func spec_MapLen(k interface{}, v interface{}) int { return 1 }

func vFreshMapConfig() map[interface{}]interface{} {
	vInitRng()
	m := map[interface{}]interface{}{}
	for i := vRng.Intn(9); i > 0; i-- {
		m["k"+string(rune('a'+vRng.Intn(26)))] = vRng.Intn(3)
	}
	return m
}

// String keys only: the result has every key, whatever it is, exactly if the argument has it.
func VerifyC23_Strings(s string) {
	vCut(0, "C23.ends")
	vMapSpec(1)
	vGhostKey(s)
	in := vFreshMapConfig()
	old, had := in[s]
	m, err := NormalizeConfig(in)
	vReach("converted")
	vAssert("C23.strings.accepted", err == nil && m != nil)
	got, ok := m[s]
	vAssert("C23.strings.key", ok == had)
	vAssert("C23.strings.value", !had || hSame(got, old))
	now, has := in[s]
	vAssert("C23.strings.in", has == had && (!had || hSame(now, old)))
}

// Some key is not a string.
func VerifyC23_NotString(kind byte, k interface{}) {
	vCut(0, "C23.ends")
	vMapSpec(0)
	if !vSymbolic() {
		k = hKey(1+kind%5, "", int(kind))
	}
	_, str := k.(string)
	vAssume(!str)
	vGhostKey(k)
	in := vFreshMapConfig()
	if !vSymbolic() {
		in[k] = kind
	}
	_, had := in[k]
	vAssume(had)
	m, err := NormalizeConfig(in)
	vReach("refused")
	vAssert("C23.notstring", m == nil && err == ErrInvalidConfigType)
}
