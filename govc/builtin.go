package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := ex.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return v.len
		case *Rope:
			return ex.ropeLen(v)
		case MapV:
			return ex.mapLen(v)
		case Ptr:
			return c.Int(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		ex.unsupported("len of %T", args[0])
	case "cap":
		if v, ok := args[0].(Slice); ok {
			return v.cap
		}
		ex.unsupported("cap of %T", args[0])
	case "append":
		return ex.appendB(args, cc)
	case "copy":
		d := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var src *Rope
		switch s := args[1].(type) {
		case Slice:
			src = ex.content(s, et)
		case *Rope:
			src = s
		}
		n := ex.ropeLen(src)
		if !ex.decide(c.Le(n, d.len)) {
			n = d.len
			src = ex.sub(src, c.zero, n)
		}
		if n != c.zero {
			ex.writeSeq(d, src)
		}
		return n
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			ex.mapDelete(m, args[1])
		}
		return Tuple{}
	case "recover":
		return ex.recoverB(st, fr)
	case "print", "println":
		return Tuple{}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(t, r), r, t)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			ex.nilDeref()
		}
		return args[0]
	case "clear":
		if m, ok := args[0].(MapV); ok {
			if m.obj != 0 {
				o := *ex.obj(m.obj)
				o.m = &MapObj{key: o.m.key, elem: o.m.elem}
				ex.setObj(m.obj, &o)
			}
			return Tuple{}
		}
	}
	ex.unsupported("builtin %s", b.Name())
	return nil
}

func (ex *Exec) recoverB(st *State, fr *Frame) Value {
	if fr.isDefer {
		if v, ok := st.ghost["$panic"]; ok && st.ghost["$recovered"] != Value(ex.c.True) {
			st.ghost["$recovered"] = ex.c.True
			if i, ok := v.(Iface); ok && i.typ == nil {
				return Iface{typ: ex.w.runtimeErr, v: ex.litRope("panic called with nil argument")}
			}
			return v
		}
	}
	return Iface{}
}

// writeSeq overwrites the first len(src) elements of d.
func (ex *Exec) writeSeq(d Slice, src *Rope) {
	o := ex.obj(d.obj)
	if o.ro {
		ex.roWrite(o)
	}
	n := *o
	n.rope = ex.update(o.rope, d.off, src)
	ex.setObj(d.obj, &n)
}

func (ex *Exec) roWrite(o *Obj) {
	ex.unsupported("store into read-only abstract object %s", o.name)
}

func (ex *Exec) appendB(args []Value, cc *ssa.CallCommon) Value {
	c := ex.c
	s := args[0].(Slice)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var add *Rope
	switch t := args[1].(type) {
	case Slice:
		add = ex.content(t, et)
	case *Rope:
		add = t
	}
	an := ex.ropeLen(add)
	if an == c.zero {
		return s
	}
	nl := c.Add(s.len, an)
	if s.obj != 0 && s.cap != s.len && ex.decide(c.Le(nl, s.cap)) {
		d := Slice{obj: s.obj, off: c.Add(s.off, s.len), len: an, cap: an}
		ex.writeSeq(d, add)
		return Slice{obj: s.obj, off: s.off, len: nl, cap: s.cap}
	}
	r := ex.cat(ex.content(s, et), add)
	ns := ex.newSeq(r, et)
	if s.obj == 0 {
		// append to nil of an empty (symbolic length 0) slice stays nil; represented as an empty slice
	}
	return ns
}

// ---- maps ----

func scalarKey(v Value) bool { _, ok := v.(*Term); return ok }

func (ex *Exec) keyEq(t types.Type, a, b Value) *Term { return ex.valueEq(t, a, b) }

// find the update entry for k; deciding key equality. -1: none.
func (ex *Exec) mapFind(m *MapObj, k Value) int {
	for i := len(m.ups) - 1; i >= 0; i-- {
		if ex.decide(ex.keyEq(m.key, m.ups[i].k, k)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapUpdate(mv MapV, k, v Value) {
	if mv.obj == 0 {
		ex.goPanic("assignment to entry in nil map")
	}
	if i, ok := k.(Iface); ok && i.typ != nil && !types.Comparable(i.typ) {
		ex.goPanic("hash of unhashable type")
	}
	o := *ex.obj(mv.obj)
	if o.ro {
		ex.roWrite(&o)
	}
	i := ex.mapFind(o.m, k)
	nm := &MapObj{base: o.m.base, spec: o.m.spec, key: o.m.key, elem: o.m.elem, ups: append([]mapUp(nil), o.m.ups...)}
	if i >= 0 {
		nm.ups[i] = mapUp{k: nm.ups[i].k, present: true, v: v}
	} else {
		nm.ups = append(nm.ups, mapUp{k: k, present: true, v: v})
	}
	o.m = nm
	ex.setObj(mv.obj, &o)
}

func (ex *Exec) mapDelete(mv MapV, k Value) {
	o := *ex.obj(mv.obj)
	if o.ro {
		ex.roWrite(&o)
	}
	i := ex.mapFind(o.m, k)
	nm := &MapObj{base: o.m.base, spec: o.m.spec, key: o.m.key, elem: o.m.elem}
	for j, u := range o.m.ups {
		if j != i {
			nm.ups = append(nm.ups, u)
		}
	}
	if o.m.base != nil {
		nm.ups = append(nm.ups, mapUp{k: k, present: false})
	}
	o.m = nm
	ex.setObj(mv.obj, &o)
}

func (ex *Exec) mapLen(mv MapV) *Term {
	if mv.obj == 0 {
		return ex.c.zero
	}
	m := ex.obj(mv.obj).m
	if m.base != nil {
		if len(m.ups) == 0 {
			return ex.c.AppRange("mlen", ex.c.zero.k, maxLen, m.base)
		}
		ex.unsupported("len of updated abstract map")
	}
	return ex.c.Int(int64(len(m.ups)))
}

// basePresent / baseValue: abstract part of a map.
func (ex *Exec) basePresent(m *MapObj, k Value) *Term {
	if m.base == nil {
		return ex.c.False
	}
	return ex.c.App("mhas."+typeName(m.key), SBool, append([]*Term{m.base}, ex.flat(m.key, k)...)...)
}

func (ex *Exec) baseValue(m *MapObj, k Value) Value {
	if m.base == nil {
		return ex.zero(m.elem)
	}
	return ex.symOf(m.elem, "mval."+typeName(m.key)+"."+typeName(m.elem), append([]*Term{m.base}, ex.flat(m.key, k)...))
}

// flat turns a key value into terms.
func (ex *Exec) flat(t types.Type, v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *Rope:
		return []*Term{ex.seqTerm(x)}
	case SymIface:
		return []*Term{x.t}
	case Iface:
		if t := ex.ifaceTerm(x); t != nil {
			return []*Term{t}
		}
	}
	ex.unsupported("map key %T", v)
	return nil
}

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	c := ex.c
	base := ex.eval(fr, x.X)
	if r, ok := base.(*Rope); ok { // string indexing
		idx := ex.boolOf(ex.eval(fr, x.Index))
		ex.bounds(idx, ex.ropeLen(r))
		ex.set(fr, x, ex.index(r, idx))
		return
	}
	mv := base.(MapV)
	k := ex.eval(fr, x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	needVal := true
	if x.CommaOk {
		needVal = false
		for _, r := range *x.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
				needVal = true
			}
		}
	}
	var present *Term
	var val Value
	if mv.obj == 0 {
		present, val = c.False, ex.zero(mt.Elem())
	} else {
		present, val = ex.mapGet(ex.obj(mv.obj).m, k, needVal)
	}
	if x.CommaOk {
		if !needVal {
			val = ex.zero(mt.Elem())
		}
		ex.set(fr, x, Tuple{val, present})
		return
	}
	ex.set(fr, x, val)
}

func (ex *Exec) mapGet(m *MapObj, k Value, needVal bool) (*Term, Value) {
	c := ex.c
	if i, ok := k.(Iface); ok && i.typ != nil && !types.Comparable(i.typ) {
		ex.goPanic("hash of unhashable type")
	}
	if !scalarKey(k) {
		i := ex.mapFind(m, k)
		if i >= 0 {
			u := m.ups[i]
			if u.present {
				return c.True, u.v
			}
			return c.False, ex.zero(m.elem)
		}
		if m.base == nil {
			return c.False, ex.zero(m.elem)
		}
		p := ex.basePresent(m, k)
		if !needVal {
			return p, nil
		}
		if ex.decide(p) {
			v := ex.baseValue(m, k)
			ex.learnEntry(m, k, v)
			return c.True, v
		}
		return c.False, ex.zero(m.elem)
	}
	kt := k.(*Term)
	// exact hit
	for i := range m.ups {
		if m.ups[i].k == k {
			if m.ups[i].present {
				return c.True, m.ups[i].v
			}
			return c.False, ex.zero(m.elem)
		}
	}
	type ent struct {
		cond *Term
		u    mapUp
	}
	var ents []ent
	for _, u := range m.ups {
		e := c.Eq(u.k.(*Term), kt)
		if v, ok := ex.known(e); ok {
			if v {
				if u.present {
					return c.True, u.v
				}
				return c.False, ex.zero(m.elem)
			}
			continue
		}
		if e == c.False {
			continue
		}
		ents = append(ents, ent{e, u})
	}
	present := ex.basePresent(m, k)
	for i := len(ents) - 1; i >= 0; i-- {
		present = c.Ite(ents[i].cond, c.Bool(ents[i].u.present), present)
	}
	if !needVal {
		return present, nil
	}
	// merge values when possible
	dflt := ex.baseValueLazy(m, k)
	vals := make([]Value, len(ents))
	conds := make([]*Term, len(ents))
	for i, e := range ents {
		conds[i] = e.cond
		if e.u.present {
			vals[i] = e.u.v
		} else {
			vals[i] = ex.zero(m.elem)
		}
	}
	if r, ok := ex.mergeVals(m.elem, conds, vals, dflt, kt); ok {
		if m.base != nil {
			// absent keys read as zero
			bp := ex.basePresent(m, k)
			if t, ok := dflt.(*Term); ok {
				z, _ := ex.zero(m.elem).(*Term)
				r2, ok2 := ex.mergeVals(m.elem, conds, vals, c.Ite(bp, t, z), kt)
				if ok2 {
					return present, r2
				}
			}
		} else {
			return present, r
		}
	}
	// fork over groups of equal values
	groups := map[string][]int{}
	var order []string
	for i := range ents {
		key := "absent"
		if ents[i].u.present {
			key = ex.valKey(vals[i])
		}
		if _, ok := groups[key]; !ok {
			order = append(order, key)
		}
		groups[key] = append(groups[key], i)
	}
	for _, g := range order {
		var cs []*Term
		for _, i := range groups[g] {
			cs = append(cs, conds[i])
		}
		if ex.decide(c.Or(cs...)) {
			i := groups[g][0]
			if ents[i].u.present {
				return c.True, vals[i]
			}
			return c.False, ex.zero(m.elem)
		}
	}
	if m.base == nil {
		return c.False, ex.zero(m.elem)
	}
	if ex.decide(ex.basePresent(m, k)) {
		v := ex.baseValue(m, k)
		ex.learnEntry(m, k, v)
		return c.True, v
	}
	return c.False, ex.zero(m.elem)
}

func (ex *Exec) baseValueLazy(m *MapObj, k Value) Value {
	if m.base == nil {
		return ex.zero(m.elem)
	}
	if _, ok := ex.zero(m.elem).(*Term); ok {
		return ex.baseValue(m, k)
	}
	return nil
}

// mergeVals builds an if-then-else value; strings inside structs become opaque.
func (ex *Exec) mergeVals(t types.Type, conds []*Term, vals []Value, dflt Value, k *Term) (Value, bool) {
	c := ex.c
	if dflt == nil {
		return nil, false
	}
	switch d := dflt.(type) {
	case *Term:
		r := d
		for i := len(conds) - 1; i >= 0; i-- {
			v, ok := vals[i].(*Term)
			if !ok {
				return nil, false
			}
			r = c.Ite(conds[i], v, r)
		}
		return r, true
	case Struct:
		st := t.Underlying().(*types.Struct)
		out := Struct{make([]Value, len(d.f))}
		for f := range d.f {
			fv := make([]Value, len(vals))
			for i := range vals {
				s, ok := vals[i].(Struct)
				if !ok {
					return nil, false
				}
				fv[i] = s.f[f]
			}
			if isString(st.Field(f).Type()) {
				out.f[f] = ex.atomRope(c.Fresh("tbl", SSeq), nil)
				continue
			}
			r, ok := ex.mergeVals(st.Field(f).Type(), conds, fv, d.f[f], k)
			if !ok {
				return nil, false
			}
			out.f[f] = r
		}
		return out, true
	}
	return nil, false
}

// valKey is a structural fingerprint used to group equal table values.
func (ex *Exec) valKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case *Rope:
		return x.String()
	case Struct:
		var p []string
		for _, f := range x.f {
			p = append(p, ex.valKey(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case MapV:
		if x.obj == 0 {
			return "nilmap"
		}
		o := ex.obj(x.obj)
		if ex.initDone {
			if _, own := ex.st.heap.top[x.obj]; own {
				return fmt.Sprintf("map%d", x.obj)
			}
		}
		var p []string
		for _, u := range o.m.ups {
			p = append(p, ex.valKey(u.k)+":"+ex.valKey(u.v))
		}
		return fmt.Sprintf("map[%v %s]", o.m.base, strings.Join(sortedStrings(p), ","))
	case Func:
		if x.fn != nil && len(x.binds) == 0 {
			return "fn" + x.fn.String()
		}
	case Ptr:
		if x.ref == nil && len(x.path) == 0 {
			return fmt.Sprintf("ptr%d", x.obj)
		}
	}
	return fmt.Sprintf("?%p%v", &v, showValue(v))
}

// ---- range ----

func (ex *Exec) rangeInstr(fr *Frame, x *ssa.Range) {
	switch v := ex.eval(fr, x.X).(type) {
	case MapV:
		it := &IterObj{m: v}
		if v.obj != 0 {
			m := ex.obj(v.obj).m
			if m.base != nil {
				ex.rangeAbs(it, m)
			}
			for _, u := range m.ups {
				it.keys = append(it.keys, u.k)
			}
		}
		id := ex.newObj(&Obj{kind: kIter, it: it})
		ex.set(fr, x, MapIter{id})
	case *Rope:
		id := ex.newObj(&Obj{kind: kIter, it: &IterObj{str: v}})
		ex.set(fr, x, MapIter{id})
	default:
		ex.unsupported("range over %T", v)
	}
}

func (ex *Exec) next(st *State, fr *Frame, x *ssa.Next) {
	c := ex.c
	it := ex.eval(fr, x.Iter).(MapIter)
	o := *ex.obj(it.id)
	io := *o.it
	tt := x.Type().(*types.Tuple)
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return c.zero
		}
		return ex.zero(tt.At(i).Type())
	}
	if x.IsString {
		if !ex.decide(c.Lt(c.Int(int64(io.strPos)), ex.ropeLen(io.str))) {
			ex.set(fr, x, Tuple{c.False, zero(1), zero(2)})
			return
		}
		ex.unsupported("range over a string")
	}
	if io.base != nil {
		nio, k, v, more := ex.nextAbs(it.id, io, x)
		if !more {
			ex.set(fr, x, Tuple{c.False, zero(1), zero(2)})
			return
		}
		o.it = nio
		ex.setObj(it.id, &o)
		ex.set(fr, x, Tuple{c.True, k, v})
		return
	}
	// remaining keys (in nondeterministic order), skipping entries deleted meanwhile
	if io.pos >= len(io.keys) {
		ex.set(fr, x, Tuple{c.False, zero(1), zero(2)})
		return
	}
	rest := io.keys[io.pos:]
	pick := len(rest) - 1
	if len(rest) > 1 {
		if len(io.keys) > 5 {
			ex.unsupported("range over a map of %d entries", len(io.keys))
		}
		for i := 0; i < len(rest)-1; i++ {
			b := c.Var(fmt.Sprintf("order!%d!%d!%d", it.id, io.pos, i), SBool)
			if ex.decide(b) {
				pick = i
				break
			}
		}
	}
	k := rest[pick]
	nk := append([]Value(nil), io.keys...)
	nk[io.pos], nk[io.pos+pick] = nk[io.pos+pick], nk[io.pos]
	io.keys = nk
	io.pos++
	o.it = &io
	m := ex.obj(io.m.obj).m
	p, v := ex.mapGet(m, k, true)
	if p != c.True && !ex.decide(p) {
		ex.unsupported("map entry removed during range")
	}
	ex.setObj(it.id, &o)
	ex.set(fr, x, Tuple{c.True, k, v})
}
