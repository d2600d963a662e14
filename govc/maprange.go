package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Ranging over an abstract map. The iterator knows the sum of the entry sizes
// still to come (maps that carry a specification) and whether the ghost key
// (vGhostKey) was visited. Each step yields an arbitrary entry not visited
// before; the end is reached when nothing is left and the ghost key, if it is in
// the map, was visited.

// ghostKey is the ghost key as a key of type t, nil if it cannot be one.
func (ex *Exec) ghostKey(t types.Type) Value {
	g := ex.st.ghost["$gkey"]
	if g == nil {
		return nil
	}
	if types.IsInterface(t) {
		return g
	}
	if i, ok := g.(Iface); ok && i.typ != nil && types.Identical(i.typ, t) {
		return i.v
	}
	return nil
}

// pureEq is valueEq without case distinctions; nil if it does not apply.
func (ex *Exec) pureEq(t types.Type, a, b Value) *Term {
	c := ex.c
	if _, ok := a.(Iface); ok {
		a, b = b, a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Eq(x, y)
		}
	case *Rope:
		if y, ok := b.(*Rope); ok && x.elem == nil && y.elem == nil {
			return c.Eq(ex.seqTerm(ex.norm(x)), ex.seqTerm(ex.norm(y)))
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil
		}
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.False
		}
		return ex.pureEq(x.typ, x.v, y.v)
	case SymIface:
		switch y := b.(type) {
		case SymIface:
			return c.Eq(x.t, y.t)
		case Iface:
			if y.typ == nil {
				return c.Eq(ex.ifTag(x.t), c.zero)
			}
			if t := ex.ifaceTerm(y); t != nil {
				return c.Eq(x.t, t)
			}
		}
	}
	return nil
}

// ifaceTerm is the term of an interface holding a basic value.
func (ex *Exec) ifaceTerm(i Iface) *Term {
	c := ex.c
	if i.typ == nil {
		return nil
	}
	if _, ok := i.typ.Underlying().(*types.Basic); !ok {
		return nil
	}
	t := c.App("mkif."+typeName(i.typ), SIface, ex.flat(i.typ, i.v)...)
	if !ex.folded[t] {
		ex.folded[t] = true
		t.ax = append(t.ax, c.Eq(ex.ifTag(t), c.Int(ex.typeTag(i.typ))))
		if e := ex.pureEq(i.typ, ex.ifPayload(SymIface{t}, i.typ), i.v); e != nil {
			t.ax = append(t.ax, e)
		}
	}
	return t
}

// sameIface: an interface that holds the same value is the same.
func (ex *Exec) sameIface(k, gk Value) {
	c := ex.c
	x, ok := k.(SymIface)
	y, ok2 := gk.(Iface)
	if !ok || !ok2 {
		return
	}
	t := ex.ifaceTerm(y)
	if t == nil {
		return
	}
	if e := ex.pureEq(y.typ, ex.ifPayload(x, y.typ), y.v); e != nil {
		ex.assume(c.Implies(c.And(c.Eq(ex.ifTag(x.t), c.Int(ex.typeTag(y.typ))), e), c.Eq(x.t, t)))
	}
}

// hasTerm: key k is in the map.
func (ex *Exec) hasTerm(m *MapObj, k Value) *Term {
	r := ex.c.False
	if m.base != nil {
		r = ex.basePresent(m, k)
	}
	for _, u := range m.ups {
		e := ex.pureEq(m.key, u.k, k)
		if e == nil || u.presT != nil {
			return nil
		}
		r = ex.c.Ite(e, ex.c.Bool(u.present), r)
	}
	return r
}

// holdsTerm: the map holds want for key k.
func (ex *Exec) holdsTerm(m *MapObj, k, want Value) *Term {
	r := ex.c.False
	if m.base != nil {
		e := ex.pureEq(m.elem, ex.baseValue(m, k), want)
		if e == nil {
			return nil
		}
		r = ex.c.And(ex.basePresent(m, k), e)
	}
	for _, u := range m.ups {
		e := ex.pureEq(m.key, u.k, k)
		if e == nil || u.presT != nil {
			return nil
		}
		v := ex.c.False
		if u.present {
			if v = ex.pureEq(m.elem, u.v, want); v == nil {
				return nil
			}
		}
		r = ex.c.Ite(e, v, r)
	}
	return r
}

// rangeAbs starts the iteration.
func (ex *Exec) rangeAbs(it *IterObj, m *MapObj) {
	if len(m.ups) > 0 {
		ex.unsupported("range over a changed abstract map")
	}
	it.base = m.base
	it.seen = ex.c.False
	it.more = ex.c.AppRange("mlen", ex.c.zero.k, maxLen, m.base)
	if m.spec != nil {
		it.left = ex.mapEncLen(m.base)
	}
}

// nextAbs is one step; it returns the new iterator state and the entry.
func (ex *Exec) nextAbs(id int, io IterObj, x *ssa.Next) (*IterObj, Value, Value, bool) {
	c := ex.c
	m := ex.obj(io.m.obj).m
	if m.base != io.base || len(m.ups) > 0 {
		ex.unsupported("map changed during range")
	}
	name := fmt.Sprintf("range!%d!%d", id, io.pos)
	gk := ex.ghostKey(m.key)
	if !ex.decide(c.Var(name+".more", SBool)) {
		ex.assume(c.Eq(io.more, c.zero))
		if io.left != nil {
			ex.assume(c.Eq(io.left, c.zero))
		}
		if gk != nil {
			ex.assume(c.Or(c.Not(ex.basePresent(m, gk)), io.seen))
		}
		return nil, nil, nil, false
	}
	ex.assume(c.Lt(c.zero, io.more))
	io.more = c.Sub(io.more, c.one)
	k := ex.symOf(m.key, name+".key", nil)
	ex.assume(ex.basePresent(m, k))
	v := ex.baseValue(m, k)
	ex.learnEntry(m, k, v)
	if io.left != nil {
		l := ex.mapEntryLen(k, v)
		ex.assume(c.Le(l, io.left))
		io.left = c.Sub(io.left, l)
	}
	if gk != nil {
		e := ex.pureEq(m.key, k, gk)
		if e == nil {
			ex.unsupported("range over a map with ghost key")
		}
		ex.sameIface(k, gk)
		ex.assume(c.Not(c.And(io.seen, e)))
		io.seen = c.Or(io.seen, e)
	}
	io.pos++
	return &io, k, v, true
}

// mapItems are the truth values an invariant of a loop over a map can talk about.
func (ex *Exec) mapItems(locs []*cutLoc) ([]*cutItem, []*cutCand) {
	c := ex.c
	var items []*cutItem
	var cands []*cutCand
	mk := func(l *cutLoc, name string, get func(Value) *Term) *cutItem {
		i, cu := get(l.init), get(l.cur)
		if i == nil || cu == nil {
			return nil
		}
		it := &cutItem{name: name, l: l, init: i, cur: cu, get: get, logic: true}
		items = append(items, it)
		return it
	}
	for _, l := range locs {
		io, ok := l.init.(*IterObj)
		if !ok {
			continue
		}
		src := ex.obj(io.m.obj).m
		gk := ex.ghostKey(src.key)
		if gk == nil {
			continue
		}
		seen := mk(l, "seen", func(v Value) *Term { return v.(*IterObj).seen })
		want := ex.baseValue(src, gk)
		cands = append(cands, &cutCand{desc: "ghost key not visited", mk: func(v func(*cutItem) *Term) *Term { return c.Not(v(seen)) }})
		for _, l := range locs {
			m, ok := l.init.(*MapObj)
			if !ok {
				continue
			}
			k := ex.ghostKey(m.key)
			if k == nil {
				continue
			}
			if has := mk(l, "has", func(v Value) *Term { return ex.hasTerm(v.(*MapObj), k) }); has != nil {
				cands = append(cands, &cutCand{desc: l.name + " has the ghost key iff it was visited", mk: func(v func(*cutItem) *Term) *Term { return c.Iff(v(has), v(seen)) }})
			}
			if !types.Identical(m.elem, src.elem) {
				continue
			}
			if holds := mk(l, "holds", func(v Value) *Term { return ex.holdsTerm(v.(*MapObj), k, want) }); holds != nil {
				cands = append(cands, &cutCand{desc: l.name + " holds the value of the ghost key", mk: func(v func(*cutItem) *Term) *Term { return c.Implies(v(seen), v(holds)) }})
			}
		}
	}
	return items, cands
}
