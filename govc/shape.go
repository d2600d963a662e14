package main

import (
	"fmt"
	"go/types"
	"os"
)

// Functional invariants of loops over byte sequences, found from one iteration
// and proved preserved like the others:
//
//	append     a slice holds what it held at the cut point followed by
//	           src[start : start+k], k the growth of its length
//	overwrite  an object holds what it held with [a, a+k) replaced by
//	           src[start : start+k] (any bytes if src is nil), k the growth of
//	           an integer that was a at the cut point
type cutShape struct {
	src   *Term
	start *Term
	by    *cutLoc // overwrite: the integer
	at    *Term   // overwrite: position in the object
	by0   *Term   // overwrite: the integer's value at the cut point
	init  *Rope
}

// splitP is split by proof only; nil if the position is not determined.
func (ex *Exec) splitP(r *Rope, pos *Term) (*Rope, *Rope) {
	c := ex.c
	if hasFlat(r) {
		r = ex.expandFlat(r, pos)
	}
	cum := c.zero
	for i, s := range r.segs {
		d := c.Sub(pos, cum)
		if d == c.zero || ex.prove(c.Eq(d, c.zero)) {
			return &Rope{segs: r.segs[:i:i], elem: r.elem}, &Rope{segs: r.segs[i:], elem: r.elem}
		}
		end := c.Add(cum, s.n)
		if ex.prove(c.Le(end, pos)) {
			cum = end
			continue
		}
		if !ex.prove(c.And(c.Le(cum, pos), c.Le(pos, end))) || s.el != nil || s.lit != "" && !d.isConst() {
			return nil, nil
		}
		l := append(append([]Seg{}, r.segs[:i]...), ex.subSeg(s, c.zero, d))
		rr := append([]Seg{ex.subSeg(s, d, c.Sub(s.n, d))}, r.segs[i+1:]...)
		return ex.norm(&Rope{segs: l, elem: r.elem}), ex.norm(&Rope{segs: rr, elem: r.elem})
	}
	return r, &Rope{elem: r.elem}
}

// contentP is the content of a slice of bytes, nil if it is not determined.
func (ex *Exec) contentP(v Value) *Rope {
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	if s.obj == 0 {
		return &Rope{}
	}
	r := ex.obj(s.obj).rope
	if r == nil || r.elem != nil {
		return nil
	}
	if s.off == ex.c.zero && s.len == ex.ropeLen(r) {
		return ex.norm(r)
	}
	_, t := ex.splitP(r, s.off)
	if t == nil {
		return nil
	}
	t, _ = ex.splitP(t, s.len)
	if t == nil {
		return nil
	}
	return ex.norm(t)
}

// sourceOf: the sequence and position a byte or chunk comes from.
func sourceOf(s Seg) (*Term, *Term) {
	if s.atom != nil {
		return s.atom, s.off
	}
	if t, ok := s.el.(*Term); ok && t != nil && t.op == OApp && t.name == "at" {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// appendShape: b is a followed by part of one sequence.
func (ex *Exec) appendShape(a, b Value) *cutShape {
	x, y := ex.contentP(a), ex.contentP(b)
	if x == nil || y == nil {
		return nil
	}
	head, rest := ex.splitP(y, ex.ropeLen(x))
	if head == nil || len(rest.segs) == 0 || !ex.prove(ex.ropeEq(head, x)) {
		return nil
	}
	src, start := sourceOf(rest.segs[0])
	if src == nil {
		return nil
	}
	return &cutShape{src: src, start: start, init: x}
}

// samePrefix is the length of the common beginning of two sequences of equal length.
func (ex *Exec) samePrefix(a, b *Rope) *Term {
	c := ex.c
	n := c.zero
	x, y := append([]Seg{}, a.segs...), append([]Seg{}, b.segs...)
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p.atom != nil && p.atom == q.atom && p.off == q.off {
			if p.n == q.n || ex.prove(c.Eq(p.n, q.n)) {
				n = c.Add(n, p.n)
				x, y = x[1:], y[1:]
				continue
			}
			switch {
			case ex.prove(c.Le(p.n, q.n)):
				n = c.Add(n, p.n)
				x = x[1:]
				y[0] = ex.subSeg(q, p.n, c.Sub(q.n, p.n))
			case ex.prove(c.Le(q.n, p.n)):
				n = c.Add(n, q.n)
				y = y[1:]
				x[0] = ex.subSeg(p, q.n, c.Sub(p.n, q.n))
			default:
				return n
			}
			continue
		}
		if p.lit != "" && q.lit != "" {
			k := 0
			for k < len(p.lit) && k < len(q.lit) && p.lit[k] == q.lit[k] {
				k++
			}
			if k == 0 {
				return n
			}
			kt := c.Int(int64(k))
			n = c.Add(n, kt)
			next := func(s []Seg) []Seg {
				if len(s[0].lit) == k {
					return s[1:]
				}
				s[0] = ex.subSeg(s[0], kt, c.Sub(s[0].n, kt))
				return s
			}
			x, y = next(x), next(y)
			continue
		}
		if p.el != nil && q.el != nil && ex.valueSame(p.el, q.el) {
			n = c.Add(n, c.one)
			x, y = x[1:], y[1:]
			continue
		}
		return n
	}
	return n
}

// overShape: the object was written to from where it first differs, while the
// integer grew.
func (ex *Exec) overShape(a, b *Rope, by *cutLoc) *cutShape {
	t, ok := by.init.(*Term)
	t1, ok1 := by.s1.(*Term)
	if !ok || !ok1 || t.sort != SInt || !ex.prove(ex.c.Lt(t, t1)) {
		return nil
	}
	a, b = ex.norm(a), ex.norm(b)
	pos := ex.samePrefix(a, b)
	q, rest := ex.splitP(b, pos)
	if q == nil || len(rest.segs) == 0 {
		return nil
	}
	src, start := sourceOf(rest.segs[0])
	if cutDebug {
		fmt.Fprintf(os.Stderr, "   overwrite at %s by %s from %v\n", short(pos), by.name, src)
	}
	return &cutShape{src: src, start: start, by: by, at: pos, by0: t, init: a}
}

// shaped builds the content for growth k, and the condition under which it exists.
func (ex *Exec) shaped(sh *cutShape, k *Term, fresh *Term) (*Rope, *Term) {
	c := ex.c
	cond := c.Le(c.zero, k)
	var mid *Rope
	switch {
	case sh.src != nil:
		cond = c.And(cond, c.Le(c.zero, sh.start), c.Le(c.Add(sh.start, k), ex.atomLen(sh.src)))
		mid = &Rope{segs: []Seg{{atom: sh.src, off: sh.start, n: k}}}
	default:
		mid = &Rope{segs: []Seg{{atom: fresh, off: c.zero, n: k}}}
	}
	if sh.by == nil {
		return ex.cat(sh.init, mid), cond
	}
	cond = c.And(cond, c.Le(c.Add(sh.at, k), ex.ropeLen(sh.init)))
	return mid, cond
}

// overwritten puts mid at sh.at of the initial content.
func (ex *Exec) overwritten(sh *cutShape, mid *Rope, k *Term) *Rope {
	head, rest := ex.splitP(sh.init, sh.at)
	if head == nil {
		return nil
	}
	_, tail := ex.splitP(rest, k)
	if tail == nil {
		return nil
	}
	return ex.cat(head, mid, tail)
}

// growth of the shape's measure in a location value.
func (ex *Exec) growth(sh *cutShape, l *cutLoc, v Value, by Value) *Term {
	if sh.by != nil {
		t, ok := by.(*Term)
		if !ok {
			return nil
		}
		return ex.c.Sub(t, sh.by0)
	}
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	return ex.c.Sub(s.len, ex.ropeLen(sh.init))
}

// shapeHolds proves the shape of a location in the current state.
func (ex *Exec) shapeHolds(sh *cutShape, l *cutLoc, v Value, by Value) bool {
	k := ex.growth(sh, l, v, by)
	if k == nil {
		return false
	}
	var got *Rope
	if sh.by != nil {
		got, _ = v.(*Rope)
	} else {
		got = ex.contentP(v)
	}
	if got == nil {
		return false
	}
	if sh.src == nil { // frame only
		_, cond := ex.shaped(sh, k, ex.litAtomEmpty())
		if !ex.prove(cond) {
			return false
		}
		h0, r0 := ex.splitP(sh.init, sh.at)
		h1, r1 := ex.splitP(got, sh.at)
		if h0 == nil || h1 == nil {
			return false
		}
		_, t0 := ex.splitP(r0, k)
		_, t1 := ex.splitP(r1, k)
		return t0 != nil && t1 != nil && ex.prove(ex.ropeEq(h0, h1)) && ex.prove(ex.ropeEq(t0, t1))
	}
	ex.learnFlat(sh.src)
	want, cond := ex.shaped(sh, k, nil)
	if !ex.prove(cond) {
		return false
	}
	if _, list := flatOf(sh.src); list != nil {
		kind, _ := flatOf(sh.src)
		for _, g := range ex.flatPoints(list) {
			if ex.prove(ex.c.Eq(k, ex.prefixFold("vSum"+kind, list, ex.c.Add(g, ex.c.one)))) {
				want = ex.expandFlat(want, ex.prefixFold("vSum"+kind, list, g))
				break
			}
		}
	}
	if sh.by != nil {
		if want = ex.overwritten(sh, want, k); want == nil {
			return false
		}
	}
	return ex.prove(ex.ropeEq(ex.norm(got), want))
}

// weaker keeps the frame of an overwrite whose content was not right.
func (ex *Exec) weaker(sh *cutShape) *cutShape {
	if sh.by == nil || sh.src == nil {
		return nil
	}
	n := *sh
	n.src, n.start = nil, nil
	return &n
}

// havocShape is the arbitrary value of a location of known shape.
func (ex *Exec) havocShape(l *cutLoc, name string, by Value) Value {
	c := ex.c
	sh := l.shape
	if sh.by != nil {
		k := ex.growth(sh, l, nil, by)
		var fresh *Term
		if sh.src == nil {
			fresh = c.Var(name+".seq", SSeq)
		}
		mid, cond := ex.shaped(sh, k, fresh)
		ex.assume(cond)
		if fresh != nil {
			ex.assume(c.Le(k, ex.atomLen(fresh)))
		}
		r := ex.overwritten(sh, mid, k)
		if r == nil {
			panic(cutFail{"overwritten part not placed"})
		}
		return r
	}
	k := c.VarRange(name+".grown", c.zero.k, maxLen)
	r, cond := ex.shaped(sh, k, nil)
	ex.assume(cond)
	n := ex.ropeLen(r)
	el := types.Type(types.Typ[types.Uint8])
	if s, ok := l.typ.Underlying().(*types.Slice); ok {
		el = s.Elem()
	}
	ex.nextObj++
	id := ex.nextObj
	ex.setObj(id, &Obj{kind: kSeq, rope: r, ro: true, typ: el, name: name})
	return Slice{obj: id, off: c.zero, len: n, cap: n}
}

// findShape looks for the shape of a location in its first iteration; ex.st is the
// state at the cut point.
func (ex *Exec) findShape(l *cutLoc, locs []*cutLoc, lists map[*Term]types.Type) {
	base := ex.st
	holds := func(sh *cutShape) bool {
		var by Value
		if sh.by != nil {
			by = sh.by.init
		}
		ex.st = base
		return ex.shapeHolds(sh, l, l.init, by)
	}
	ex.st = l.sst
	if _, ok := l.init.(Slice); ok && !l.keep {
		if sh := ex.appendShape(l.s0, l.s1); sh != nil && holds(sh) {
			l.shape = sh
		}
		return
	}
	a, ok := l.s0.(*Rope)
	b, ok2 := l.s1.(*Rope)
	if !ok || !ok2 || l.phi != nil || len(l.path) > 0 || a.elem != nil {
		return
	}
	var frame *cutShape
	for _, by := range locs {
		if t, ok := by.init.(*Term); by == l || !ok || t.sort != SInt {
			continue
		}
		ex.st = l.sst
		sh := ex.overShape(a, b, by)
		if sh == nil || !holds(sh) {
			continue
		}
		for _, at := range ex.sortedLists(lists) {
			for _, kind := range ex.flatNames(lists[at]) {
				fs := *sh
				fs.src, fs.start = ex.flatAtom(kind, at), ex.c.zero
				if !holds(&fs) {
					continue
				}
				ex.st = l.sst
				if ex.valueSame(l.s0, l.init) && ex.shapeHolds(&fs, l, l.s1, by.s1) {
					l.shape = &fs
					return
				}
			}
		}
		if sh.src != nil {
			l.shape = sh
			return
		}
		if frame == nil {
			frame = sh
		}
	}
	l.shape = frame
}
