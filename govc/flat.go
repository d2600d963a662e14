package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists of any length and their concatenated encodings.
//
//	vFreshListX() []T      an arbitrary list
//	vFlatX(list) string    flat_X of every element, concatenated; its length is vSumX
//	same_X(a, b T) bool    a loop that builds a list element by element from another
//	                       list keeps same_X between corresponding elements, if every
//	                       iteration proves it for the element it appends
//
// The concatenation is one abstract sequence. It is unfolded at the element
// boundaries that the invariants of cut loops talk about.
type flatPt struct {
	list *Term
	g    *Term
}

type listLike struct {
	src *Term
	fn  *ssa.Function
}

func flatOf(t *Term) (string, *Term) {
	if t != nil && t.op == OApp && strings.HasPrefix(t.name, "flat.") {
		return strings.TrimPrefix(t.name, "flat."), t.args[0]
	}
	return "", nil
}

func (ex *Exec) flatAtom(kind string, list *Term) *Term {
	t := ex.c.App("flat."+kind, SSeq, list)
	if _, ok := ex.atomLens[t]; !ok {
		ex.atomLens[t] = ex.prefixFold("vSum"+kind, list, ex.atomLen(list))
	}
	return t
}

// flatNames lists the element encodings applicable to lists of elem.
func (ex *Exec) flatNames(elem types.Type) []string {
	var out []string
	for _, n := range sortedMembers(ex.w.pkg) {
		f, ok := ex.w.pkg.Members[n].(*ssa.Function)
		if ok && strings.HasPrefix(n, "flat_") && len(f.Params) == 1 && types.Identical(f.Params[0].Type(), elem) {
			out = append(out, strings.TrimPrefix(n, "flat_"))
		}
	}
	return out
}

// flatEl is flat_X of an element.
func (ex *Exec) flatEl(kind string, v Value) *Rope {
	fn := ex.specFn("flat_" + kind)
	if fn == nil {
		ex.unsupported("no element function flat_%s", kind)
	}
	saved := ex.st
	defer func() { ex.st = saved }()
	sub := saved.clone()
	sub.frames = nil
	ex.st = sub
	ex.pushCall(sub, Func{fn: fn}, []Value{v}, nil)
	ex.quiet++
	ends, good := ex.subRun(sub, func(s *State) bool { return len(s.frames) == 0 })
	ex.quiet--
	if !good || len(ends) != 1 {
		ex.unsupported("specification function %s", fn.Name())
	}
	r, ok := ends[0].result[0].(*Rope)
	if !ok {
		ex.unsupported("specification function %s", fn.Name())
	}
	return ex.norm(r)
}

// flatPoint makes the current state unfold lists' encodings at element g.
func (ex *Exec) flatPoint(list, g *Term) {
	old, _ := ex.st.ghost["$flat"].([]flatPt)
	for _, p := range old {
		if p.list == list && p.g == g {
			return
		}
	}
	ex.st.ghost["$flat"] = append(old[:len(old):len(old)], flatPt{list, g})
}

func (ex *Exec) flatPoints(list *Term) []*Term {
	var out []*Term
	old, _ := ex.st.ghost["$flat"].([]flatPt)
	for i := len(old) - 1; i >= 0; i-- {
		if old[i].list == list {
			out = append(out, old[i].g)
		}
	}
	return append(out, ex.c.zero)
}

// needInvariants: the encoding of an abstract list is useless where loops are unrolled.
func (ex *Exec) needInvariants() {
	if ex.flatUsed && (ex.noCut || len(ex.cutBad) > 0) {
		ex.unsupported("no invariant for a loop over a list of any length")
	}
}

// expandFlat unfolds the element of a concatenation that position pos falls in.
func (ex *Exec) expandFlat(r *Rope, pos *Term) *Rope {
	if r.elem != nil {
		return r
	}
	c := ex.c
	cum := c.zero
	for i, s := range r.segs {
		if kind, list := flatOf(s.atom); list != nil {
			p := c.Add(s.off, c.Sub(pos, cum))
			for _, g := range ex.flatPoints(list) {
				mid := ex.unfoldAt(kind, list, s, p, g)
				if mid == nil {
					continue
				}
				out := &Rope{segs: append(append(append([]Seg{}, r.segs[:i]...), mid...), r.segs[i+1:]...)}
				return ex.norm(out)
			}
		}
		cum = c.Add(cum, s.n)
	}
	return r
}

// unfoldAt splits segment s of a concatenation around element g, if p lies in it.
func (ex *Exec) unfoldAt(kind string, list *Term, s Seg, p, g *Term) []Seg {
	c := ex.c
	sum := "vSum" + kind
	lo := ex.prefixFold(sum, list, g)
	hi := ex.prefixFold(sum, list, c.Add(g, c.one))
	if !ex.prove(c.And(c.Le(c.zero, g), c.Lt(g, ex.atomLen(list)), c.Le(s.off, lo), c.Le(lo, p), c.Lt(p, hi))) {
		return nil
	}
	if !ex.prove(c.Le(hi, c.Add(s.off, s.n))) {
		return nil
	}
	f := ex.specFn("flat_" + kind)
	if f == nil {
		return nil
	}
	ex.learnElem(f.Params[0].Type(), list, g)
	el := ex.flatEl(kind, ex.elemOf(f.Params[0].Type(), list, g))
	if !ex.prove(c.Eq(c.Sub(hi, lo), ex.ropeLen(el))) {
		ex.unsupported("sum_%s is not the length of flat_%s", kind, kind)
	}
	out := []Seg{{atom: s.atom, off: s.off, n: c.Sub(lo, s.off)}}
	out = append(out, el.segs...)
	return append(out, Seg{atom: s.atom, off: hi, n: c.Sub(c.Add(s.off, s.n), hi)})
}

// hasFlat: some segment is a concatenation over a list.
func hasFlat(r *Rope) bool {
	if r == nil || r.elem != nil {
		return false
	}
	for _, s := range r.segs {
		if _, l := flatOf(s.atom); l != nil {
			return true
		}
	}
	return false
}

// ---- lists built from lists ----

func (ex *Exec) sameFns(elem types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range sortedMembers(ex.w.pkg) {
		f, ok := ex.w.pkg.Members[n].(*ssa.Function)
		if ok && strings.HasPrefix(n, "same_") && len(f.Params) == 2 && types.Identical(f.Params[0].Type(), elem) {
			out = append(out, f)
		}
	}
	return out
}

// likeHolds proves that the list v corresponds to lk.src element by element.
func (ex *Exec) likeHolds(lk *listLike, v Value) bool {
	s, ok := v.(Slice)
	if !ok {
		return false
	}
	if s.obj == 0 || ex.prove(ex.c.Eq(s.len, ex.c.zero)) {
		return true
	}
	c := ex.c
	r := ex.obj(s.obj).rope
	if r == nil || s.off != c.zero || !ex.prove(c.Eq(ex.ropeLen(r), s.len)) {
		return false
	}
	pos := c.zero
	t := lk.fn.Params[0].Type()
	for _, g := range ex.norm(r).segs {
		switch {
		case g.atom != nil:
			o := ex.likes[g.atom]
			if o == nil || *o != *lk || g.off != pos {
				return false
			}
		case g.el != nil:
			ex.learnElem(t, lk.src, pos)
			if !ex.prove(ex.evalSpec(lk.fn, []Value{g.el, ex.elemOf(t, lk.src, pos)}, false)) {
				return false
			}
		default:
			return false
		}
		pos = c.Add(pos, g.n)
	}
	return true
}

// havocLike is an arbitrary list that corresponds to lk.src.
func (ex *Exec) havocLike(l *cutLoc, name string) Value {
	c := ex.c
	at := c.Var(name+".list", SList)
	ex.likes[at] = l.like
	t := l.like.fn.Params[0].Type()
	ex.nextObj++
	id := ex.nextObj
	ex.setObj(id, &Obj{kind: kSeq, rope: ex.atomRope(at, t), ro: true, typ: t, name: name})
	n := ex.atomLen(at)
	return Slice{obj: id, off: c.zero, len: n, cap: n}
}

// findLike looks for the list that a growing list is built from.
func (ex *Exec) findLike(l *cutLoc, lists map[*Term]types.Type) {
	sl, ok := l.typ.Underlying().(*types.Slice)
	if !ok || l.keep {
		return
	}
	base := ex.st
	defer func() { ex.st = base }()
	for _, at := range ex.sortedLists(lists) {
		if !types.Identical(lists[at], sl.Elem()) {
			continue
		}
		for _, f := range ex.sameFns(sl.Elem()) {
			lk := &listLike{at, f}
			ex.st = base
			if !ex.likeHolds(lk, l.init) {
				continue
			}
			ex.st = l.sst
			if !ex.valueSame(l.s0, l.init) || ex.likeHolds(lk, l.s1) {
				l.like = lk
				return
			}
		}
	}
}

func (ex *Exec) sortedLists(lists map[*Term]types.Type) []*Term {
	m := map[string]*Term{}
	for t := range lists {
		m[t.String()] = t
	}
	var out []*Term
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}

// learnFlat: the elements at the unfolding points fit into the whole.
func (ex *Exec) learnFlat(f *Term) {
	kind, list := flatOf(f)
	if list == nil {
		return
	}
	c := ex.c
	for _, g := range ex.flatPoints(list) {
		n := c.Add(g, c.one)
		ex.assume(c.Or(c.Lt(ex.atomLen(list), n), c.Lt(g, c.zero), c.Le(ex.prefixFold("vSum"+kind, list, n), ex.atomLen(f))))
	}
}

// canon drops the parts of r that are provably empty and names whole sequences by
// their atoms; only worth its price where terms are compared by congruence.
func (ex *Exec) canon(r *Rope) *Rope {
	c := ex.c
	if r.elem != nil || len(ex.likes) == 0 && !ex.flatUsed {
		return r
	}
	out := &Rope{}
	for _, s := range r.segs {
		if !s.n.isConst() && ex.prove(c.Eq(s.n, c.zero)) {
			continue
		}
		if s.atom != nil {
			if n := ex.atomLen(s.atom); (s.off != c.zero || s.n != n) && ex.prove(c.And(c.Eq(s.off, c.zero), c.Eq(s.n, n))) {
				s.off, s.n = c.zero, n
			}
		}
		out.segs = append(out.segs, s)
	}
	return ex.norm(out)
}
