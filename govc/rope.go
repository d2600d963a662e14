package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Seg is one segment of a rope.
type Seg struct {
	el   Value // single element (byte ropes: *Term)
	lit  string
	atom *Term // segment of an atom
	off  *Term
	n    *Term // length (all kinds)
	zero Value // fill segment of n zero values
}

// Rope is a symbolic sequence. Byte ropes have elem == nil.
type Rope struct {
	segs []Seg
	elem types.Type // nil for bytes
}

func (r *Rope) String() string {
	var p []string
	for _, s := range r.segs {
		switch {
		case s.atom != nil:
			p = append(p, fmt.Sprintf("%v[%v:+%v]", s.atom, s.off, s.n))
		case s.zero != nil:
			p = append(p, fmt.Sprintf("zero*%v", s.n))
		case s.el != nil:
			p = append(p, "<"+showValue(s.el)+">")
		default:
			p = append(p, fmt.Sprintf("%q", s.lit))
		}
	}
	return "rope(" + strings.Join(p, " ++ ") + ")"
}

var maxLen = pow2(40)

func (ex *Exec) litRope(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	return &Rope{segs: []Seg{{lit: s, n: ex.c.Int(int64(len(s)))}}}
}

func (ex *Exec) atomLen(atom *Term) *Term {
	f := "slen"
	if atom.sort == SList {
		f = "llen"
	}
	if l, ok := ex.atomLens[atom]; ok {
		return l
	}
	return ex.c.AppRange(f, new(big.Int), maxLen, atom)
}

func (ex *Exec) atomRope(atom *Term, elem types.Type) *Rope {
	return ex.norm(&Rope{segs: []Seg{{atom: atom, off: ex.c.zero, n: ex.atomLen(atom)}}, elem: elem})
}

func (ex *Exec) ropeLen(r *Rope) *Term {
	ts := make([]*Term, len(r.segs))
	for i, s := range r.segs {
		ts[i] = s.n
	}
	return ex.c.Add(ts...)
}

func (ex *Exec) norm(r *Rope) *Rope {
	out := &Rope{elem: r.elem}
	for _, s := range r.segs {
		if s.n == ex.c.zero {
			continue
		}
		if s.el != nil && r.elem == nil {
			if t := s.el.(*Term); t.isConst() {
				s = Seg{lit: string([]byte{byte(t.k.Int64())}), n: ex.c.one}
			}
		}
		if len(out.segs) > 0 {
			p := &out.segs[len(out.segs)-1]
			if p.lit != "" && s.lit != "" {
				p.lit += s.lit
				p.n = ex.c.Int(int64(len(p.lit)))
				continue
			}
			if p.atom != nil && p.atom == s.atom && ex.c.Add(p.off, p.n) == s.off {
				p.n = ex.c.Add(p.n, s.n)
				continue
			}
			if p.zero != nil && s.zero != nil {
				p.n = ex.c.Add(p.n, s.n)
				continue
			}
		}
		out.segs = append(out.segs, s)
	}
	return out
}

func (ex *Exec) cat(rs ...*Rope) *Rope {
	out := &Rope{}
	for _, r := range rs {
		if r.elem != nil {
			out.elem = r.elem
		}
		out.segs = append(out.segs, r.segs...)
	}
	return ex.norm(out)
}

func (ex *Exec) subSeg(s Seg, off, n *Term) Seg {
	switch {
	case s.atom != nil:
		return Seg{atom: s.atom, off: ex.c.Add(s.off, off), n: n}
	case s.zero != nil:
		return Seg{zero: s.zero, n: n}
	case s.lit != "":
		if off.isConst() && n.isConst() {
			o, l := off.k.Int64(), n.k.Int64()
			return Seg{lit: s.lit[o : o+l], n: n}
		}
		a := ex.litAtom(s.lit)
		return Seg{atom: a, off: off, n: n}
	}
	// single element: only whole or empty
	return Seg{el: s.el, n: n}
}

// litAtom turns literal text into an atom with known bytes.
func (ex *Exec) litAtom(s string) *Term {
	t := ex.c.Var(fmt.Sprintf("lit:%x", s), SSeq)
	if len(t.ax) == 0 {
		var ax []*Term
		l := ex.atomLen(t)
		ax = append(ax, ex.c.Eq(l, ex.c.Int(int64(len(s)))))
		for i := 0; i < len(s); i++ {
			ax = append(ax, ex.c.Eq(ex.at(t, ex.c.Int(int64(i))), ex.c.Int(int64(s[i]))))
		}
		t.ax = ax
	}
	return t
}

func (ex *Exec) at(atom, idx *Term) *Term {
	return ex.c.AppRange("at", new(big.Int), big.NewInt(255), atom, idx)
}

// split cuts r at pos (0 <= pos <= len must hold on the path).
func (ex *Exec) split(r *Rope, pos *Term) (*Rope, *Rope) {
	c := ex.c
	if hasFlat(r) {
		r = ex.expandFlat(r, pos)
	}
	cum := c.zero
	for i, s := range r.segs {
		d := c.Sub(pos, cum)
		if d.isConst() && d.k.Sign() == 0 {
			return &Rope{segs: r.segs[:i:i], elem: r.elem}, &Rope{segs: r.segs[i:], elem: r.elem}
		}
		end := c.Add(cum, s.n)
		if ex.decide(c.Le(end, pos)) {
			cum = end
			continue
		}
		// cum <= pos < end
		if s.el != nil || (d.isConst() && d.k.Sign() == 0) {
			return &Rope{segs: r.segs[:i:i], elem: r.elem}, &Rope{segs: r.segs[i:], elem: r.elem}
		}
		if s.lit != "" && !d.isConst() {
			// concretise the position inside a literal
			for k := 0; k < len(s.lit); k++ {
				if ex.decide(c.Eq(d, c.Int(int64(k)))) {
					d = c.Int(int64(k))
					break
				}
			}
		}
		l := append(append([]Seg{}, r.segs[:i]...), ex.subSeg(s, c.zero, d))
		rr := append([]Seg{ex.subSeg(s, d, c.Sub(s.n, d))}, r.segs[i+1:]...)
		return ex.norm(&Rope{segs: l, elem: r.elem}), ex.norm(&Rope{segs: rr, elem: r.elem})
	}
	return r, &Rope{elem: r.elem}
}

func (ex *Exec) sub(r *Rope, off, n *Term) *Rope {
	if off == ex.c.zero && ex.ropeLen(r) == n {
		return r
	}
	_, rt := ex.split(r, off)
	l, _ := ex.split(rt, n)
	return ex.norm(l)
}

func (ex *Exec) update(r *Rope, off *Term, nw *Rope) *Rope {
	l, rt := ex.split(r, off)
	_, tail := ex.split(rt, ex.ropeLen(nw))
	return ex.cat(l, nw, tail)
}

// index reads one element (0 <= idx < len must hold).
func (ex *Exec) index(r *Rope, idx *Term) Value {
	c := ex.c
	if len(r.segs) == 0 {
		ex.unsupported("index into empty sequence")
	}
	if hasFlat(r) {
		r = ex.expandFlat(r, idx)
	}
	// tables of constants: an ite chain instead of forks
	if !idx.isConst() && r.elem == nil && len(r.segs) > 0 {
		total := 0
		ok := true
		for _, s := range r.segs {
			if s.lit != "" {
				total += len(s.lit)
			} else if s.el != nil {
				total++
			} else {
				ok = false
			}
		}
		if ok && total <= 64 && total > 0 {
			var vals []*Term
			for _, s := range r.segs {
				if s.lit != "" {
					for j := 0; j < len(s.lit); j++ {
						vals = append(vals, c.Int(int64(s.lit[j])))
					}
				} else {
					vals = append(vals, s.el.(*Term))
				}
			}
			res := vals[len(vals)-1]
			for j := len(vals) - 2; j >= 0; j-- {
				res = c.Ite(c.Eq(idx, c.Int(int64(j))), vals[j], res)
			}
			return res
		}
	}
	cum := c.zero
	for i, s := range r.segs {
		end := c.Add(cum, s.n)
		last := i == len(r.segs)-1
		if !last && ex.decide(c.Le(end, idx)) {
			cum = end
			continue
		}
		d := c.Sub(idx, cum)
		switch {
		case s.atom != nil:
			if r.elem == nil {
				return ex.at(s.atom, c.Add(s.off, d))
			}
			ex.learnElem(r.elem, s.atom, c.Add(s.off, d))
			return ex.elemOf(r.elem, s.atom, c.Add(s.off, d))
		case s.zero != nil:
			return s.zero
		case s.el != nil:
			return s.el
		default:
			if d.isConst() {
				k := d.k.Int64()
				if k < 0 || k >= int64(len(s.lit)) {
					ex.unsupported("literal index")
				}
				return c.Int(int64(s.lit[k]))
			}
			return ex.at(ex.litAtom(s.lit), d)
		}
	}
	return nil
}

// elemOf is element idx of an abstract non-byte sequence.
func (ex *Exec) elemOf(t types.Type, atom, idx *Term) Value {
	return ex.symOf(t, "el."+typeName(t), []*Term{atom, idx})
}

func typeName(t types.Type) string {
	return canonType(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

// seqTerm is the SMT term of a byte rope.
func (ex *Exec) seqTerm(r *Rope) *Term {
	c := ex.c
	if r.elem != nil {
		return ex.listTerm(r)
	}
	if len(r.segs) == 0 {
		return ex.litAtomEmpty()
	}
	var ts []*Term
	for _, s := range r.segs {
		switch {
		case s.atom != nil:
			if s.off == c.zero && s.n == ex.atomLen(s.atom) {
				ts = append(ts, s.atom)
			} else {
				ts = append(ts, c.App("ssub", SSeq, s.atom, s.off, s.n))
			}
		case s.zero != nil:
			ts = append(ts, c.App("szero", SSeq, s.n))
		case s.el != nil:
			ts = append(ts, c.App("sunit", SSeq, s.el.(*Term)))
		default:
			ts = append(ts, ex.litAtom(s.lit))
		}
	}
	t := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		t = c.App("scat", SSeq, ts[i], t)
	}
	return t
}

func (ex *Exec) litAtomEmpty() *Term {
	t := ex.c.Var("lit:", SSeq)
	if len(t.ax) == 0 {
		t.ax = []*Term{ex.c.Eq(ex.atomLen(t), ex.c.zero)}
	}
	return t
}

func (ex *Exec) listTerm(r *Rope) *Term {
	c := ex.c
	if len(r.segs) == 1 && r.segs[0].atom != nil && r.segs[0].off == c.zero && r.segs[0].n == ex.atomLen(r.segs[0].atom) {
		return r.segs[0].atom
	}
	var t *Term
	for i := len(r.segs) - 1; i >= 0; i-- {
		s := r.segs[i]
		var x *Term
		if s.atom != nil {
			x = c.App("lsub", SList, s.atom, s.off, s.n)
			if s.off == c.zero && s.n == ex.atomLen(s.atom) {
				x = s.atom
			}
		} else {
			ex.unsupported("list term with elements")
		}
		if t == nil {
			t = x
		} else {
			t = c.App("lcat", SList, x, t)
		}
	}
	if t == nil {
		t = c.Var("lnil", SList)
	}
	return t
}

// ropeEq builds a formula stating a == b (byte ropes); uses the path to align segments.
func (ex *Exec) ropeEq(a, b *Rope) *Term {
	c := ex.c
	conj := []*Term{c.Eq(ex.ropeLen(a), ex.ropeLen(b))}
	if conj[0] == c.False {
		return c.False
	}
	x := append([]Seg{}, a.segs...)
	y := append([]Seg{}, b.segs...)
	// strip equal prefix and suffix
	same := func(s, t Seg) bool {
		if s.n != t.n {
			return false
		}
		switch {
		case s.atom != nil:
			return t.atom == s.atom && s.off == t.off
		case s.zero != nil:
			return t.zero != nil
		case s.el != nil:
			if t.el == nil {
				return false
			}
			p, ok1 := s.el.(*Term)
			q, ok2 := t.el.(*Term)
			return ok1 && ok2 && p == q
		default:
			return t.lit == s.lit && t.atom == nil && t.el == nil && t.zero == nil
		}
	}
	for len(x) > 0 && len(y) > 0 && same(x[0], y[0]) {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && same(x[len(x)-1], y[len(y)-1]) {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 && len(y) == 0 {
		return c.And(conj...)
	}
	if len(x) == 0 || len(y) == 0 {
		return c.And(conj...) // the rest must have length 0, implied by equal lengths
	}
	lenEq := c.And(conj...)
	if !ex.prove(lenEq) {
		// as a hypothesis or an undetermined condition
		return ex.ropeEqOpaque(&Rope{segs: x, elem: a.elem}, &Rope{segs: y, elem: b.elem}, lenEq)
	}
	var parts []*Term
	parts = append(parts, lenEq)
	steps := 0
	for len(x) > 0 && len(y) > 0 {
		steps++
		if steps > 400 {
			ex.unsupported("sequence comparison too long")
		}
		s, t := x[0], y[0]
		if ex.prove(c.Eq(s.n, c.zero)) {
			x = x[1:]
			continue
		}
		if ex.prove(c.Eq(t.n, c.zero)) {
			y = y[1:]
			continue
		}
		if s.n == t.n || ex.prove(c.Eq(s.n, t.n)) {
			parts = append(parts, ex.segEq(a.elem, s, t))
			x, y = x[1:], y[1:]
			continue
		}
		if ex.prove(c.Le(s.n, t.n)) {
			if t.el != nil {
				return ex.ropeEqOpaque(a, b, lenEq)
			}
			if t.lit != "" && !s.n.isConst() && !ex.fixLen(&s, len(t.lit)) {
				return ex.ropeEqOpaque(a, b, lenEq)
			}
			h := ex.subSeg(t, c.zero, s.n)
			parts = append(parts, ex.segEq(a.elem, s, h))
			rest := ex.subSeg(t, s.n, c.Sub(t.n, s.n))
			x = x[1:]
			y = append([]Seg{rest}, y[1:]...)
			continue
		}
		if ex.prove(c.Le(t.n, s.n)) {
			if s.el != nil {
				return ex.ropeEqOpaque(a, b, lenEq)
			}
			if s.lit != "" && !t.n.isConst() && !ex.fixLen(&t, len(s.lit)) {
				return ex.ropeEqOpaque(a, b, lenEq)
			}
			h := ex.subSeg(s, c.zero, t.n)
			parts = append(parts, ex.segEq(a.elem, h, t))
			rest := ex.subSeg(s, t.n, c.Sub(s.n, t.n))
			y = y[1:]
			x = append([]Seg{rest}, x[1:]...)
			continue
		}
		return ex.ropeEqOpaque(a, b, lenEq)
	}
	return c.And(parts...)
}

// fixLen replaces the symbolic length of an atom segment by the constant the path implies.
func (ex *Exec) fixLen(s *Seg, max int) bool {
	if s.atom == nil {
		return false
	}
	for k := 1; k <= max && k <= 8; k++ {
		if n := ex.c.Int(int64(k)); ex.prove(ex.c.Eq(s.n, n)) {
			s.n = n
			return true
		}
	}
	return false
}

func (ex *Exec) segBytes(s Seg) []*Term {
	c := ex.c
	if s.lit != "" {
		var out []*Term
		for i := 0; i < len(s.lit); i++ {
			out = append(out, c.Int(int64(s.lit[i])))
		}
		return out
	}
	if s.el != nil {
		if t, ok := s.el.(*Term); ok {
			return []*Term{t}
		}
		return nil
	}
	if s.n.isConst() && s.n.k.Int64() <= 64 {
		var out []*Term
		for i := int64(0); i < s.n.k.Int64(); i++ {
			if s.zero != nil {
				out = append(out, c.zero)
			} else {
				out = append(out, ex.at(s.atom, c.Add(s.off, c.Int(i))))
			}
		}
		return out
	}
	return nil
}

// segEq: equality of two segments of (provably) equal length.
func (ex *Exec) segEq(elem types.Type, s, t Seg) *Term {
	c := ex.c
	if elem != nil {
		if s.atom != nil && t.atom != nil {
			if s.atom == t.atom {
				if ex.prove(c.Eq(s.off, t.off)) {
					return c.True
				}
			}
			return c.Eq(c.App("lsub", SList, s.atom, s.off, s.n), c.App("lsub", SList, t.atom, t.off, t.n))
		}
		if s.el != nil && t.el != nil {
			return ex.valueEq(elem, s.el, t.el)
		}
		if s.el != nil && t.atom != nil {
			return ex.valueEq(elem, s.el, ex.elemOf(elem, t.atom, t.off))
		}
		if t.el != nil && s.atom != nil {
			return ex.segEq(elem, t, s)
		}
		ex.unsupported("list comparison")
	}
	if s.atom != nil && t.atom != nil && s.atom == t.atom {
		if s.off == t.off || ex.prove(c.Eq(s.off, t.off)) {
			return c.True
		}
	}
	if s.zero != nil && t.zero != nil {
		return c.True
	}
	n := s.n
	if !n.isConst() {
		n = t.n
	}
	if n.isConst() && n.k.Int64() <= 64 {
		s.n, t.n = n, n
		p, q := ex.segBytes(s), ex.segBytes(t)
		if p != nil && q != nil && len(p) == len(q) {
			var parts []*Term
			for i := range p {
				parts = append(parts, c.Eq(p[i], q[i]))
			}
			return c.And(parts...)
		}
	}
	return c.Eq(ex.seqTerm(ex.canon(ex.norm(&Rope{segs: []Seg{s}}))), ex.seqTerm(ex.canon(ex.norm(&Rope{segs: []Seg{t}}))))
}

func (ex *Exec) ropeEqOpaque(a, b *Rope, lenEq *Term) *Term {
	c := ex.c
	// if one side is a short literal, compare bytes
	fin := func(r *Rope) []*Term {
		var out []*Term
		for _, s := range r.segs {
			bs := ex.segBytes(s)
			if bs == nil {
				return nil
			}
			out = append(out, bs...)
			if len(out) > 64 {
				return nil
			}
		}
		return out
	}
	if a.elem == nil {
		p, q := fin(a), fin(b)
		// one segment of unknown length against known bytes: equal lengths fix it
		solve := func(r *Rope, n int) []*Term {
			var out []*Term
			free := -1
			for i, s := range r.segs {
				if ex.segBytes(s) == nil {
					if free >= 0 || s.atom == nil {
						return nil
					}
					free = i
				}
			}
			if free < 0 {
				return nil
			}
			for i, s := range r.segs {
				if i != free {
					n -= len(ex.segBytes(s))
				}
			}
			for i, s := range r.segs {
				if i == free {
					for j := 0; j < n; j++ {
						out = append(out, ex.at(s.atom, c.Add(s.off, c.Int(int64(j)))))
					}
				} else {
					out = append(out, ex.segBytes(s)...)
				}
			}
			if n < 0 {
				return []*Term{nil}
			}
			return out
		}
		if q != nil && p == nil && len(a.segs) > 1 {
			p = solve(a, len(q))
		} else if p != nil && q == nil && len(b.segs) > 1 {
			q = solve(b, len(p))
		}
		if len(p) == 1 && p[0] == nil || len(q) == 1 && q[0] == nil {
			return c.False
		}
		if p != nil && q == nil && len(b.segs) == 1 && b.segs[0].atom != nil {
			a, b = b, a
			p, q = q, p
		}
		if q != nil && p == nil && len(a.segs) == 1 && a.segs[0].atom != nil {
			parts := []*Term{lenEq}
			s := a.segs[0]
			for i := range q {
				parts = append(parts, c.Eq(ex.at(s.atom, c.Add(s.off, c.Int(int64(i)))), q[i]))
			}
			return c.And(parts...)
		}
		if p != nil && q != nil {
			parts := []*Term{lenEq}
			if len(p) != len(q) {
				return c.False
			}
			for i := range q {
				parts = append(parts, c.Eq(p[i], q[i]))
			}
			return c.And(parts...)
		}
	}
	return c.And(lenEq, c.Eq(ex.seqTerm(ex.canon(ex.norm(a))), ex.seqTerm(ex.canon(ex.norm(b)))))
}
