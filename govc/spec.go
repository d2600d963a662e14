package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ghost measures and predicates over abstract maps and lists.
//
//	vMapSpec(t)         maps whose type matches spec_MapOK(t int, k, v) bool and
//	                    spec_MapLen(k, v) int carry, while abstract, the knowledge
//	                    that every entry satisfies spec_MapOK(t, ...) and the sum of
//	                    spec_MapLen over the entries (vMapLenX).
//	vSumX(list) int     the sum of sum_X(el) over a list
//	vAllX(list) bool    every element satisfies all_X(el)

func (ex *Exec) specFn(name string) *ssa.Function {
	f := ex.w.pkg.Func(name)
	if f == nil || f.Blocks == nil {
		return nil
	}
	return f
}

// evalSpec evaluates a scalar specification function over all its paths.
func (ex *Exec) evalSpec(fn *ssa.Function, args []Value, pure bool) *Term {
	c := ex.c
	saved := ex.st
	defer func() { ex.st = saved }()
	var sub *State
	base := 0
	if pure {
		sub = ex.freshState()
	} else {
		sub = saved.clone()
		base = len(sub.pc)
	}
	sub.frames = nil
	ex.st = sub
	ex.pushCall(sub, Func{fn: fn}, args, nil)
	ex.quiet++
	ends, good := ex.subRun(sub, func(s *State) bool { return len(s.frames) == 0 })
	ex.quiet--
	if !good || len(ends) == 0 {
		ex.unsupported("specification function %s", fn.Name())
	}
	var out *Term
	for i := len(ends) - 1; i >= 0; i-- {
		v, ok := ends[i].result[0].(*Term)
		if !ok {
			ex.unsupported("specification function %s", fn.Name())
		}
		if out == nil {
			out = v
		} else {
			out = c.Ite(c.And(ends[i].pc[base:]...), v, out)
		}
	}
	return out
}

// mapSpec returns the specification argument in force for a map type.
func (ex *Exec) mapSpec(key, elem types.Type) *Term {
	if ex.st == nil {
		return nil
	}
	t, _ := ex.st.ghost["$mapspec"].(*Term)
	if t == nil {
		return nil
	}
	f := ex.specFn("spec_MapOK")
	if f == nil || len(f.Params) != 3 || !types.Identical(f.Params[1].Type(), key) || !types.Identical(f.Params[2].Type(), elem) {
		return nil
	}
	return t
}

func (ex *Exec) mapEntryOK(t *Term, k, v Value) *Term {
	return ex.evalSpec(ex.specFn("spec_MapOK"), []Value{t, k, v}, false)
}

func (ex *Exec) mapEntryLen(k, v Value) *Term {
	return ex.evalSpec(ex.specFn("spec_MapLen"), []Value{k, v}, false)
}

// mapMeasure is the sum of the entry sizes.
func (ex *Exec) mapMeasure(m *MapObj) *Term {
	c := ex.c
	sum := c.zero
	if m.base != nil {
		sum = ex.mapEncLen(m.base)
	}
	for _, u := range m.ups {
		if m.base != nil {
			has := ex.basePresent(m, u.k)
			if v, ok := ex.known(has); !ok || v {
				sum = c.Sub(sum, c.Ite(has, ex.mapEntryLen(u.k, ex.baseValue(m, u.k)), c.zero))
			}
		}
		if u.present {
			sum = c.Add(sum, ex.mapEntryLen(u.k, u.v))
		}
	}
	return sum
}

// mapOK: every entry satisfies the specification with argument t.
func (ex *Exec) mapOK(m *MapObj, t *Term) *Term {
	c := ex.c
	if m.base != nil && m.spec != t {
		return c.App("plegal", SBool, m.base, t)
	}
	r := c.True
	for _, u := range m.ups {
		if u.present {
			r = c.And(r, ex.mapEntryOK(t, u.k, u.v))
		}
	}
	return r
}

// learnEntry adds what is known about a present entry of the abstract part.
func (ex *Exec) learnEntry(m *MapObj, k, v Value) {
	if m.spec == nil || ex.inSpec {
		return
	}
	ex.inSpec = true
	defer func() { ex.inSpec = false }()
	ex.assume(ex.mapEntryOK(m.spec, k, v))
	l := ex.mapEntryLen(k, v)
	ex.assume(ex.c.Le(ex.c.zero, l))
	ex.assume(ex.c.Le(l, ex.mapEncLen(m.base)))
}

// ---- lists ----

func (ex *Exec) foldFn(name string) (*ssa.Function, bool) {
	sum := strings.HasPrefix(name, "vSum")
	n := "all_" + strings.TrimPrefix(name, "vAll")
	if sum {
		n = "sum_" + strings.TrimPrefix(name, "vSum")
	}
	f := ex.specFn(n)
	if f == nil {
		ex.unsupported("%s: no element function %s", name, n)
	}
	return f, sum
}

// prefixFold is the fold of the first n elements of an abstract list.
func (ex *Exec) prefixFold(name string, atom, n *Term) *Term {
	c := ex.c
	f, sum := ex.foldFn(name)
	if n == c.zero {
		if sum {
			return c.zero
		}
		return c.True
	}
	mk := func(n *Term) *Term {
		if sum {
			return c.AppRange(name, c.zero.k, maxLen, atom, n)
		}
		return c.App(name, SBool, atom, n)
	}
	t := mk(n)
	if ex.folded[t] {
		return t
	}
	ex.folded[t] = true
	pre := c.Sub(n, c.one)
	var ev Value
	if atom.sort == SSeq {
		ev = ex.at(atom, pre)
	} else {
		ev = ex.elemOf(f.Params[0].Type(), atom, pre)
	}
	el := ex.evalSpec(f, []Value{ev}, true)
	prev := mk(pre)
	if pre == c.zero {
		if sum {
			prev = c.zero
		} else {
			prev = c.True
		}
	}
	all := mk(ex.atomLen(atom))
	pos := c.Lt(c.zero, n)
	if sum {
		t.ax = append(t.ax, c.Implies(c.Eq(n, c.zero), c.Eq(t, c.zero)), c.Implies(pos, c.Eq(t, c.Add(prev, el))))
		if t != all {
			t.ax = append(t.ax, c.Implies(c.Le(n, ex.atomLen(atom)), c.Le(t, all)))
		}
	} else {
		t.ax = append(t.ax, c.Implies(c.Eq(n, c.zero), t), c.Implies(pos, c.Iff(t, c.And(prev, el))))
		if t != all {
			t.ax = append(t.ax, c.Implies(c.And(c.Le(n, ex.atomLen(atom)), all), t))
		}
	}
	return t
}

// learnElem makes what vAllX says of a list known of an element that is read.
func (ex *Exec) learnElem(elem types.Type, atom, i *Term) {
	if ex.cutAt == 0 && !ex.noCut {
		return
	}
	c := ex.c
	_, isPtr := elem.Underlying().(*types.Pointer)
	for _, name := range ex.foldNames(elem) {
		if strings.HasPrefix(name, "vAll") {
			all := c.App(name, SBool, atom, ex.atomLen(atom))
			if isPtr && !ex.prove(all) {
				continue
			}
			ex.assume(c.Or(c.Not(all), c.Le(ex.atomLen(atom), i), ex.prefixFold(name, atom, c.Add(i, c.one))))
		}
	}
	if lk := ex.likes[atom]; lk != nil {
		same := ex.evalSpec(lk.fn, []Value{ex.elemOf(elem, atom, i), ex.elemOf(elem, lk.src, i)}, false)
		ex.assume(c.Or(c.Le(ex.atomLen(atom), i), c.Lt(i, c.zero), same))
	}
}

// fold evaluates vSumX / vAllX of a list.
func (ex *Exec) fold(name string, r *Rope) *Term {
	c := ex.c
	f, sum := ex.foldFn(name)
	res := c.True
	if sum {
		res = c.zero
	}
	for _, s := range r.segs {
		var x *Term
		switch {
		case s.el != nil:
			x = ex.evalSpec(f, []Value{s.el}, false)
		case s.lit != "":
			x = res
			for _, b := range []byte(s.lit) {
				y := ex.evalSpec(f, []Value{c.Int(int64(b))}, false)
				if sum {
					x = c.Add(x, y)
				} else {
					x = c.And(x, y)
				}
			}
		case s.atom != nil:
			if !sum && s.off != c.zero {
				ex.unsupported("%s of a tail", name)
			}
			x = ex.prefixFold(name, s.atom, c.Add(s.off, s.n))
			if sum && s.off != c.zero {
				x = c.Sub(x, ex.prefixFold(name, s.atom, s.off))
			}
		default:
			ex.unsupported("%s of %v", name, r)
		}
		if s.lit != "" {
			res = x
		} else if sum {
			res = c.Add(res, x)
		} else {
			res = c.And(res, x)
		}
	}
	return res
}

// foldNames lists the folds applicable to lists of elem.
func (ex *Exec) foldNames(elem types.Type) []string {
	var out []string
	for _, n := range sortedMembers(ex.w.pkg) {
		f, ok := ex.w.pkg.Members[n].(*ssa.Function)
		if !ok || !(strings.HasPrefix(n, "vSum") || strings.HasPrefix(n, "vAll")) || len(f.Params) != 1 {
			continue
		}
		if s, ok := f.Params[0].Type().Underlying().(*types.Slice); ok && (types.Identical(s.Elem(), elem) || isByteElem(s.Elem()) && isByteElem(elem)) {
			out = append(out, n)
		}
	}
	return out
}

func sortedMembers(p *ssa.Package) []string {
	m := map[string]bool{}
	for k := range p.Members {
		m[k] = true
	}
	return sortedKeys(m)
}
