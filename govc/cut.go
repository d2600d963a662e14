package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inductive treatment of loops (switched on by vCut). When a loop runs past the
// peeling bound, everything its body can change is replaced by arbitrary values
// subject to an invariant, one arbitrary iteration is executed, the invariant is
// proved to be preserved, and execution continues from the exits of that
// iteration. What the body changes is found by executing it; the invariant is
// the largest subset of a family of linear candidates that holds on entry and is
// preserved (Houdini). Both are proved, not trusted: an iteration that changes
// anything else, or breaks a candidate, starts the computation over.

var cutDebug = os.Getenv("GOVC_CUT") != ""

type cutLoc struct {
	phi  *ssa.Phi
	obj  int
	path []int
	typ  types.Type
	init Value
	ok   bool // map whose entries all satisfy the specification
	keep bool // slice of the same object: only the bounds change
	cur  Value
	name string

	shape  *cutShape // functional invariant
	like   *listLike // list built from a list
	tried  bool
	s0, s1 Value  // before and after one iteration from the cut point
	sst    *State // the state after it
}

type cutItem struct {
	name  string
	l     *cutLoc
	init  *Term
	cur   *Term
	get   func(Value) *Term
	logic bool // a truth value
}

type cutCand struct {
	desc  string
	mk    func(val func(*cutItem) *Term) *Term
	learn func(val func(*cutItem) *Term) *Term // a fact that unfolds the fold once more
	point func(val func(*cutItem) *Term)       // unfolds the concatenation
	item  *cutItem
	low   bool
	up    bool
}

type cutFail struct{ why string }

func (ex *Exec) naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	return in
}

func (ex *Exec) valueSame(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && (x == y || x.sort == y.sort && ex.prove(ex.c.Eq(x, y)))
	case *Rope:
		y, ok := b.(*Rope)
		if !ok || (x.elem == nil) != (y.elem == nil) {
			return false
		}
		return x == y || ex.seqTerm(ex.norm(x)) == ex.seqTerm(ex.norm(y))
	case Slice:
		y, ok := b.(Slice)
		return ok && x.obj == y.obj && (x.obj == 0 || ex.valueSame(x.off, y.off) && ex.valueSame(x.cap, y.cap)) && ex.valueSame(x.len, y.len)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.obj != y.obj || x.ref != y.ref || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.field != q.field || (p.idx == nil) != (q.idx == nil) || p.idx != nil && !ex.valueSame(p.idx, q.idx) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !ex.valueSame(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.typ == nil) != (y.typ == nil) {
			return false
		}
		return x.typ == nil || types.Identical(x.typ, y.typ) && ex.valueSame(x.v, y.v)
	case SymIface:
		y, ok := b.(SymIface)
		return ok && x.t == y.t
	case MapV:
		return a == b
	case Func:
		y, ok := b.(Func)
		if !ok || x.fn != y.fn || x.bi != y.bi || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !ex.valueSame(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !ex.valueSame(x[i], y[i]) {
				return false
			}
		}
		return true
	case MapIter:
		return a == b
	case Regexp:
		return a == b
	}
	return false
}

// diffCell lists the leaves of a cell that differ.
func (ex *Exec) diffCell(t types.Type, path []int, a, b Value, out func([]int, types.Type, Value, Value)) {
	if ex.valueSame(a, b) {
		return
	}
	x, ok1 := a.(Struct)
	y, ok2 := b.(Struct)
	st, ok3 := types.Type(nil), false
	if t != nil {
		st, ok3 = t.Underlying(), true
	}
	if ok1 && ok2 && ok3 {
		if s, ok := st.(*types.Struct); ok && s.NumFields() == len(x.f) && !isTime(t) {
			for i := range x.f {
				ex.diffCell(s.Field(i).Type(), append(path[:len(path):len(path)], i), x.f[i], y.f[i], out)
			}
			return
		}
	}
	out(path, t, a, b)
}

func (l *cutLoc) key() string {
	if l.phi != nil {
		return "phi " + l.phi.Name()
	}
	return fmt.Sprintf("obj %d %v", l.obj, l.path)
}

// locValue reads a location in a state at the loop header (after its phis).
func (ex *Exec) locValue(st *State, l *cutLoc) Value {
	if l.phi != nil {
		return st.top().env[l.phi]
	}
	o := st.heap.get(l.obj)
	switch o.kind {
	case kSeq:
		return o.rope
	case kMap:
		return o.m
	case kIter:
		return o.it
	}
	v := o.val
	for _, i := range l.path {
		v = v.(Struct).f[i]
	}
	return v
}

func (ex *Exec) setLoc(st *State, l *cutLoc, v Value) {
	if l.phi != nil {
		st.top().env[l.phi] = v
		return
	}
	o := *st.heap.get(l.obj)
	switch o.kind {
	case kSeq:
		o.rope = v.(*Rope)
	case kMap:
		o.m = v.(*MapObj)
	case kIter:
		o.it = v.(*IterObj)
	default:
		var path []pathElem
		for _, i := range l.path {
			path = append(path, pathElem{field: i})
		}
		o.val = ex.setPath(o.val, path, v)
	}
	ex.setObj(l.obj, &o)
}

// havocLoc makes the arbitrary value of a location. ex.st is the new state.
func (ex *Exec) havocLoc(l *cutLoc) Value {
	c := ex.c
	ex.cutN++
	name := fmt.Sprintf("cut.%s!%d", l.name, ex.cutN)
	if l.phi == nil {
		o := ex.st.heap.get(l.obj)
		switch o.kind {
		case kSeq:
			n := ex.ropeLen(o.rope)
			if o.rope.elem != nil {
				panic(cutFail{"list changed in place"})
			}
			r := ex.atomRope(c.Var(name+".seq", SSeq), nil)
			ex.assume(c.Eq(ex.ropeLen(r), n))
			return r
		case kMap:
			m := &MapObj{base: c.Var(name+".map", SRef), key: o.m.key, elem: o.m.elem}
			if l.ok {
				m.spec = ex.mapSpec(m.key, m.elem)
			}
			return m
		case kIter:
			it := *o.it
			it.pos = ex.cutN * 1000
			it.seen = c.Var(name+".seen", SBool)
			it.more = c.VarRange(name+".more", c.zero.k, maxLen)
			if it.left != nil {
				it.left = c.VarRange(name+".left", c.zero.k, maxLen)
			}
			return &it
		}
	}
	switch v := l.init.(type) {
	case Slice:
		if l.keep {
			n := Slice{obj: v.obj}
			mk := func(s string) *Term { return c.VarRange(name+s, c.zero.k, maxLen) }
			n.off, n.len, n.cap = mk(".off"), mk(".len"), mk(".cap")
			ex.assume(c.Le(n.len, n.cap))
			ex.assume(c.Eq(c.Add(n.off, n.cap), c.Add(v.off, v.cap)))
			return n
		}
	case Ptr:
		panic(cutFail{"pointer changes"})
	case Func, MapIter:
		panic(cutFail{"function or iterator changes"})
	}
	if l.typ == nil {
		panic(cutFail{"untyped location"})
	}
	if _, ok := l.typ.Underlying().(*types.Pointer); ok {
		panic(cutFail{"pointer changes"})
	}
	return ex.symOf(l.typ, name, nil)
}

// items of a location: the numbers the invariant can talk about.
func (ex *Exec) itemsOf(l *cutLoc) []*cutItem {
	var out []*cutItem
	add := func(n string, get func(Value) *Term) {
		i := get(l.init)
		cu := get(l.cur)
		if i != nil && cu != nil {
			out = append(out, &cutItem{name: l.name + n, l: l, init: i, cur: cu, get: get})
		}
	}
	switch l.init.(type) {
	case *Term:
		if t := l.init.(*Term); t.sort == SInt {
			add("", func(v Value) *Term { t, _ := v.(*Term); return t })
		}
	case Slice:
		if l.keep {
			add(".off", func(v Value) *Term { return v.(Slice).off })
		}
		add(".len", func(v Value) *Term { return v.(Slice).len })
	case *IterObj:
		add(".more", func(v Value) *Term { return v.(*IterObj).more })
		add(".left", func(v Value) *Term { return v.(*IterObj).left })
	case *MapObj:
		if m := l.init.(*MapObj); ex.mapSpec(m.key, m.elem) != nil {
			add(".size", func(v Value) *Term { return ex.mapMeasure(v.(*MapObj)) })
		}
	case *Rope:
		if l.phi != nil || len(l.path) > 0 {
			add(".len", func(v Value) *Term {
				if r, ok := v.(*Rope); ok {
					return ex.ropeLen(r)
				}
				return nil
			})
		}
	}
	return out
}

// headDecided: the loop test at the header is a constant in this state.
func (ex *Exec) headDecided(st *State, to *ssa.BasicBlock) bool {
	last, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	loop := ex.naturalLoop(to)
	if loop[to.Succs[0]] && loop[to.Succs[1]] {
		return false
	}
	saved := ex.st
	defer func() { ex.st = saved }()
	depth := len(st.frames)
	sub := st.clone()
	ex.st = sub
	ex.doPhis(sub.top())
	sub.top().phisDone = true
	ex.quiet++
	ends, good := ex.subRun(sub, func(s *State) bool {
		return len(s.frames) < depth || len(s.frames) == depth && (s.top().block != to || s.top().idx == len(to.Instrs)-1)
	})
	ex.quiet--
	if !good || len(ends) != 1 || len(ends[0].frames) != depth || ends[0].top().block != to {
		return false
	}
	ex.st = ends[0]
	v, ok := ex.eval(ends[0].top(), last.Cond).(*Term)
	return ok && (v == ex.c.True || v == ex.c.False)
}

// cutLoop is called on a back edge to header to; st is at the header, phis not yet
// evaluated. It replaces the state by the exits of an arbitrary iteration.
func (ex *Exec) cutLoop(st *State, to *ssa.BasicBlock) (ok bool) {
	if !ex.feasible(ex.c.True) {
		panic(dieReq{})
	}
	saved := ex.st
	savedBounds := map[string]int{}
	for k, v := range ex.bounds2 {
		savedBounds[k] = v
	}
	quiet := ex.quiet
	defer func() {
		ex.st = saved
		ex.quiet = quiet
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case cutFail:
				why = x.why
			case unsupportedErr:
				if strings.HasPrefix(x.msg, "time budget") {
					panic(r)
				}
				why = x.msg
			default:
				panic(r)
			}
			if cutDebug {
				fmt.Fprintf(os.Stderr, "CUT failed at %s: %s\n", ex.posOf(to), why)
			}
			ex.bounds2 = savedBounds
			ok = false
		}
	}()
	c := ex.c
	loop := ex.naturalLoop(to)
	base := st.clone()
	ex.st = base
	depth := len(base.frames)
	ex.doPhis(base.top())
	base.top().phisDone = true
	lc := base.top().loops[to]
	lc.cut = true
	base.top().loops[to] = lc
	ndef := len(base.top().defers)

	var locs []*cutLoc
	seen := map[string]*cutLoc{}
	addLoc := func(l *cutLoc) bool {
		if o := seen[l.key()]; o != nil {
			if o.keep && !l.keep {
				o.keep = false
				return true
			}
			return false
		}
		seen[l.key()] = l
		locs = append(locs, l)
		return true
	}
	isEnd := func(s *State) bool {
		return s.panicV == nil && len(s.frames) == depth && s.top().block == to && !s.top().phisDone && s.top().idx == 0
	}
	isExit := func(s *State) bool {
		return s.panicV != nil && len(s.frames) <= depth || len(s.frames) < depth || len(s.frames) == depth && !loop[s.top().block]
	}
	var refs []*Term
	addRef := func(t *Term) {
		for _, r := range refs {
			if r == t {
				return
			}
		}
		if len(refs) < 24 {
			refs = append(refs, t)
		}
	}
	fr0 := base.top()
	lists := map[*Term]types.Type{}
	addList := func(s Slice, t types.Type) {
		sl, isS := t.Underlying().(*types.Slice)
		if !isS || s.obj == 0 {
			return
		}
		r := base.heap.get(s.obj).rope
		if isByteElem(sl.Elem()) {
			r = ex.contentP(s)
			if r == nil {
				return
			}
			for _, g := range r.segs {
				if kind, at := flatOf(g.atom); at != nil {
					lists[at] = ex.specFn("flat_" + kind).Params[0].Type()
					addRef(ex.atomLen(at))
				}
				if g.atom != nil && g.off == c.zero && (g.n == ex.atomLen(g.atom) || len(r.segs) == 1 || ex.prove(c.Eq(g.n, ex.atomLen(g.atom)))) && len(ex.foldNames(sl.Elem())) > 0 {
					lists[g.atom] = sl.Elem()
				}
			}
			return
		}
		if len(r.segs) == 1 && r.segs[0].atom != nil && r.segs[0].off == c.zero && s.off == c.zero && len(ex.foldNames(sl.Elem())) > 0 {
			lists[r.segs[0].atom] = sl.Elem()
			addRef(ex.atomLen(r.segs[0].atom))
		}
	}
	for _, p := range to.Parent().Params {
		switch v := fr0.env[p].(type) {
		case Slice:
			addRef(v.len)
			addList(v, p.Type())
		case *Rope:
			addRef(ex.ropeLen(v))
		}
	}
	for b := to.Idom(); b != nil; b = b.Idom() {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, isV := in.(ssa.Value)
			if !isV {
				continue
			}
			switch x := fr0.env[v].(type) {
			case Slice:
				addRef(x.len)
				addList(x, v.Type())
			case *Rope:
				if isString(v.Type()) {
					addRef(ex.ropeLen(x))
				}
			case *Term:
				if x.sort == SInt {
					addRef(x)
				}
			}
		}
	}

	var cands []*cutCand
	var items []*cutItem
	fresh := true
	for round := 0; ; round++ {
		if round > 40 {
			panic(cutFail{"no fixpoint"})
		}
		// the arbitrary state at the header
		h := base.clone()
		ex.st = h
		for _, l := range locs {
			if !l.tried && l.s0 != nil { // found in this round: does it have a shape?
				l.tried = true
				ex.st = base
				ex.findShape(l, locs, lists)
				if l.shape == nil && l.typ != nil {
					ex.st = base
					ex.findLike(l, lists)
				}
				ex.st = h
			}
		}
		for pass := 0; pass < 2; pass++ {
			for _, l := range locs {
				if (l.shape != nil && l.shape.by != nil) != (pass == 1) {
					continue
				}
				var by Value
				if pass == 1 {
					by = l.shape.by.cur
				}
				if l.like != nil {
					ex.cutN++
					l.cur = ex.havocLike(l, fmt.Sprintf("cut.%s!%d", l.name, ex.cutN))
				} else if l.shape != nil {
					ex.cutN++
					l.cur = ex.havocShape(l, fmt.Sprintf("cut.%s!%d", l.name, ex.cutN), by)
				} else {
					l.cur = ex.havocLoc(l)
				}
				ex.setLoc(h, l, l.cur)
			}
		}
		if fresh {
			fresh = false
			items = nil
			for _, l := range locs {
				items = append(items, ex.itemsOf(l)...)
			}
			cands = nil
			ex.st = base
			li, lcands := ex.mapItems(locs)
			for _, cd := range append(append(lcands, ex.cutCands(items, refs)...), ex.foldCands(items, lists)...) {
				if ex.prove(cd.mk(func(i *cutItem) *Term { return i.init })) {
					cands = append(cands, cd)
				}
			}
			items = append(items, li...)
			ex.st = h
		} else {
			for _, it := range items {
				it.cur = it.get(it.l.cur)
			}
		}
		for _, cd := range cands {
			ex.assume(cd.mk(func(i *cutItem) *Term { return i.cur }))
			if cd.learn != nil {
				ex.assume(cd.learn(func(i *cutItem) *Term { return i.cur }))
			}
			if cd.point != nil {
				cd.point(func(i *cutItem) *Term { return i.cur })
			}
		}
		start := h.clone()
		ex.quiet++
		ends := ex.run(start, func(s *State) bool { return isEnd(s) || isExit(s) })
		ex.quiet--
		changed := false
		var backs []*State
		for _, e := range ends {
			if isEnd(e) && ex.s.Quick(e.pc, ex.c.True) != Unsat {
				backs = append(backs, e)
			}
		}
		for _, e := range backs {
			ex.st = e
			if len(e.top().defers) != ndef {
				panic(cutFail{"defer in loop"})
			}
			if !e.top().phisDone {
				ex.doPhis(e.top())
			}
			// anything else changed?
			for _, in := range to.Instrs {
				p, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				a, b := h.top().env[p], e.top().env[p]
				l := seen["phi "+p.Name()]
				if l == nil {
					if !ex.valueSame(a, b) {
						nm := p.Comment
						if nm == "" {
							nm = p.Name()
						}
						changed = addLoc(&cutLoc{phi: p, typ: p.Type(), init: base.top().env[p], keep: sameObj(a, b), name: nm, s0: a, s1: b, sst: e}) || changed
					}
				} else if l.keep && !sameObj(a, b) {
					l.keep = false
					changed = true
				}
			}
			for id, eo := range e.heap.top {
				ho := h.heap.get(id)
				if ho == nil || ho == eo {
					continue
				}
				bo := base.heap.get(id)
				switch eo.kind {
				case kIter:
					if eo.it.base == nil || bo == nil {
						panic(cutFail{"iterator advances"})
					}
					changed = addLoc(&cutLoc{obj: id, init: bo.it, name: "iter"}) || changed
				case kSeq:
					if !ex.valueSame(ho.rope, eo.rope) {
						if bo == nil {
							panic(cutFail{"changed object"})
						}
						changed = addLoc(&cutLoc{obj: id, typ: eo.typ, init: bo.rope, name: "mem", s0: ho.rope, s1: eo.rope, sst: e}) || changed
					}
				case kMap:
					if !sameMap(ho.m, eo.m) {
						ex.st = base
						sp := ex.mapSpec(bo.m.key, bo.m.elem)
						okInit := sp != nil && ex.prove(ex.mapOK(bo.m, sp))
						if cutDebug {
							fmt.Fprintf(os.Stderr, "   map location: specification %v, initially legal %v\n", sp, okInit)
						}
						ex.st = e
						changed = addLoc(&cutLoc{obj: id, typ: eo.typ, init: bo.m, name: "map", ok: okInit}) || changed
					}
				default:
					t := eo.typ
					ex.diffCell(t, nil, ho.val, eo.val, func(path []int, lt types.Type, a, b Value) {
						iv := bo.val
						for _, i := range path {
							iv = iv.(Struct).f[i]
						}
						changed = addLoc(&cutLoc{obj: id, path: path, typ: lt, init: iv, keep: sameObj(a, b), name: fmt.Sprintf("cell%v", path), s0: a, s1: b, sst: e}) || changed
					})
				}
			}
		}
		if cutDebug {
			fmt.Fprintf(os.Stderr, "CUT %s round %d: %d locs %d cands %d backs %d ends changed=%v\n", ex.posOf(to), round, len(locs), len(cands), len(backs), len(ends), changed)
		}
		if changed {
			fresh = true
			continue
		}
		for _, l := range locs {
			for _, e := range backs {
				if l.shape == nil {
					break
				}
				ex.st = e
				var by Value
				if l.shape.by != nil {
					by = ex.locValue(e, l.shape.by)
				}
				if !ex.shapeHolds(l.shape, l, ex.locValue(e, l), by) {
					if cutDebug {
						fmt.Fprintf(os.Stderr, "   shape of %s lost\n", l.name)
					}
					l.shape = ex.weaker(l.shape)
					changed = true
				}
			}
			for _, e := range backs {
				ex.st = e
				if l.like != nil && !ex.likeHolds(l.like, ex.locValue(e, l)) {
					if cutDebug {
						fmt.Fprintf(os.Stderr, "   correspondence of %s lost\n", l.name)
					}
					l.like = nil
					changed = true
				}
			}
			for _, e := range backs {
				ex.st = e
				if m, isM := l.init.(*MapObj); isM && l.ok && !ex.prove(ex.mapOK(ex.locValue(e, l).(*MapObj), ex.mapSpec(m.key, m.elem))) {
					if cutDebug {
						for _, u := range ex.locValue(e, l).(*MapObj).ups {
							i, _ := u.v.(Iface)
							if sl, ok := i.v.(Slice); ok {
								r := ex.norm(ex.seqArg(sl))
								fmt.Fprintf(os.Stderr, "   map entry not legal: %v %v segs %d\n", i.typ, u.present, len(r.segs))
								for _, s := range r.segs {
									fmt.Fprintf(os.Stderr, "      seg %v off %v n %v el %v\n", s.atom, s.off, s.n, s.el)
								}
							} else {
								fmt.Fprintf(os.Stderr, "   map entry not legal: %v -> %v\n", u.present, u.v)
							}
						}
					}
					l.ok = false
					changed = true
				}
			}
		}
		if changed {
			fresh = true
			continue
		}
		// invariants preserved?
		var keep []*cutCand
		for _, cd := range cands {
			good := true
			for _, e := range backs {
				ex.st = e
				if !ex.prove(cd.mk(func(i *cutItem) *Term { return i.get(ex.locValue(e, i.l)) })) {
					good = false
					break
				}
			}
			if good {
				keep = append(keep, cd)
			}
		}
		if len(keep) != len(cands) {
			cands = keep
			continue
		}
		if cutDebug {
			for _, l := range locs {
				fmt.Fprintf(os.Stderr, "   changes %s (%s) keep=%v ok=%v\n", l.key(), l.name, l.keep, l.ok)
			}
			for _, l := range locs {
				if l.like != nil {
					fmt.Fprintf(os.Stderr, "   %s corresponds: %s\n", l.name, l.like.fn.Name())
				}
				if l.shape != nil {
					fmt.Fprintf(os.Stderr, "   shape %s: from %v at %v, overwrites %v\n", l.name, l.shape.src, l.shape.start, l.shape.by != nil)
				}
			}
			for _, cd := range cands {
				fmt.Fprintf(os.Stderr, "   inv %s\n", cd.desc)
			}
		}
		// the obligations of the arbitrary iteration, then the exits
		ex.quiet = quiet
		if ex.quiet == 0 {
			for _, cd := range cands {
				ex.obls = append(ex.obls, &Obl{Tag: "loop.invariant", Where: ex.posOf(to), Kind: "invariant", Res: Unsat, Cond: cd.mk(func(i *cutItem) *Term { return i.cur })})
			}
			for _, l := range locs {
				if l.shape != nil || l.like != nil {
					ex.obls = append(ex.obls, &Obl{Tag: "loop.invariant", Where: ex.posOf(to), Kind: "invariant", Res: Unsat, Cond: c.True})
				}
			}
			ex.cutVariant(to, cands, items, backs)
			ex.cutLoops[fmt.Sprintf("%s (loop at %s)", to.Parent().String(), ex.posOf(to))] = true
			ends = ex.run(h.clone(), func(s *State) bool { return isEnd(s) || isExit(s) })
		}
		_ = c
		var exits []*State
		for _, e := range ends {
			if isExit(e) {
				exits = append(exits, e)
			}
		}
		panic(replaceReq{exits})
	}
}

func sameObj(a, b Value) bool {
	x, ok := a.(Slice)
	y, ok2 := b.(Slice)
	return ok && ok2 && x.obj == y.obj && x.obj != 0
}

func sameMap(a, b *MapObj) bool {
	if a == b {
		return true
	}
	if a.base != b.base || len(a.ups) != len(b.ups) {
		return false
	}
	for i := range a.ups {
		if &a.ups[i] != &b.ups[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) cutCands(items []*cutItem, refs []*Term) []*cutCand {
	c := ex.c
	var out []*cutCand
	for _, it := range items {
		it := it
		init := it.init
		out = append(out,
			&cutCand{desc: it.name + " >= entry", item: it, low: true, mk: func(v func(*cutItem) *Term) *Term { return c.Le(init, v(it)) }},
			&cutCand{desc: it.name + " <= entry", item: it, up: true, mk: func(v func(*cutItem) *Term) *Term { return c.Le(v(it), init) }},
			&cutCand{desc: it.name + " >= -1", item: it, low: true, mk: func(v func(*cutItem) *Term) *Term { return c.Le(c.Int(-1), v(it)) }},
			&cutCand{desc: it.name + " >= 0", item: it, low: true, mk: func(v func(*cutItem) *Term) *Term { return c.Le(c.zero, v(it)) }})
		for _, r := range refs {
			r := r
			out = append(out,
				&cutCand{desc: it.name + " <= " + short(r), item: it, up: true, mk: func(v func(*cutItem) *Term) *Term { return c.Le(v(it), r) }},
				&cutCand{desc: it.name + " < " + short(r), item: it, up: true, mk: func(v func(*cutItem) *Term) *Term { return c.Lt(v(it), r) }})
		}
	}
	for i := range items {
		for j := 0; j < i; j++ {
			a, b := items[i], items[j]
			out = append(out,
				&cutCand{desc: a.name + " - " + b.name + " constant", mk: func(v func(*cutItem) *Term) *Term {
					return c.Eq(c.Sub(v(a), v(b)), c.Sub(a.init, b.init))
				}},
				&cutCand{desc: a.name + " + " + b.name + " constant", mk: func(v func(*cutItem) *Term) *Term {
					return c.Eq(c.Add(v(a), v(b)), c.Add(a.init, b.init))
				}})
		}
	}
	return out
}

// cutVariant proves that the loop ends: some bounded number strictly approaches its bound.
func (ex *Exec) cutVariant(to *ssa.BasicBlock, cands []*cutCand, items []*cutItem, backs []*State) {
	if ex.variantTag == "" || len(backs) == 0 {
		return
	}
	c := ex.c
	for _, it := range items {
		low, up := false, false
		for _, cd := range cands {
			if cd.item == it {
				low = low || cd.low
				up = up || cd.up
			}
		}
		try := func(inc bool) bool {
			for _, e := range backs {
				ex.st = e
				nv := it.get(ex.locValue(e, it.l))
				g := c.Lt(nv, it.cur)
				if inc {
					g = c.Lt(it.cur, nv)
				}
				if !ex.prove(g) {
					return false
				}
			}
			return true
		}
		if up && try(true) || low && try(false) {
			ex.obls = append(ex.obls, &Obl{Tag: ex.variantTag, Where: ex.posOf(to), Kind: "variant", Res: Unsat, Cond: c.True})
			return
		}
	}
	o := &Obl{Tag: ex.variantTag, Where: ex.posOf(to), Kind: "variant", Res: Unknown, Cond: c.False, PC: backs[0].pc}
	ex.obls = append(ex.obls, o)
	ex.failed = append(ex.failed, o)
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return s
}

// fixedPart is the constant part of what an element adds to a sum, nil if 0.
func (ex *Exec) fixedPart(name string, elem types.Type, atom *Term) *Term {
	if isByteElem(elem) {
		return nil
	}
	f, _ := ex.foldFn(name)
	t := ex.evalSpec(f, []Value{ex.elemOf(elem, atom, ex.c.zero)}, false)
	if t.op != OLin || t.k.Sign() == 0 {
		return nil
	}
	return ex.c.Big(t.k)
}

// foldCands relate the changing numbers to the folds over abstract lists.
func (ex *Exec) foldCands(items []*cutItem, lists map[*Term]types.Type) []*cutCand {
	c := ex.c
	var out []*cutCand
	for atom, elem := range lists {
		atom := atom
		for _, name := range ex.foldNames(elem) {
			name := name
			_, sum := ex.foldFn(name)
			if _, isPtr := elem.Underlying().(*types.Pointer); isPtr && !sum {
				continue // learnElem says so of every element
			}
			for _, i := range items {
				for d := int64(0); d <= 1; d++ {
					i, d := i, d
					if !sum {
						out = append(out, &cutCand{desc: name + " up to " + i.name, mk: func(v func(*cutItem) *Term) *Term {
							return ex.prefixFold(name, atom, c.Add(v(i), c.Int(d)))
						}, learn: func(v func(*cutItem) *Term) *Term {
							n := c.Add(v(i), c.Int(d+1))
							all := c.App(name, SBool, atom, ex.atomLen(atom))
							return c.Or(c.Not(all), c.Lt(ex.atomLen(atom), n), ex.prefixFold(name, atom, n))
						}})
						continue
					}
					learn := func(v func(*cutItem) *Term) *Term { // the next element fits as well
						n := c.Add(v(i), c.Int(d+1))
						return c.Or(c.Lt(ex.atomLen(atom), n), c.Lt(n, c.zero), c.Le(ex.prefixFold(name, atom, n), ex.prefixFold(name, atom, ex.atomLen(atom))))
					}
					point := func(v func(*cutItem) *Term) { ex.flatPoint(atom, c.Add(v(i), c.Int(d))) }
					for _, l := range items {
						l := l
						if l == i {
							continue
						}
						out = append(out, &cutCand{desc: l.name + " - " + name + " up to " + i.name + " constant", learn: learn, point: point, mk: func(v func(*cutItem) *Term) *Term {
							return c.Eq(c.Sub(v(l), l.init), c.Sub(ex.prefixFold(name, atom, c.Add(v(i), c.Int(d))), ex.prefixFold(name, atom, c.Add(i.init, c.Int(d)))))
						}})
						if k := ex.fixedPart(name, elem, atom); k != nil { // the fixed part of every element counted apart
							out = append(out, &cutCand{desc: l.name + " - " + name + " up to " + i.name + " + " + k.String() + " each constant", learn: learn, point: point, mk: func(v func(*cutItem) *Term) *Term {
								return c.Eq(c.Sub(v(l), l.init), c.Sub(c.Sub(ex.prefixFold(name, atom, c.Add(v(i), c.Int(d))), ex.prefixFold(name, atom, c.Add(i.init, c.Int(d)))), c.MulK(k.k, c.Sub(v(i), i.init))))
							}})
						}
						out = append(out, &cutCand{desc: l.name + " + " + name + " up to " + i.name + " constant", learn: learn, point: point, mk: func(v func(*cutItem) *Term) *Term {
							return c.Eq(c.Sub(v(l), l.init), c.Sub(ex.prefixFold(name, atom, c.Add(i.init, c.Int(d))), ex.prefixFold(name, atom, c.Add(v(i), c.Int(d)))))
						}})
					}
				}
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].desc < out[b].desc })
	return out
}
