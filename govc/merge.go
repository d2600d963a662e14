package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mergeAbort struct{ why string }

var pureExternal = map[string]bool{
	"unicode/utf8.Valid": true, "unicode/utf8.ValidString": true,
	"(*regexp.Regexp).Match": true, "(*regexp.Regexp).MatchString": true,
	"bytes.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Index": true, "bytes.IndexByte": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Index": true, "strings.IndexByte": true,
}

func mergeableType(t types.Type) bool {
	if isBool(t) {
		return true
	}
	_, ok := intType(t)
	return ok
}

func rootAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

func (w *World) pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return rootAlloc(x.Addr)
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select, *ssa.MakeMap, *ssa.Range, *ssa.Next, *ssa.MakeClosure:
		return false
	case *ssa.Panic:
		return false
	case *ssa.Call:
		cc := x.Common()
		if cc.IsInvoke() {
			return false
		}
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			switch f.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		case *ssa.Function:
			return w.isPure(f)
		}
		return false
	}
	return true
}

// isPure reports that a function has no effects and is not recursive.
func (w *World) isPure(f *ssa.Function) bool {
	if pureExternal[f.String()] {
		return true
	}
	switch w.pure[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	w.pure[f] = 3 // in progress
	ok := f.Blocks != nil && len(f.FreeVars) == 0
	if ok && strings.HasPrefix(f.Name(), "v") && f.Pkg == w.pkg && len(f.Name()) > 1 && f.Name()[1] < 'a' {
		switch f.Name() {
		case "vBytesEq", "vStrEq", "vUTF8", "vRegex", "vAtSeq", "vImplies", "vIte":
		default:
			ok = strings.HasPrefix(f.Name(), "vSum") || strings.HasPrefix(f.Name(), "vAll") || strings.HasPrefix(f.Name(), "vFlat")
		}
		if ok {
			w.pure[f] = 1
			return true
		}
	}
	if ok {
	loop:
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !w.pureInstr(in) {
					ok = false
					break loop
				}
			}
		}
	}
	if ok {
		w.pure[f] = 1
	} else {
		w.pure[f] = 2
	}
	return ok
}

// callMerged evaluates a pure function with scalar results over all its paths and merges them.
func (ex *Exec) callMerged(st *State, f Func, args []Value) (res Value, ok bool) {
	fn := f.fn
	if fn.Blocks == nil || len(fn.Blocks) == 1 || ex.w.mergeBad[fn] || !ex.initDone || ex.noMerge {
		return nil, false
	}
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return nil, false
	}
	for i := 0; i < rs.Len(); i++ {
		if !mergeableType(rs.At(i).Type()) {
			return nil, false
		}
	}
	if !ex.w.isPure(fn) {
		return nil, false
	}
	sub := st.clone()
	sub.frames = nil
	ex.pushCall(sub, f, args, nil)
	base := len(st.pc)
	ends, good := ex.subRun(sub, func(s *State) bool { return len(s.frames) == 0 })
	if !good {
		ex.w.mergeBad[fn] = true
		return nil, false
	}
	c := ex.c
	out := make([]*Term, rs.Len())
	for i := len(ends) - 1; i >= 0; i-- {
		cond := c.And(ends[i].pc[base:]...)
		for j := range out {
			v, isT := ends[i].result[j].(*Term)
			if !isT {
				return nil, false
			}
			if out[j] == nil {
				out[j] = v
			} else {
				out[j] = c.Ite(cond, v, out[j])
			}
		}
	}
	if len(ends) == 0 {
		return nil, false
	}
	ex.inlined[fn.String()] = true
	if len(out) == 1 {
		return out[0], true
	}
	tu := Tuple{}
	for _, o := range out {
		tu = append(tu, o)
	}
	return tu, true
}

// subRun explores a sub-computation; good=false when it cannot be merged.
func (ex *Exec) subRun(sub *State, stop func(*State) bool) (ends []*State, good bool) {
	saved := ex.st
	ex.mergeDepth++
	defer func() {
		ex.mergeDepth--
		ex.st = saved
		if r := recover(); r != nil {
			switch x := r.(type) {
			case mergeAbort:
				good = false
			case unsupportedErr:
				if strings.HasPrefix(x.msg, "time budget") {
					panic(r)
				}
				good = false
			default:
				panic(r)
			}
		}
	}()
	ends = ex.run(sub, func(s *State) bool {
		if s.panicV != nil {
			panic(mergeAbort{"panic"})
		}
		return stop(s)
	})
	if len(ends) > 300 {
		return nil, false
	}
	return ends, true
}

// tryMergeIf evaluates a side-effect-free diamond and merges scalar phis at the join.
func (ex *Exec) tryMergeIf(st *State, fr *Frame, x *ssa.If, cond *Term) bool {
	if !ex.initDone || ex.noMerge {
		return false
	}
	b := fr.block
	bad := ex.w.mergeIfBad[b]
	if bad >= 2 {
		return false
	}
	j := ex.w.ipdom(b)
	if j == nil || ex.w.isLoopHeader(j) {
		ex.w.mergeIfBad[b] = 9
		return false
	}
	for _, o := range ex.mergeJoins {
		if o == j {
			return false // the enclosing region joins here too: it merges the values itself
		}
	}
	region := map[*ssa.BasicBlock]bool{}
	okRegion := true
	var walk func(n *ssa.BasicBlock)
	walk = func(n *ssa.BasicBlock) {
		if n == j || region[n] || !okRegion {
			return
		}
		if n == b || ex.w.isLoopHeader(n) || len(region) > 24 {
			okRegion = false
			return
		}
		region[n] = true
		for _, in := range n.Instrs {
			if !ex.w.pureInstr(in) {
				okRegion = false
				return
			}
			if s, ok := in.(*ssa.Store); ok && rootAlloc(s.Addr) {
				okRegion = false
				return
			}
		}
		for _, s := range n.Succs {
			walk(s)
		}
	}
	for _, s := range b.Succs {
		walk(s)
	}
	nphi := 0
	var phis []*ssa.Phi
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nphi++
		phis = append(phis, p)
		if !isBool(p.Type()) {
			ii, ok := intType(p.Type())
			if !ok || ii.bits > 8 {
				okRegion = false
			}
		}
	}
	if !okRegion || nphi == 0 {
		ex.w.mergeIfBad[b] = 9
		return false
	}
	// decide first: no merging when only one side is feasible
	depth := len(st.frames)
	base := len(st.pc)
	sub := st.clone()
	nf := sub.top()
	// force the fork inside the sub-run
	started := false
	ex.mergeJoins = append(ex.mergeJoins, j)
	defer func() { ex.mergeJoins = ex.mergeJoins[:len(ex.mergeJoins)-1] }()
	ends, good := ex.subRunIf(sub, nf, cond, func(s *State) bool {
		return started && len(s.frames) == depth && s.top().block == j && s.top().idx == 0 && !s.top().phisDone
	}, &started)
	if !good || len(ends) == 0 {
		ex.w.mergeIfBad[b]++
		return false
	}
	c := ex.c
	vals := make([]*Term, len(phis))
	for i := len(ends) - 1; i >= 0; i-- {
		e := ends[i]
		ef := e.top()
		cnd := c.And(e.pc[base:]...)
		for k, p := range phis {
			var v Value
			for m, pr := range j.Preds {
				if pr == ef.prev {
					saved := ex.st
					ex.st = e
					v = ex.eval(ef, p.Edges[m])
					ex.st = saved
				}
			}
			t, ok := v.(*Term)
			if !ok {
				ex.w.mergeIfBad[b]++
				return false
			}
			if vals[k] == nil {
				vals[k] = t
			} else {
				vals[k] = c.Ite(cnd, t, vals[k])
			}
		}
	}
	for k, p := range phis {
		fr.env[p] = vals[k]
	}
	fr.prev = ends[0].top().prev
	fr.block = j
	fr.idx = nphi
	fr.phisDone = true
	return true
}

func (ex *Exec) subRunIf(sub *State, nf *Frame, cond *Term, stop func(*State) bool, started *bool) ([]*State, bool) {
	// split explicitly on cond
	c := ex.c
	var starts []*State
	ft := ex.feasible(cond)
	ff := ex.feasible(c.Not(cond))
	mk := func(t *Term, succ int) {
		s := sub.clone()
		saved := ex.st
		ex.st = s
		ex.assume(t)
		ex.jump(s, s.top(), s.top().block.Succs[succ])
		ex.st = saved
		starts = append(starts, s)
	}
	if ft {
		mk(cond, 0)
	}
	if ff {
		mk(c.Not(cond), 1)
	}
	*started = true
	var ends []*State
	for _, s := range starts {
		e, ok := ex.subRun(s, stop)
		if !ok {
			return nil, false
		}
		ends = append(ends, e...)
	}
	return ends, true
}
