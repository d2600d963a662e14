package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"math/big"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vIntrinsic implements the specification functions of contracts/*/rt.go.
func (ex *Exec) vIntrinsic(st *State, fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
	c := ex.c
	name := fn.Name()
	switch name {
	case "vAssume":
		t := args[0].(*Term)
		if !ex.feasible(t) {
			panic(dieReq{})
		}
		ex.assume(t)
		return Tuple{}, true
	case "vAssert":
		ex.assert(ex.str(args[0]), "assert", args[1].(*Term))
		return Tuple{}, true
	case "vReach":
		tag := ex.str(args[0])
		if !ex.reach[tag] && ex.feasibleStrict() {
			ex.reach[tag] = true
		}
		return Tuple{}, true
	case "vBytesEq", "vStrEq":
		return ex.ropeEq(ex.seqArg(args[0]), ex.seqArg(args[1])), true
	case "vUTF8":
		return nil, false
	case "vRegex":
		return ex.reMatch(ex.str(args[0]), ex.seqArg(args[1])), true
	case "vBoundedNote":
		ex.bounds_(ex.str(args[0]), 0)
		return Tuple{}, true
	case "vUse":
		n := ex.str(args[0])
		m, _ := st.ghost["$use"].(map[string]bool)
		nm := map[string]bool{}
		for k := range m {
			nm[k] = true
		}
		nm[n] = true
		st.ghost["$use"] = nm
		return Tuple{}, true
	case "vFreshInt", "vFreshU64", "vFreshByte", "vFreshBool", "vFreshU32", "vFreshU16":
		n, _ := st.ghost["$freshn"].(*Term)
		if n == nil {
			n = c.zero
		}
		st.ghost["$freshn"] = c.Add(n, c.one)
		return ex.symOf(fn.Signature.Results().At(0).Type(), fmt.Sprintf("fresh!%s!%s", name, n.k), nil), true
	case "vFreshBytes", "vFreshString":
		n, _ := st.ghost["$freshn"].(*Term)
		if n == nil {
			n = c.zero
		}
		st.ghost["$freshn"] = c.Add(n, c.one)
		at := c.Var(fmt.Sprintf("freshseq!%s", n.k), SSeq)
		r := ex.atomRope(at, nil)
		if name == "vFreshString" {
			return r, true
		}
		return ex.newSeq(r, types.Typ[types.Uint8]), true
	case "vRely":
		st.ghost["$rely"] = args[0]
		return Tuple{}, true
	case "vGuarantee":
		st.ghost["$guar"] = args[0]
		return Tuple{}, true
	case "vShared":
		if i, ok := args[1].(Iface); ok {
			if p, ok := i.v.(Ptr); ok && p.obj != 0 {
				st.ghost["$shared"] = p
				st.ghost["$sharedtag"] = args[0]
				return Tuple{}, true
			}
		}
		ex.unsupported("vShared of %T", args[1])
	case "vCut":
		if ex.noCut {
			return Tuple{}, true
		}
		ex.cutAt = 1 + int(args[0].(*Term).k.Int64())
		ex.variantTag = ex.str(args[1])
		return Tuple{}, true
	case "vMapSpec":
		st.ghost["$mapspec"] = args[0]
		return Tuple{}, true
	case "vGhostKey":
		st.ghost["$gkey"] = args[0]
		return Tuple{}, true
	case "vSymbolic":
		return c.True, true
	case "vUFInt", "vUFBool":
		// unspecified function of a sequence
		q := ex.seqTerm(ex.canon(ex.norm(ex.seqArg(args[1]))))
		if name == "vUFBool" {
			return c.App("uf."+ex.str(args[0]), SBool, q), true
		}
		return c.AppRange("uf."+ex.str(args[0]), c.zero.k, maxLen, q), true
	case "vForkInt":
		// case split over lo..hi
		x := args[0].(*Term)
		lo, hi := args[1].(*Term), args[2].(*Term)
		for k := lo.k.Int64(); k <= hi.k.Int64(); k++ {
			if ex.decide(c.Eq(x, c.Int(k))) {
				return c.Int(k), true
			}
		}
		return x, true
	}
	switch name {
	case "vUvLen", "vUvBytes", "vUvPrefix":
		if ex.w.pkg.Func("use_uvarint") == nil { // its contract does not fit the code: use the definitions
			return nil, false
		}
	}
	switch name {
	case "vUvLen":
		return ex.uvLen(args[0].(*Term)), true
	case "vUvBytes":
		x := args[0].(*Term)
		if x.isConst() {
			return ex.newSeq(ex.litRope(string(binary.AppendUvarint(nil, x.k.Uint64()))), types.Typ[types.Uint8]), true
		}
		return ex.newSeq(ex.atomRope(ex.uvEnc(x), nil), types.Typ[types.Uint8]), true
	case "vUvPrefix":
		r := ex.seqArg(args[0])
		if len(r.segs) > 0 {
			s := r.segs[0]
			if s.atom != nil && s.atom.op == OApp && s.atom.name == "uvenc" && s.off == c.zero && s.n == ex.atomLen(s.atom) {
				return Tuple{s.atom.args[0], c.True}, true
			}
		}
		return Tuple{c.zero, c.False}, true
	}
	if strings.HasPrefix(name, "vFreshList") {
		n, _ := st.ghost["$freshn"].(*Term)
		if n == nil {
			n = c.zero
		}
		st.ghost["$freshn"] = c.Add(n, c.one)
		return ex.symOf(fn.Signature.Results().At(0).Type(), fmt.Sprintf("freshlist!%s", n.k), nil), true
	}
	if strings.HasPrefix(name, "vFlat") {
		r := ex.seqArg(args[0])
		kind := strings.TrimPrefix(name, "vFlat")
		ex.flatUsed = true
		ex.needInvariants()
		if len(r.segs) == 0 {
			return &Rope{}, true
		}
		if len(r.segs) != 1 || r.segs[0].atom == nil || r.segs[0].off != c.zero || r.segs[0].n != ex.atomLen(r.segs[0].atom) {
			ex.unsupported("%s of a built list", name)
		}
		return ex.atomRope(ex.flatAtom(kind, r.segs[0].atom), nil), true
	}
	if r, ok := ex.vMapIntrinsic(st, fr, fn, args); ok {
		return r, true
	}
	if strings.HasPrefix(name, "vSum") || strings.HasPrefix(name, "vAll") {
		return ex.fold(name, ex.seqArg(args[0])), true
	}
	if strings.HasPrefix(name, "v") {
		ex.unsupported("unknown specification function %s", name)
	}
	return nil, false
}

// raceCheck: memory declared shared may only be touched by atomic operations.
func (ex *Exec) raceCheck(st *State, fr *Frame, p Ptr) {
	s, ok := st.ghost["$shared"].(Ptr)
	if !ok || p.ref != nil || s.obj != p.obj || ex.isContractFn(fr.fn) {
		return
	}
	ex.assert(ex.str(st.ghost["$sharedtag"]), "race", ex.c.False)
}

// isContractFn: the function comes from a contract file.
func (ex *Exec) isContractFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(filepath.Base(ex.w.prog.Fset.Position(f.Pos()).Filename), "zz_vc_")
}

func (ex *Exec) feasibleStrict() bool {
	return ex.s.Check(ex.st.pc, ex.c.True) == Sat
}

// rely runs the environment step registered with vRely (once per executed atomic instruction).
func (ex *Exec) rely(st *State) {
	f, ok := st.ghost["$rely"].(Func)
	if !ok {
		return
	}
	key := fmt.Sprintf("$relydone!%d!%d", len(st.frames), st.atomics)
	if _, done := st.ghost[key]; done {
		return
	}
	ex.runInline(st, f, nil)
	st.ghost[key] = ex.c.True
}

func (ex *Exec) guarantee(st *State, p Ptr, old, nw *Term) {
	st.atomics++
	f, ok := st.ghost["$guar"].(Func)
	if !ok {
		return
	}
	ex.runInline(st, f, []Value{p, old, nw})
}

// runInline executes a straight-line closure to completion within the current instruction.
func (ex *Exec) runInline(st *State, f Func, args []Value) {
	depth := len(st.frames)
	saveRely, sg := st.ghost["$rely"], st.ghost["$guar"]
	delete(st.ghost, "$rely")
	delete(st.ghost, "$guar")
	idx := st.top().idx
	ex.pushCall(st, f, args, nil)
	for len(st.frames) > depth {
		fr := st.top()
		if fr.idx == 0 && !fr.phisDone {
			ex.doPhis(fr)
			fr.phisDone = true
		}
		ex.instr(st, fr, fr.block.Instrs[fr.idx])
	}
	st.top().idx = idx
	st.ghost["$rely"] = saveRely
	if sg != nil {
		st.ghost["$guar"] = sg
	}
}

// useContract replaces a call by its abstract contract when the harness asked for it.
func (ex *Exec) useContract(st *State, fr *Frame, f Func, args []Value, dest ssa.Value) bool {
	if !ex.initDone {
		return false
	}
	m, _ := st.ghost["$use"].(map[string]bool)
	if len(m) == 0 || f.fn.Pkg == nil {
		return false
	}
	n := ex.w.contractName(f.fn)
	if f.fn.Pkg != ex.w.pkg {
		n = f.fn.Pkg.Pkg.Name() + "_" + n
	}
	if !m[n] || ex.disabled[n] {
		return false
	}
	cf := ex.w.pkg.Func("use_" + n)
	if cf == nil {
		return false
	}
	for _, g := range st.frames { // never inside its own contract
		if g.fn == cf {
			return false
		}
	}
	if !sameParams(cf, f.fn) {
		return false
	}
	ex.usedContracts[n] = true
	ex.pushCall(st, Func{fn: cf}, args, dest)
	return true
}

// contractName is the name contracts are written under (the declaration's name when they were written).
func (w *World) contractName(fn *ssa.Function) string {
	was := func(own, n string) string {
		if fn.Pkg == w.pkg {
			if o, ok := w.renamed[own+"."+n]; ok {
				return o
			}
		}
		return n
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return was("", n.Obj().Name()) + "__" + was(n.Obj().Name(), fn.Name())
		}
	}
	return was("", fn.Name())
}

func sameParams(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	ra, rb := a.Signature.Results(), b.Signature.Results()
	if ra.Len() != rb.Len() {
		return false
	}
	for i := 0; i < ra.Len(); i++ {
		if !types.Identical(ra.At(i).Type(), rb.At(i).Type()) {
			return false
		}
	}
	return true
}

// vMapIntrinsic: abstract maps with an uninterpreted encoding (property sections).
//
//	vFreshMapX() M            an arbitrary map
//	vMapLenX(m) int           length of its encoding without the length prefix
//	vMapBytesX(m) []byte      its encoding: variable byte integer and entries
//	vMapPrefixX(b) (M, bool)  the map whose encoding b starts with, if that is syntactically known
//	vMapSameX(a, b) bool      equal contents
func (ex *Exec) vMapIntrinsic(st *State, fr *Frame, fn *ssa.Function, args []Value) (Value, bool) {
	c := ex.c
	name := fn.Name()
	mt := func(t types.Type) *types.Map {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			ex.unsupported("%s: not a map", name)
		}
		return m
	}
	baseOf := func(v Value) (*Term, bool) { // base, known empty
		m := v.(MapV)
		if m.obj == 0 {
			return nil, true
		}
		o := ex.obj(m.obj).m
		if len(o.ups) > 0 {
			ex.unsupported("%s of an updated map", name)
		}
		return o.base, o.base == nil
	}
	switch {
	case strings.HasPrefix(name, "vFreshMap"):
		n, _ := st.ghost["$freshn"].(*Term)
		if n == nil {
			n = c.zero
		}
		st.ghost["$freshn"] = c.Add(n, c.one)
		u := mt(fn.Signature.Results().At(0).Type())
		b := c.Var(fmt.Sprintf("freshmap!%s", n.k), SRef)
		id := ex.absMap(b, u)
		o := *ex.obj(id)
		o.ro = false
		if sp := ex.mapSpec(u.Key(), u.Elem()); sp != nil {
			o.m = &MapObj{base: b, spec: sp, key: u.Key(), elem: u.Elem()}
		}
		ex.setObj(id, &o)
		return MapV{id}, true
	case strings.HasPrefix(name, "vMapLen") && mapUps(ex, args[0]):
		return ex.mapMeasure(ex.obj(args[0].(MapV).obj).m), true
	case strings.HasPrefix(name, "vMapLegal") && mapSpecd(ex, args[0]):
		return ex.mapOK(ex.obj(args[0].(MapV).obj).m, args[1].(*Term)), true
	case strings.HasPrefix(name, "vMapLen"):
		b, empty := baseOf(args[0])
		if empty {
			return c.zero, true
		}
		return ex.mapEncLen(b), true
	case strings.HasPrefix(name, "vMapFits"):
		b, empty := baseOf(args[0])
		if empty {
			return c.True, true
		}
		return c.App("pfits", SBool, b), true
	case strings.HasPrefix(name, "vMapLegal"):
		b, empty := baseOf(args[0])
		if empty {
			return c.True, true
		}
		return c.App("plegal", SBool, b, args[1].(*Term)), true
	case strings.HasPrefix(name, "vMapBytes"):
		b, empty := baseOf(args[0])
		if empty {
			return ex.newSeq(ex.litRope("\x00"), types.Typ[types.Uint8]), true
		}
		return ex.newSeq(ex.atomRope(ex.mapEnc(b), nil), types.Typ[types.Uint8]), true
	case strings.HasPrefix(name, "vMapPrefix"):
		u := mt(fn.Signature.Results().At(0).Type())
		r := ex.seqArg(args[0])
		if len(r.segs) > 0 {
			s := r.segs[0]
			if s.atom != nil && s.atom.op == OApp && s.atom.name == "penc" && s.off == c.zero && s.n == ex.atomLen(s.atom) {
				return Tuple{MapV{ex.absMap(s.atom.args[0], u)}, c.True}, true
			}
			if s.lit != "" && s.lit[0] == 0 {
				id := ex.newObj(&Obj{kind: kMap, m: &MapObj{key: u.Key(), elem: u.Elem()}})
				return Tuple{MapV{id}, c.True}, true
			}
		}
		return Tuple{MapV{}, c.False}, true
	case strings.HasPrefix(name, "vMapSame"):
		a, ea := baseOf(args[0])
		b, eb := baseOf(args[1])
		switch {
		case ea && eb:
			return c.True, true
		case ea:
			return c.Eq(ex.mapEncLen(b), c.zero), true
		case eb:
			return c.Eq(ex.mapEncLen(a), c.zero), true
		}
		return c.Eq(a, b), true
	}
	return nil, false
}

func mapUps(ex *Exec, v Value) bool {
	m := v.(MapV)
	return m.obj != 0 && len(ex.obj(m.obj).m.ups) > 0 && mapSpecd(ex, v)
}

func mapSpecd(ex *Exec, v Value) bool {
	m := v.(MapV)
	if m.obj == 0 {
		return false
	}
	o := ex.obj(m.obj).m
	return ex.mapSpec(o.key, o.elem) != nil
}

func (ex *Exec) mapEncLen(b *Term) *Term {
	return ex.c.AppRange("plen", ex.c.zero.k, maxLen, b)
}

// mapEnc is the encoding of an abstract map as one sequence atom.
func (ex *Exec) mapEnc(b *Term) *Term {
	c := ex.c
	at := c.App("penc", SSeq, b)
	if _, ok := ex.atomLens[at]; !ok {
		p := ex.mapEncLen(b)
		ex.atomLens[at] = c.Add(p, ex.uvLen(p))
	}
	return at
}

// uvLen is the width of x as a base-128 varint.
func (ex *Exec) uvLen(x *Term) *Term {
	c := ex.c
	n := 10
	for i := 1; i < 10; i++ {
		if x.hi != nil && x.hi.Cmp(pow2(7*i)) < 0 {
			n = i
			break
		}
	}
	w := c.Int(int64(n))
	for i := n - 1; i >= 1; i-- {
		w = c.Ite(c.Lt(x, c.Big(pow2(7*i))), c.Int(int64(i)), w)
	}
	return w
}

// uvEnc is the varint encoding of x as one sequence atom with known bytes.
func (ex *Exec) uvEnc(x *Term) *Term {
	c := ex.c
	at := c.App("uvenc", SSeq, x)
	if _, ok := ex.atomLens[at]; !ok {
		l := ex.uvLen(x)
		ex.atomLens[at] = l
		b128 := big.NewInt(128)
		for i := 0; i < 5; i++ {
			lo := c.Big(pow2(7 * i))
			if i == 0 {
				lo = c.zero
			}
			d := c.Mod(c.Div(x, pow2(7*i)), b128)
			byt := ex.at(at, c.Int(int64(i)))
			at.ax = append(at.ax,
				c.Implies(c.And(c.Le(lo, x), c.Lt(x, c.Big(pow2(7*i+7)))), c.Eq(byt, d)),
				c.Implies(c.Le(c.Big(pow2(7*i+7)), x), c.Eq(byt, c.Add(d, c.Int(128)))))
		}
	}
	return at
}
