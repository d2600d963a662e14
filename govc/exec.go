package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	inv  *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	idx       int
	phisDone  bool
	defers    []deferred
	dest      ssa.Value // caller's register for the result
	loops     map[*ssa.BasicBlock]loopCount
	running   bool // running deferred functions
	recovered bool
	isDefer   bool
	onReturn  func(st *State, res []Value) []Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = map[*ssa.BasicBlock]loopCount{}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

type State struct {
	frames  []*Frame
	heap    *Heap
	pc      []*Term
	pcset   map[*Term]bool
	panicV  *Value // active panic
	result  []Value
	steps   int
	forks   int
	atomics int
	notes   []string
	ghost   map[string]Value
	bounded map[string]bool
}

func (st *State) clone() *State {
	n := &State{heap: st.heap.clone(), pc: st.pc[:len(st.pc):len(st.pc)], panicV: st.panicV, steps: st.steps, forks: st.forks, atomics: st.atomics, notes: st.notes[:len(st.notes):len(st.notes)]}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.pcset = make(map[*Term]bool, len(st.pcset)+4)
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.bounded = st.bounded
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Exec is one verification run (one harness).
type Exec struct {
	c        *Ctx
	s        *Solver
	w        *World
	st       *State
	baseHeap map[int]*Obj
	globals  map[*ssa.Global]int
	nextObj  int
	atomLens map[*Term]*Term
	absObjs  map[*Term]int
	tags     map[string]int64
	tagTypes map[int64]types.Type

	harness       string
	prop          string // property under check; "" = all
	obls          []*Obl
	failed        []*Obl
	paths         int
	reach         map[string]bool
	params        []Param
	maxPaths      int
	deadline      time.Time
	unroll        int
	bounds2       map[string]int // loops cut at a bound (bounded stand-in)
	mergeDepth    int
	mergeJoins    []*ssa.BasicBlock
	noMerge       bool
	clockN        int
	runReqs       map[*Term][]runReq
	predSeen      map[*Term]bool
	disabled      map[string]bool
	pending       []*State
	nopanic       string
	inContract    string
	initDone      bool
	failLimit     int
	usedContracts map[string]bool
	usedTrust     map[string]bool
	inlined       map[string]bool
	cutLoops      map[string]bool
	noCut         bool
	quiet         int
	nsteps        int
	lastProg      time.Time
	probing       int
	cutAt         int // peeled iterations before a loop is treated inductively
	cutBad        map[*ssa.BasicBlock]bool
	cutEntry      map[*ssa.BasicBlock]bool
	variantTag    string
	cutN          int
	folded        map[*Term]bool
	flatUsed      bool
	likes         map[*Term]*listLike
	inSpec        bool
	ghostSym      map[string]Value
}

var progress = os.Getenv("GOVC_PROGRESS") != ""

type Param struct {
	Name string
	Typ  types.Type
	Val  Value
}

// Obl is one proof obligation.
type Obl struct {
	Tag    string
	Where  string
	Res    Res
	Model  *Model
	Script string
	Cond   *Term
	PC     []*Term
	Kind   string
	Path   []string
}

type forkReq struct{ cond *Term }
type replaceReq struct{ states []*State }
type dieReq struct{}
type unsupportedErr struct{ msg string }
type panicReq struct{ v Value }

func (ex *Exec) unsupported(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if ex.st != nil && len(ex.st.frames) > 0 {
		fr := ex.st.top()
		pos := token.NoPos
		if fr.block != nil && fr.idx < len(fr.block.Instrs) {
			pos = fr.block.Instrs[fr.idx].Pos()
		}
		msg += " in " + fr.fn.String()
		if pos.IsValid() {
			msg += " at " + ex.w.prog.Fset.Position(pos).String()
		}
	}
	panic(unsupportedErr{msg})
}

// ---- path condition ----

func (ex *Exec) assume(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			ex.assume(a)
		}
		return
	}
	if t.op == OTrue || ex.st.pcset[t] {
		return
	}
	ex.st.pc = append(ex.st.pc[:len(ex.st.pc):len(ex.st.pc)], t)
	ex.st.pcset[t] = true
}

func (ex *Exec) known(t *Term) (bool, bool) {
	switch t.op {
	case OTrue:
		return true, true
	case OFalse:
		return false, true
	}
	if ex.st.pcset[t] {
		return true, true
	}
	if ex.st.pcset[ex.c.Not(t)] {
		return false, true
	}
	if t.op == OAnd {
		all := true
		for _, a := range t.args {
			v, ok := ex.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.op == OOr {
		all := true
		for _, a := range t.args {
			v, ok := ex.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (ex *Exec) prove(t *Term) bool {
	if v, ok := ex.known(t); ok {
		return v
	}
	return ex.s.Quick(ex.st.pc, ex.c.Not(t)) == Unsat
}

func (ex *Exec) feasible(t *Term) bool {
	if v, ok := ex.known(t); ok {
		return v
	}
	return ex.s.Quick(ex.st.pc, t) != Unsat
}

// decide determines cond on this path, forking the path if both outcomes are possible.
func (ex *Exec) decide(cond *Term) bool {
	if v, ok := ex.known(cond); ok {
		return v
	}
	if !time.Now().Before(ex.deadline) {
		ex.unsupported("time budget exhausted")
	}
	nc := ex.c.Not(cond)
	r2 := ex.s.Quick(ex.st.pc, nc)
	if r2 == Unsat {
		ex.st.pcset[cond] = true // implied: remember without adding to the solver
		return true
	}
	r1 := ex.s.Quick(ex.st.pc, cond)
	if r1 == Unsat {
		ex.st.pcset[nc] = true
		return false
	}
	panic(forkReq{cond})
}

func (ex *Exec) where() string {
	for i := len(ex.st.frames) - 1; i >= 0; i-- {
		fr := ex.st.frames[i]
		if fr.block == nil || fr.idx >= len(fr.block.Instrs) {
			continue
		}
		if p := fr.block.Instrs[fr.idx].Pos(); p.IsValid() {
			pp := ex.w.prog.Fset.Position(p)
			return fmt.Sprintf("%s:%d", shortPath(pp.Filename), pp.Line)
		}
	}
	return "?"
}

func shortPath(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		if j := strings.LastIndex(p[:i], "/"); j >= 0 {
			return p[j+1:]
		}
	}
	return p
}

// assert discharges an obligation on the current path.
func (ex *Exec) assert(tag, kind string, cond *Term) bool {
	if ex.quiet > 0 {
		return true
	}
	o := &Obl{Tag: tag, Where: ex.where(), Kind: kind, Cond: cond}
	if v, ok := ex.known(cond); ok && v {
		o.Res = Unsat
		ex.obls = append(ex.obls, o)
		return true
	}
	o.PC = ex.st.pc
	o.Res = ex.s.Check(ex.st.pc, ex.c.Not(cond))
	ex.obls = append(ex.obls, o)
	if o.Res == Unsat {
		ex.st.pcset[cond] = true
		return true
	}
	o.Path = ex.stackNames()
	if o.Res == Sat {
		o.Model = ex.extractModel(ex.c.Not(cond))
	}
	ex.failed = append(ex.failed, o)
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "FAILED %s [%s] %s: %v\n   cond %v\n", tag, kind, o.Where, o.Res, cond)
		for _, p := range ex.st.pc {
			fmt.Fprintf(os.Stderr, "     pc %v\n", p)
		}
	}
	// continue under the assumption, if possible
	if !ex.feasible(cond) {
		panic(dieReq{})
	}
	ex.assume(cond)
	return false
}

func (ex *Exec) stackNames() []string {
	var out []string
	for _, f := range ex.st.frames {
		out = append(out, f.fn.Name())
	}
	return out
}

// ---- objects ----

func (ex *Exec) newObj(o *Obj) int {
	ex.nextObj++
	if !ex.initDone {
		ex.baseHeap[ex.nextObj] = o
	} else {
		ex.st.heap.top[ex.nextObj] = o
	}
	return ex.nextObj
}

func (ex *Exec) setObj(id int, o *Obj) {
	if !ex.initDone {
		ex.baseHeap[id] = o
		return
	}
	ex.st.heap.top[id] = o
}

func (ex *Exec) obj(id int) *Obj {
	if !ex.initDone {
		return ex.baseHeap[id]
	}
	return ex.st.heap.get(id)
}

func (ex *Exec) zero(t types.Type) Value {
	if isTime(t) {
		return ex.c.zero
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &Rope{}
		}
		if u.Info()&types.IsBoolean != 0 {
			return ex.c.False
		}
		if u.Info()&types.IsInteger != 0 {
			return ex.c.zero
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Info()&types.IsFloat != 0 {
			return ex.c.zero
		}
	case *types.Struct:
		s := Struct{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: ex.c.zero, len: ex.c.zero, cap: ex.c.zero}
	case *types.Map:
		return MapV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Chan:
		return Ptr{}
	case *types.Array:
		n := u.Len()
		if isByteElem(u.Elem()) {
			return &Rope{segs: []Seg{{zero: ex.c.zero, n: ex.c.Int(n)}}}
		}
		r := &Rope{elem: u.Elem()}
		z := ex.zero(u.Elem())
		for i := int64(0); i < n; i++ {
			r.segs = append(r.segs, Seg{el: z, n: ex.c.one})
		}
		return r
	}
	ex.unsupported("zero value of %s", t)
	return nil
}

// symOf builds a symbolic value whose leaves are uninterpreted function applications.
func (ex *Exec) symOf(t types.Type, name string, args []*Term) Value {
	app := func(s Sort) *Term {
		if len(args) == 0 {
			return ex.c.Var(name, s)
		}
		return ex.c.App(name, s, args...)
	}
	if isTime(t) {
		v := app(SInt)
		ex.c.setRange(v, new(big.Int), nil)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if ii, ok := intType(t); ok {
			v := app(SInt)
			lo, hi := ii.rng()
			ex.c.setRange(v, lo, hi)
			return v
		}
		if u.Info()&types.IsBoolean != 0 {
			return app(SBool)
		}
		if u.Info()&types.IsString != 0 {
			return ex.atomRope(app(SSeq), nil)
		}
	case *types.Struct:
		s := Struct{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ex.symOf(u.Field(i).Type(), name+"."+u.Field(i).Name(), args)
		}
		return s
	case *types.Pointer:
		return Ptr{ref: app(SRef), typ: u.Elem()}
	case *types.Interface:
		v := app(SIface)
		tag := ex.ifTag(v)
		_ = tag
		return SymIface{v}
	case *types.Slice:
		return ex.absSlice(u.Elem(), app)
	case *types.Map:
		b := app(SRef)
		id := ex.absMap(b, u)
		return MapV{id}
	}
	ex.unsupported("symbolic value of type %s", t)
	return nil
}

func (ex *Exec) absSlice(elem types.Type, app func(Sort) *Term) Slice {
	var at *Term
	var et types.Type
	if isByteElem(elem) {
		at = app(SSeq)
	} else {
		at = app(SList)
		et = elem
	}
	id, ok := ex.absObjs[at]
	if !ok {
		ex.nextObj++
		id = ex.nextObj
		ex.absObjs[at] = id
		ex.baseHeap[id] = &Obj{kind: kSeq, rope: ex.atomRope(at, et), ro: true, typ: elem, name: at.String()}
	}
	l := ex.atomLen(at)
	return Slice{obj: id, off: ex.c.zero, len: l, cap: l}
}

func (ex *Exec) absMap(b *Term, u *types.Map) int {
	id, ok := ex.absObjs[b]
	if !ok {
		ex.nextObj++
		id = ex.nextObj
		ex.absObjs[b] = id
		ex.baseHeap[id] = &Obj{kind: kMap, m: &MapObj{base: b, key: u.Key(), elem: u.Elem()}, ro: true, name: b.String()}
	}
	return id
}

var aliasRe = regexp.MustCompile(`(^|[^\w./])(byte|rune|any)\b`)

// canonType replaces the names of predeclared alias types, which types.TypeString keeps.
func canonType(s string) string {
	if !strings.Contains(s, "byte") && !strings.Contains(s, "rune") && !strings.Contains(s, "any") {
		return s
	}
	return aliasRe.ReplaceAllStringFunc(s, func(m string) string {
		m = strings.Replace(m, "byte", "uint8", 1)
		m = strings.Replace(m, "rune", "int32", 1)
		return strings.Replace(m, "any", "interface{}", 1)
	})
}

func (ex *Exec) typeTag(t types.Type) int64 {
	k := canonType(types.TypeString(t, nil))
	if n, ok := ex.tags[k]; ok {
		return n
	}
	n := int64(len(ex.tags) + 1)
	ex.tags[k] = n
	ex.tagTypes[n] = t
	return n
}

func (ex *Exec) ifTag(t *Term) *Term {
	return ex.c.AppRange("tag", new(big.Int), nil, t)
}

// ---- memory ----

func (ex *Exec) nilDeref() { ex.goPanic("nil pointer dereference") }

func (ex *Exec) goPanic(msg string) {
	panic(panicReq{Iface{typ: ex.w.runtimeErr, v: ex.litRope(msg)}})
}

func (ex *Exec) load(p Ptr, t types.Type) Value {
	if p.ref != nil {
		name := "fld." + typeName(p.typ)
		cur := p.typ
		for _, e := range p.path {
			if e.idx != nil {
				ex.unsupported("array in abstract object")
			}
			st := cur.Underlying().(*types.Struct)
			name += "." + st.Field(e.field).Name()
			cur = st.Field(e.field).Type()
		}
		return ex.symOf(cur, name, []*Term{p.ref})
	}
	if p.obj == 0 {
		ex.nilDeref()
	}
	o := ex.obj(p.obj)
	if o == nil {
		ex.unsupported("dangling object")
	}
	if o.kind == kSeq {
		if len(p.path) == 0 {
			return o.rope // whole array value
		}
		v := ex.index(o.rope, p.path[0].idx)
		return ex.getPath(v, p.path[1:])
	}
	return ex.getPath(o.val, p.path)
}

func (ex *Exec) getPath(v Value, path []pathElem) Value {
	for _, e := range path {
		if e.idx != nil {
			r, ok := v.(*Rope)
			if !ok {
				ex.unsupported("index path into %T", v)
			}
			v = ex.index(r, e.idx)
			continue
		}
		s, ok := v.(Struct)
		if !ok {
			ex.unsupported("field path into %T", v)
		}
		v = s.f[e.field]
	}
	return v
}

func (ex *Exec) setPath(v Value, path []pathElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	if e.idx != nil {
		r := v.(*Rope)
		el := nv
		if len(path) > 1 {
			el = ex.setPath(ex.index(r, e.idx), path[1:], nv)
		}
		return ex.update(r, e.idx, &Rope{segs: []Seg{{el: el, n: ex.c.one}}, elem: r.elem})
	}
	s, ok := v.(Struct)
	if !ok {
		ex.unsupported("store path into %T", v)
	}
	return s.with(e.field, ex.setPath(s.f[e.field], path[1:], nv))
}

func (ex *Exec) store(p Ptr, v Value) {
	if p.ref != nil {
		ex.unsupported("store into abstract object")
	}
	if p.obj == 0 {
		ex.nilDeref()
	}
	o := ex.obj(p.obj)
	if o.ro {
		ex.unsupported("store into read-only abstract object %s", o.name)
	}
	n := *o
	if o.kind == kSeq {
		if len(p.path) == 0 {
			n.rope = v.(*Rope)
		} else {
			el := v
			if len(p.path) > 1 {
				el = ex.setPath(ex.index(o.rope, p.path[0].idx), p.path[1:], v)
			}
			n.rope = ex.update(o.rope, p.path[0].idx, &Rope{segs: []Seg{{el: el, n: ex.c.one}}, elem: o.rope.elem})
		}
	} else {
		n.val = ex.setPath(o.val, p.path, v)
	}
	ex.setObj(p.obj, &n)
}

// content of a slice as a rope.
func (ex *Exec) content(s Slice, elem types.Type) *Rope {
	if s.obj == 0 || s.len == ex.c.zero {
		if elem != nil && !isByteElem(elem) {
			return &Rope{elem: elem}
		}
		return &Rope{}
	}
	return ex.sub(ex.obj(s.obj).rope, s.off, s.len)
}

func (ex *Exec) newSeq(r *Rope, elem types.Type) Slice {
	if !isByteElem(elem) {
		r = &Rope{segs: r.segs, elem: elem}
	}
	id := ex.newObj(&Obj{kind: kSeq, rope: r, typ: elem})
	l := ex.ropeLen(r)
	return Slice{obj: id, off: ex.c.zero, len: l, cap: l}
}

// ---- main loop ----

// run executes until every path stops; stop decides when a state is handed back.
func (ex *Exec) run(start *State, stop func(*State) bool) []*State {
	var done []*State
	work := []*State{start}
	saved := ex.st
	defer func() { ex.st = saved }()
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		ex.st = st
		for {
			if stop(st) {
				done = append(done, st)
				break
			}
			next, fin := ex.step(st)
			if fin {
				break
			}
			if next != nil {
				for i := len(next) - 1; i >= 1; i-- {
					work = append(work, next[i])
				}
				if len(next) == 0 {
					break
				}
				st = next[0]
				ex.st = st
			}
			if len(done)+len(work) > ex.maxPaths {
				ex.unsupported("more than %d paths", ex.maxPaths)
			}
		}
	}
	return done
}

// step executes one instruction. It returns replacement states (nil: same state continues) and whether the path died.
func (ex *Exec) step(st *State) (next []*State, dead bool) {
	st.steps++
	ex.nsteps++
	if ex.nsteps%500 == 0 && progress && time.Since(ex.lastProg) > 3*time.Second {
		ex.lastProg = time.Now()
		fmt.Fprintf(os.Stderr, "  .. %s steps %d queries %d solver %.1fs pc %d at %s %v\n", ex.harness, ex.nsteps, ex.s.queries, ex.s.time.Seconds(), len(st.pc), ex.where(), ex.stackNames())
	}
	if st.steps > 400000 {
		ex.unsupported("path too long")
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				st.forks++
				a := st.clone()
				b := st
				ex.st = a
				ex.assume(x.cond)
				ex.st = b
				ex.assume(ex.c.Not(x.cond))
				next = []*State{a, b}
			case replaceReq:
				next = x.states
				if next == nil {
					next = []*State{}
				}
			case dieReq:
				dead = true
			case panicReq:
				v := x.v
				st.panicV = &v
				ex.unwind(st)
			default:
				panic(r)
			}
		}
	}()
	if st.panicV != nil {
		// a frame below is unwinding
		ex.unwind(st)
		return nil, false
	}
	fr := st.top()
	if fr.running {
		ex.runDefers(st, fr)
		return nil, false
	}
	if fr.idx == 0 && !fr.phisDone {
		ex.doPhis(fr)
		fr.phisDone = true
	}
	in := fr.block.Instrs[fr.idx]
	ex.instr(st, fr, in)
	return nil, false
}

func (ex *Exec) doPhis(fr *Frame) {
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range fr.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range fr.block.Preds {
			if pr == fr.prev {
				vals = append(vals, ex.eval(fr, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	fr.idx = len(phis)
}

func (ex *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	fr.idx = 0
	fr.phisDone = false
	if ex.isLoopHeader(to) {
		ex.atLoopHead(st, fr, to)
	}
}

// unwind pops frames for an active panic until a deferred recover stops it.
func (ex *Exec) unwind(st *State) {
	if len(st.frames) == 0 {
		return
	}
	fr := st.top()
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		// run the deferred call; recover() inside clears panicV of the state
		pv := st.panicV
		st.panicV = nil
		st.ghost["$panic"] = *pv
		st.ghost["$recovered"] = ex.c.False
		depth := len(st.frames)
		ex.pushCall(st, d.fn, d.args, nil)
		nf := st.top()
		nf.isDefer = true
		if len(st.frames) == depth {
			ex.unsupported("deferred intrinsic")
		}
		nf.onReturn = func(st *State, res []Value) []Value {
			if st.ghost["$recovered"] == Value(ex.c.True) {
				f := st.top()
				f.recovered = true
				f.running = true // run the remaining defers, then go to the recover block
			} else {
				v := st.ghost["$panic"]
				st.panicV = &v
			}
			return nil
		}
		return
	}
	// no handler: pop
	st.frames = st.frames[:len(st.frames)-1]
}

func (ex *Exec) runDefers(st *State, fr *Frame) {
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		delete(st.ghost, "$panic")
		ex.pushCall(st, d.fn, d.args, nil)
		st.top().isDefer = true
		return
	}
	fr.running = false
	if fr.recovered {
		fr.recovered = false
		if fr.fn.Recover == nil {
			ex.unsupported("no recover block")
		}
		fr.prev = fr.block
		fr.block = fr.fn.Recover
		fr.idx = 0
		fr.phisDone = true
		return
	}
	fr.idx++
}

// ---- operand evaluation ----

func (ex *Exec) eval(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(x)
	case *ssa.Global:
		return ex.globalPtr(x)
	case *ssa.Function:
		return Func{fn: x}
	case *ssa.Builtin:
		return Func{bi: x}
	}
	r, ok := fr.env[v]
	if !ok {
		ex.unsupported("unbound register %s", v.Name())
	}
	return r
}

func (ex *Exec) globalPtr(g *ssa.Global) Ptr {
	id, ok := ex.globals[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		ex.nextObj++
		id = ex.nextObj
		ex.globals[g] = id
		ex.baseHeap[id] = ex.cellFor(et, ex.zeroOrNil(et))
		if ex.initDone {
			ex.w.warnGlobal(g)
		}
	}
	return Ptr{obj: id}
}

func (ex *Exec) zeroOrNil(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return ex.zero(t)
}

func (ex *Exec) cellFor(t types.Type, z Value) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok {
		if r, ok := z.(*Rope); ok {
			return &Obj{kind: kSeq, rope: r, typ: a.Elem()}
		}
	}
	return &Obj{kind: kCell, val: z, typ: t}
}

func (ex *Exec) constant(x *ssa.Const) Value {
	if x.Value == nil {
		return ex.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return ex.c.Bool(constant.BoolVal(x.Value))
	case constant.String:
		return ex.litRope(constant.StringVal(x.Value))
	case constant.Int:
		b, ok := new(big.Int).SetString(x.Value.ExactString(), 10)
		if !ok {
			ex.unsupported("constant %s", x)
		}
		return ex.c.Big(b)
	case constant.Float:
		f, _ := constant.Float64Val(x.Value)
		if f == float64(int64(f)) {
			return ex.c.Int(int64(f))
		}
	}
	ex.unsupported("constant %s", x)
	return nil
}

// wrap reduces a mathematical integer to type t.
func (ex *Exec) wrap(v *Term, t types.Type) *Term {
	ii, ok := intType(t)
	if !ok {
		ex.unsupported("arithmetic on %s", t)
	}
	lo, hi := ii.rng()
	if v.lo != nil && v.hi != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 {
		return v
	}
	in := ex.c.And(ex.c.Le(ex.c.Big(lo), v), ex.c.Le(v, ex.c.Big(hi)))
	if ex.prove(in) {
		return v
	}
	m := pow2(ii.bits)
	if ii.signed {
		h := pow2(ii.bits - 1)
		return ex.c.Sub(ex.c.Mod(ex.c.Add(v, ex.c.Big(h)), m), ex.c.Big(h))
	}
	return ex.c.Mod(v, m)
}
