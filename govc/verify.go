package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// fork gives an execution its own caches (the program itself is shared).
func (w *World) fork() *World {
	n := *w
	n.loopHd = map[*ssa.BasicBlock]bool{}
	n.loopKnown = map[*ssa.Function]bool{}
	n.pure = map[*ssa.Function]int{}
	n.ipdoms = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	n.mergeBad = map[*ssa.Function]bool{}
	n.mergeIfBad = map[*ssa.BasicBlock]int{}
	n.globalsBad = map[string]bool{}
	return &n
}

// Options of a verification run.
type Options struct {
	Unroll   int
	MaxPaths int
	Timeout  time.Duration
	NoCut    bool // unroll instead of looking for loop invariants
	Disabled map[string]bool
	NoMerge  bool
	CutEntry map[*ssa.BasicBlock]bool // loops treated inductively from their entry
}

// Result of verifying one harness.
type Result struct {
	Harness     string
	Obls        []*Obl
	Failed      []*Obl
	Unsupported string
	Paths       int
	Steps       int
	Reach       map[string]bool
	WantReach   []string
	Bounds      map[string]int
	Used        []string
	Trust       []string
	Inlined     []string
	Queries     int
	SolverTime  time.Duration
	Wall        time.Duration
	PerBack     map[string]int
	Regexes     []string
	CutLoops    []string // loops proved by an inductive invariant
	Cut         bool     // some loop was abstracted by an invariant
	OutOfTime   bool     // the time budget was used up
}

func newExec(w *World, o Options) *Exec {
	c := newCtx()
	ex := &Exec{
		c: c, w: w.fork(),
		baseHeap: map[int]*Obj{}, globals: map[*ssa.Global]int{},
		atomLens: map[*Term]*Term{}, absObjs: map[*Term]int{},
		tags: map[string]int64{}, tagTypes: map[int64]types.Type{},
		reach: map[string]bool{}, maxPaths: o.MaxPaths, unroll: o.Unroll,
		predSeen: map[*Term]bool{},
		disabled: o.Disabled, usedContracts: map[string]bool{}, usedTrust: map[string]bool{},
		inlined: map[string]bool{}, bounds2: map[string]int{}, noMerge: o.NoMerge,
		cutLoops: map[string]bool{}, cutBad: map[*ssa.BasicBlock]bool{}, cutEntry: o.CutEntry, folded: map[*Term]bool{}, likes: map[*Term]*listLike{},
	}
	if ex.disabled == nil {
		ex.disabled = map[string]bool{}
	}
	if ex.maxPaths == 0 {
		ex.maxPaths = 60000
	}
	if ex.unroll == 0 {
		ex.unroll = 3
	}
	if o.Timeout == 0 {
		o.Timeout = 10 * time.Minute
	}
	ex.deadline = time.Now().Add(o.Timeout)
	ex.noCut = o.NoCut || os.Getenv("GOVC_NOCUT") != ""
	if !ex.noCut {
		ex.cutAt = ex.unroll + 1 // unless vCut says otherwise
	}
	ex.s = newSolver(c)
	return ex
}

func (ex *Exec) freshState() *State {
	return &State{heap: &Heap{base: ex.baseHeap, top: map[int]*Obj{}}, pcset: map[*Term]bool{}, ghost: map[string]Value{}}
}

// runInit executes the package initialiser concretely.
func (ex *Exec) runInit() {
	f := ex.w.pkg.Func("init")
	if f == nil {
		ex.initDone = true
		return
	}
	st := ex.freshState()
	ex.st = st
	ex.pushCall(st, Func{fn: f}, nil, nil)
	ends := ex.run(st, func(s *State) bool { return len(s.frames) == 0 })
	if len(ends) != 1 || ends[0].panicV != nil {
		panic(unsupportedErr{fmt.Sprintf("package initialiser has %d outcomes", len(ends))})
	}
	ex.initDone = true
	ex.inlined = map[string]bool{}
}

type restartReq struct{ b *ssa.BasicBlock }

// verify runs one harness. A loop found to need an invariant is cut at its entry
// in a new run.
func (w *World) verify(fn *ssa.Function, prop string, o Options) *Result {
	t0 := time.Now()
	o.CutEntry = map[*ssa.BasicBlock]bool{}
	total := o.Timeout
	if total == 0 {
		total = 10 * time.Minute
	}
	for {
		n := len(o.CutEntry)
		o.Timeout = total - time.Since(t0)
		res := w.verifyOnce(fn, prop, o)
		if len(o.CutEntry) == n {
			res.Wall = time.Since(t0)
			return res
		}
	}
}

func (w *World) verifyOnce(fn *ssa.Function, prop string, o Options) (res *Result) {
	t0 := time.Now()
	ex := newExec(w, o)
	defer ex.s.Close()
	ex.harness, ex.prop = fn.Name(), prop
	res = &Result{Harness: fn.Name()}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				res.Unsupported = u.msg
			} else if q, ok := r.(restartReq); ok {
				o.CutEntry[q.b] = true
			} else {
				if os.Getenv("GOVC_DEBUG") != "" {
					debug.PrintStack()
				}
				res.Unsupported = fmt.Sprintf("internal error: %v", r)
			}
			if os.Getenv("GOVC_DEBUG") != "" && ex.st != nil {
				for _, f := range ex.st.frames {
					fmt.Fprintln(os.Stderr, "   frame", f.fn)
				}
			}
		}
		res.Obls, res.Failed, res.Paths = ex.obls, ex.failed, ex.paths
		res.Reach, res.Bounds = ex.reach, ex.bounds2
		res.Used, res.Trust, res.Inlined = sortedKeys(ex.usedContracts), sortedKeys(ex.usedTrust), sortedKeys(ex.inlined)
		res.Queries, res.SolverTime, res.PerBack = ex.s.queries, ex.s.time, ex.s.perBack
		res.CutLoops, res.Cut = sortedKeys(ex.cutLoops), len(ex.cutLoops) > 0 || len(ex.cutBad) > 0
		res.Wall = time.Since(t0)
		res.OutOfTime = !time.Now().Before(ex.deadline)
		res.WantReach = reachTags(fn)
	}()
	if os.Getenv("GOVC_PROF") != "" {
		m := map[string]int{}
		ex.s.prof = func() {
			if ex.st == nil || len(ex.st.frames) == 0 {
				return
			}
			fr := ex.st.top()
			pos := ""
			if fr.idx < len(fr.block.Instrs) {
				pos = ex.w.prog.Fset.Position(fr.block.Instrs[fr.idx].Pos()).String() + " " + fr.block.Instrs[fr.idx].String()
			}
			m[fr.fn.Name()+" "+pos]++
		}
		defer func() {
			ks := sortedKeys(m)
			sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
			for i, k := range ks {
				if i < 40 {
					fmt.Fprintln(os.Stderr, m[k], k)
				}
			}
		}()
	}
	ex.runInit()
	st := ex.freshState()
	ex.st = st
	var args []Value
	for _, p := range fn.Params {
		v := ex.paramValue(p)
		args = append(args, v)
		ex.params = append(ex.params, Param{p.Name(), p.Type(), v})
	}
	ex.pushCall(st, Func{fn: fn}, args, nil)
	ends := ex.run(st, func(s *State) bool { return len(s.frames) == 0 })
	ex.paths = len(ends)
	for _, e := range ends {
		if e.panicV == nil {
			continue
		}
		// an escaping panic is a failed obligation
		ex.st = e
		msg := "panic"
		if i, ok := (*e.panicV).(Iface); ok {
			if r, ok := i.v.(*Rope); ok {
				if s, ok := concreteString(r); ok {
					msg = "panic: " + s
				}
			}
		}
		ex.deadEnd(msg)
	}
	return
}

// deadEnd reports a path that ends in a panic.
func (ex *Exec) deadEnd(msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(dieReq); !ok {
				panic(r)
			}
		}
	}()
	ex.assert("nopanic", msg, ex.c.False)
}

func reachTags(fn *ssa.Function) []string {
	seen := map[string]bool{}
	done := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if done[f] || f.Pkg != fn.Pkg {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g, ok := c.Call.Value.(*ssa.Function)
				if !ok {
					continue
				}
				if g.Name() == "vReach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						seen[strings.Trim(k.Value.ExactString(), `"`)] = true
					}
					continue
				}
				n := g.Name()
				if strings.HasPrefix(n, "h") && len(n) > 1 && n[1] >= 'A' && n[1] <= 'Z' {
					walk(g) // harness helpers are named hXxx
				}
			}
		}
	}
	walk(fn)
	return sortedKeys(seen)
}

func (ex *Exec) paramValue(p *ssa.Parameter) Value {
	t := p.Type()
	if s, ok := t.Underlying().(*types.Slice); ok && isByteElem(s.Elem()) {
		at := ex.c.Var("p."+p.Name(), SSeq)
		r := ex.atomRope(at, nil)
		id := ex.newObj(&Obj{kind: kSeq, rope: r, typ: s.Elem(), name: p.Name()})
		l := ex.ropeLen(r)
		if l == ex.c.zero {
			l = ex.atomLen(at)
		}
		return Slice{obj: id, off: ex.c.zero, len: l, cap: l}
	}
	return ex.symOf(t, "p."+p.Name(), nil)
}

// ---- models ----

// ModelVal is the concrete value of one harness parameter.
type ModelVal struct {
	Name string      `json:"name"`
	Type string      `json:"type"`
	Int  string      `json:"int,omitempty"`
	Bool bool        `json:"bool,omitempty"`
	Seq  *ModelSeq   `json:"seq,omitempty"`
	Dyn  *ModelVal   `json:"dyn,omitempty"`
	Ifc  bool        `json:"ifc,omitempty"`
	Fld  []*ModelVal `json:"fld,omitempty"`
	Go   string      `json:"go,omitempty"`
	Hex  *string     `json:"hex,omitempty"`
}

// ModelSeq is a byte sequence: Len bytes of Fill with patches.
type ModelSeq struct {
	Len   int64      `json:"len"`
	Fill  int        `json:"fill"`
	Patch []SeqPatch `json:"patch,omitempty"`
}

type SeqPatch struct {
	At  int64  `json:"at"`
	Hex string `json:"hex"`
}

type Model struct {
	Vals []*ModelVal
}

// collect every application in a formula set.
func collectApps(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp || t.op == OVar {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, a := range t.ax {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func (ex *Exec) extractModel(neg *Term) *Model {
	c := ex.c
	apps := collectApps(append(append([]*Term{}, ex.st.pc...), neg))
	var soft []*Term
	var seqs []*Term
	var leafVals []*Term
	var visit func(v Value)
	visit = func(v Value) {
		switch x := v.(type) {
		case *Term:
			leafVals = append(leafVals, x)
		case *Rope:
			for _, s := range x.segs {
				if s.atom != nil {
					seqs = append(seqs, s.atom)
				}
			}
		case Slice:
			if o := ex.paramObj(x); o != nil {
				visit(o)
			}
		case Struct:
			for _, f := range x.f {
				visit(f)
			}
		case SymIface:
			leafVals = append(leafVals, ex.ifTag(x.t))
			for tag := range ex.tagTypes {
				_ = tag
			}
		}
	}
	for _, p := range ex.params {
		visit(p.Val)
	}
	// every sequence atom of the query should be short
	for _, a := range apps {
		if a.sort == SSeq && a.op == OApp && strings.HasPrefix(a.name, "if.") {
			seqs = append(seqs, a)
		}
	}
	for _, lim := range []int64{8, 40, 300, 70000} {
		for _, a := range seqs {
			soft = append(soft, c.Le(ex.atomLen(a), c.Int(lim)))
		}
	}
	m := &Model{}
	ok := ex.s.Model(ex.st.pc, neg, soft, func(eval func(ts ...*Term) []*big.Int) {
		ev := func(t *Term) *big.Int {
			r := eval(t)
			if r == nil || r[0] == nil {
				return new(big.Int)
			}
			return r[0]
		}
		for _, p := range ex.params {
			m.Vals = append(m.Vals, ex.modelVal(p.Name, p.Typ, p.Val, apps, ev))
		}
	})
	if !ok {
		return nil
	}
	return m
}

// paramObj is the initial content of a parameter slice.
func (ex *Exec) paramObj(s Slice) *Rope {
	o := ex.baseHeap[s.obj]
	if o == nil {
		// parameter objects live in the overlay of the first state; their rope is the atom named after them
		for _, p := range ex.params {
			if ps, ok := p.Val.(Slice); ok && ps.obj == s.obj {
				return ex.atomRope(ex.c.Var("p."+p.Name, SSeq), nil)
			}
		}
		return nil
	}
	return o.rope
}

func (ex *Exec) modelVal(name string, t types.Type, v Value, apps []*Term, ev func(*Term) *big.Int) *ModelVal {
	mv := &ModelVal{Name: name, Type: typeName(t)}
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			mv.Bool = ev(x).Sign() != 0
		} else {
			mv.Int = ev(x).String()
		}
	case *Rope:
		if len(x.segs) == 1 && x.segs[0].atom != nil {
			mv.Seq = ex.modelSeq(x.segs[0].atom, apps, ev)
		} else {
			mv.Seq = &ModelSeq{}
		}
	case Slice:
		if r := ex.paramObj(x); r != nil && r.elem == nil && len(r.segs) == 1 && r.segs[0].atom != nil {
			mv.Seq = ex.modelSeq(r.segs[0].atom, apps, ev)
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		for i, f := range x.f {
			mv.Fld = append(mv.Fld, ex.modelVal(st.Field(i).Name(), st.Field(i).Type(), f, apps, ev))
		}
	case SymIface:
		mv.Ifc = true
		tag := ev(ex.ifTag(x.t))
		if tag.IsInt64() {
			if tt, ok := ex.tagTypes[tag.Int64()]; ok {
				mv.Dyn = ex.modelVal(name, tt, ex.ifPayload(x, tt), apps, ev)
			} else if tag.Sign() != 0 {
				mv.Dyn = &ModelVal{Name: name, Type: "other"}
			}
		}
	}
	return mv
}

// modelSeq evaluates the bytes of an atom that the query talks about.
func (ex *Exec) modelSeq(atom *Term, apps []*Term, ev func(*Term) *big.Int) *ModelSeq {
	n := ev(ex.atomLen(atom)).Int64()
	ms := &ModelSeq{Len: n, Fill: 'a'}
	if n > 1<<24 {
		return ms
	}
	known := map[int64]byte{}
	place := map[*Term][2]int64{} // sub-sequence terms of this atom
	place[atom] = [2]int64{0, n}
	for _, a := range apps {
		if a.op != OApp {
			continue
		}
		if a.name == "at" && a.args[0] == atom {
			i := ev(a.args[1])
			if i.IsInt64() && i.Int64() >= 0 && i.Int64() < n {
				known[i.Int64()] = byte(ev(a).Int64())
			}
		}
		if a.name == "ssub" && a.args[0] == atom {
			place[a] = [2]int64{ev(a.args[1]).Int64(), ev(a.args[2]).Int64()}
		}
	}
	// equalities with literal texts
	for _, a := range apps {
		if a.op == OVar && strings.HasPrefix(a.name, "lit:") && len(a.name) > 4 {
			for t, pl := range place {
				if ev(ex.c.Eq(a, t)).Sign() != 0 {
					var b []byte
					fmt.Sscanf(a.name[4:], "%x", &b)
					for i := range b {
						if int64(i) < pl[1] {
							known[pl[0]+int64(i)] = b[i]
						}
					}
				}
			}
		}
	}
	// texts realising the automaton states of the model, smallest regions first
	type region struct {
		off, n int64
		rs     []runReq
		want   []int
	}
	var regs []region
	for t, pl := range place {
		rg := region{off: pl[0], n: pl[1]}
		for _, rq := range ex.runReqs[t] {
			if v := ev(rq.t); v != nil {
				rg.rs = append(rg.rs, rq)
				rg.want = append(rg.want, int(v.Int64()))
			}
		}
		if len(rg.rs) > 0 && rg.n > 0 && rg.off >= 0 && rg.off+rg.n <= n && rg.n <= 1<<20 {
			regs = append(regs, rg)
		}
	}
	sort.Slice(regs, func(i, j int) bool {
		if regs[i].n != regs[j].n {
			return regs[i].n < regs[j].n
		}
		return regs[i].off < regs[j].off
	})
	for _, rg := range regs {
		txt, ok := langWitness(rg.rs, rg.want, rg.n, func(i int64) (byte, bool) { b, ok := known[rg.off+i]; return b, ok })
		if ok {
			for i := 0; i < len(txt); i++ {
				known[rg.off+int64(i)] = txt[i]
			}
		}
	}
	var idx []int64
	for i := range known {
		idx = append(idx, i)
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	for i := 0; i < len(idx); {
		j := i
		var b []byte
		for j < len(idx) && idx[j] == idx[i]+int64(j-i) {
			b = append(b, known[idx[j]])
			j++
		}
		ms.Patch = append(ms.Patch, SeqPatch{idx[i], fmt.Sprintf("%x", b)})
		i = j
	}
	return ms
}

func (m *ModelVal) text() string {
	switch {
	case m.Ifc:
		if m.Dyn == nil {
			return m.Name + " = nil"
		}
		return m.Name + " = dynamic " + m.Dyn.Type + " " + m.Dyn.text()
	case m.Seq != nil:
		return fmt.Sprintf("%s = %s len %d fill %q patches %v", m.Name, m.Type, m.Seq.Len, rune(m.Seq.Fill), m.Seq.Patch)
	case m.Int != "":
		return m.Name + " = " + m.Int
	case len(m.Fld) > 0:
		s := m.Name + " = {"
		for _, f := range m.Fld {
			s += f.text() + "; "
		}
		return s + "}"
	}
	return fmt.Sprintf("%s = %v", m.Name, m.Bool)
}
