package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) set(fr *Frame, v ssa.Value, x Value) {
	fr.env[v] = x
	fr.idx++
}

func (ex *Exec) boolOf(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		ex.unsupported("expected scalar, got %T", v)
	}
	return t
}

func (ex *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		fr.idx++
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := ex.newObj(ex.cellFor(t, ex.zero(t)))
		ex.set(fr, x, Ptr{obj: id})
	case *ssa.BinOp:
		ex.set(fr, x, ex.binop(x.Op, x.X.Type(), ex.eval(fr, x.X), ex.eval(fr, x.Y), x.Y.Type()))
	case *ssa.UnOp:
		ex.unop(fr, x)
	case *ssa.Call:
		ex.call(st, fr, x.Common(), x)
	case *ssa.ChangeInterface:
		ex.set(fr, x, ex.eval(fr, x.X))
	case *ssa.ChangeType:
		ex.set(fr, x, ex.eval(fr, x.X))
	case *ssa.Convert:
		ex.set(fr, x, ex.convert(x.X.Type(), x.Type(), ex.eval(fr, x.X)))
	case *ssa.Defer:
		d := deferred{}
		if x.Call.IsInvoke() {
			ex.unsupported("deferred interface call")
		}
		d.fn = ex.eval(fr, x.Call.Value)
		for _, a := range x.Call.Args {
			d.args = append(d.args, ex.eval(fr, a))
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		fr.idx++
	case *ssa.RunDefers:
		fr.running = true
	case *ssa.Extract:
		tu, ok := ex.eval(fr, x.Tuple).(Tuple)
		if !ok {
			ex.unsupported("extract from %T", ex.eval(fr, x.Tuple))
		}
		ex.set(fr, x, tu[x.Index])
	case *ssa.Field:
		s, ok := ex.eval(fr, x.X).(Struct)
		if !ok {
			ex.unsupported("field of %T", ex.eval(fr, x.X))
		}
		ex.set(fr, x, s.f[x.Field])
	case *ssa.FieldAddr:
		p, ok := ex.eval(fr, x.X).(Ptr)
		if !ok {
			ex.unsupported("field address of %T", ex.eval(fr, x.X))
		}
		if p.isNil() {
			ex.nilDeref()
		}
		ex.set(fr, x, p.ext(pathElem{field: x.Field}))
	case *ssa.IndexAddr:
		ex.indexAddr(fr, x)
	case *ssa.Index:
		idx := ex.boolOf(ex.eval(fr, x.Index))
		switch v := ex.eval(fr, x.X).(type) {
		case *Rope:
			ex.bounds(idx, ex.ropeLen(v))
			ex.set(fr, x, ex.index(v, idx))
		default:
			ex.unsupported("index of %T", v)
		}
	case *ssa.Lookup:
		ex.lookup(st, fr, x)
	case *ssa.If:
		ex.ifInstr(st, fr, x)
	case *ssa.Jump:
		ex.jump(st, fr, fr.block.Succs[0])
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, ex.eval(fr, v))
		}
		ex.set(fr, x, Func{fn: x.Fn.(*ssa.Function), binds: b})
	case *ssa.MakeInterface:
		ex.set(fr, x, Iface{typ: x.X.Type(), v: ex.eval(fr, x.X)})
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		id := ex.newObj(&Obj{kind: kMap, m: &MapObj{key: mt.Key(), elem: mt.Elem()}})
		ex.set(fr, x, MapV{id})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := ex.boolOf(ex.eval(fr, x.Len))
		cp := ex.boolOf(ex.eval(fr, x.Cap))
		if !ex.decide(ex.c.Le(ex.c.zero, n)) || !ex.decide(ex.c.Le(n, cp)) {
			ex.goPanic("makeslice: len out of range")
		}
		id := ex.newObj(&Obj{kind: kSeq, rope: ex.zeroRope(cp, et), typ: et})
		ex.set(fr, x, Slice{obj: id, off: ex.c.zero, len: n, cap: cp})
	case *ssa.MapUpdate:
		m := ex.eval(fr, x.Map).(MapV)
		ex.mapUpdate(m, ex.eval(fr, x.Key), ex.eval(fr, x.Value))
		fr.idx++
	case *ssa.Next:
		ex.next(st, fr, x)
	case *ssa.Range:
		ex.rangeInstr(fr, x)
	case *ssa.Panic:
		v := ex.eval(fr, x.X)
		panic(panicReq{v})
	case *ssa.Return:
		var res []Value
		for _, r := range x.Results {
			res = append(res, ex.eval(fr, r))
		}
		ex.doReturn(st, fr, res)
	case *ssa.Slice:
		ex.slice(fr, x)
	case *ssa.Store:
		p, ok := ex.eval(fr, x.Addr).(Ptr)
		if !ok {
			ex.unsupported("store to %T", ex.eval(fr, x.Addr))
		}
		ex.raceCheck(st, fr, p)
		ex.store(p, ex.eval(fr, x.Val))
		fr.idx++
	case *ssa.TypeAssert:
		ex.typeAssert(fr, x)
	default:
		ex.unsupported("instruction %T", in)
	}
}

func (ex *Exec) zeroRope(n *Term, et types.Type) *Rope {
	if isByteElem(et) {
		return ex.norm(&Rope{segs: []Seg{{zero: ex.c.zero, n: n}}})
	}
	return ex.norm(&Rope{segs: []Seg{{zero: ex.zero(et), n: n}}, elem: et})
}

func (ex *Exec) bounds(idx, n *Term) {
	if !ex.decide(ex.c.And(ex.c.Le(ex.c.zero, idx), ex.c.Lt(idx, n))) {
		ex.goPanic("index out of range")
	}
}

func (ex *Exec) indexAddr(fr *Frame, x *ssa.IndexAddr) {
	idx := ex.boolOf(ex.eval(fr, x.Index))
	switch v := ex.eval(fr, x.X).(type) {
	case Slice:
		ex.bounds(idx, v.len)
		ex.set(fr, x, Ptr{obj: v.obj, path: []pathElem{{idx: ex.c.Add(v.off, idx)}}})
	case Ptr: // pointer to array
		if v.isNil() {
			ex.nilDeref()
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.bounds(idx, ex.c.Int(n))
		ex.set(fr, x, v.ext(pathElem{idx: idx}))
	default:
		ex.unsupported("index address of %T", v)
	}
}

func (ex *Exec) unop(fr *Frame, x *ssa.UnOp) {
	v := ex.eval(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			ex.unsupported("load through %T", v)
		}
		if g, ok := x.X.(*ssa.Global); ok {
			ex.useGlobal(g)
		}
		ex.raceCheck(ex.st, fr, p)
		r := ex.load(p, x.Type())
		if r == nil {
			ex.unsupported("read of uninitialised %s", x.X)
		}
		ex.set(fr, x, r)
	case token.NOT:
		ex.set(fr, x, ex.c.Not(v.(*Term)))
	case token.SUB:
		ex.set(fr, x, ex.wrap(ex.c.Neg(v.(*Term)), x.Type()))
	case token.XOR:
		t := v.(*Term)
		ii, _ := intType(x.Type())
		if ii.signed {
			ex.set(fr, x, ex.c.Sub(ex.c.Neg(t), ex.c.one))
		} else {
			ex.set(fr, x, ex.c.Sub(ex.c.Big(new(big.Int).Sub(pow2(ii.bits), bigOne)), t))
		}
	default:
		ex.unsupported("unary %s", x.Op)
	}
}

// globals of packages whose initialisers were not executed are only usable when zero-size or modelled
func (ex *Exec) useGlobal(g *ssa.Global) {
	if g.Pkg == ex.w.pkg || !ex.initDone {
		return
	}
	t := g.Type().(*types.Pointer).Elem()
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return
	}
	ex.unsupported("global %s of another package", g)
}

func (ex *Exec) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := intType(to); ok {
		if _, ok := intType(from); ok {
			return ex.wrap(v.(*Term), to)
		}
	}
	if isString(to) {
		if s, ok := fu.(*types.Slice); ok && isByteElem(s.Elem()) {
			return ex.content(v.(Slice), nil)
		}
		if isString(from) {
			return v
		}
	}
	if s, ok := tu.(*types.Slice); ok && isByteElem(s.Elem()) && isString(from) {
		return ex.newSeq(v.(*Rope), s.Elem())
	}
	if types.Identical(fu, tu) {
		return v
	}
	ex.unsupported("conversion %s to %s", from, to)
	return nil
}

func (ex *Exec) slice(fr *Frame, x *ssa.Slice) {
	c := ex.c
	v := ex.eval(fr, x.X)
	opt := func(o ssa.Value, d *Term) *Term {
		if o == nil {
			return d
		}
		return ex.boolOf(ex.eval(fr, o))
	}
	switch s := v.(type) {
	case *Rope: // string
		n := ex.ropeLen(s)
		lo, hi := opt(x.Low, c.zero), opt(x.High, n)
		if !ex.decide(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, n))) {
			ex.goPanic("slice bounds out of range")
		}
		ex.set(fr, x, ex.sub(s, lo, c.Sub(hi, lo)))
	case Slice:
		lo, hi := opt(x.Low, c.zero), opt(x.High, s.len)
		mx := opt(x.Max, s.cap)
		if !ex.decide(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.cap))) {
			ex.goPanic("slice bounds out of range")
		}
		ex.set(fr, x, Slice{obj: s.obj, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo)})
	case Ptr: // pointer to array
		if s.isNil() {
			ex.nilDeref()
		}
		if len(s.path) != 0 {
			ex.unsupported("slice of nested array")
		}
		n := c.Int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi := opt(x.Low, c.zero), opt(x.High, n)
		mx := opt(x.Max, n)
		if !ex.decide(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n))) {
			ex.goPanic("slice bounds out of range")
		}
		ex.set(fr, x, Slice{obj: s.obj, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo)})
	default:
		ex.unsupported("slice of %T", v)
	}
}

// ---- operators ----

func (ex *Exec) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	c := ex.c
	switch op {
	case token.EQL:
		return ex.valueEq(t, a, b)
	case token.NEQ:
		return c.Not(ex.valueEq(t, a, b))
	}
	if isString(t) {
		if op == token.ADD {
			return ex.cat(a.(*Rope), b.(*Rope))
		}
		ex.unsupported("string operator %s", op)
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		ex.unsupported("operator %s on %T", op, a)
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	ii, ok := intType(t)
	if !ok {
		ex.unsupported("operator %s on %s", op, t)
	}
	switch op {
	case token.ADD:
		return ex.wrap(c.Add(x, y), t)
	case token.SUB:
		return ex.wrap(c.Sub(x, y), t)
	case token.MUL:
		if x.isConst() {
			return ex.wrap(c.MulK(x.k, y), t)
		}
		if y.isConst() {
			return ex.wrap(c.MulK(y.k, x), t)
		}
		ex.unsupported("non-linear multiplication")
	case token.QUO, token.REM:
		if !y.isConst() || y.k.Sign() <= 0 {
			if ex.decide(c.Eq(y, c.zero)) {
				ex.goPanic("integer divide by zero")
			}
			ex.unsupported("division by non-constant")
		}
		var q *Term
		if x.lo != nil && x.lo.Sign() >= 0 || ex.decide(c.Le(c.zero, x)) {
			q = c.Div(x, y.k)
		} else {
			q = c.Neg(c.Div(c.Neg(x), y.k))
		}
		if op == token.QUO {
			return q
		}
		return c.Sub(x, c.MulK(y.k, q))
	case token.SHL, token.SHR:
		if bi, _ := intType(bt); bi.signed {
			if !ex.decide(c.Le(c.zero, y)) {
				ex.goPanic("negative shift amount")
			}
		}
		if !y.isConst() {
			// enumerate the amount
			for k := 0; k < ii.bits; k++ {
				if ex.decide(c.Eq(y, c.Int(int64(k)))) {
					y = c.Int(int64(k))
					break
				}
			}
			if !y.isConst() {
				y = c.Int(int64(ii.bits))
			}
		}
		k := y.k.Int64()
		if y.k.BitLen() > 30 || k > int64(ii.bits) {
			k = int64(ii.bits)
		}
		if op == token.SHL {
			if k >= int64(ii.bits) {
				return c.zero
			}
			return ex.wrap(c.MulK(pow2(int(k)), x), t)
		}
		return c.Div(x, pow2(int(k)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if ii.signed {
			neg := func(z *Term) bool {
				return !(z.lo != nil && z.lo.Sign() >= 0) && !ex.prove(c.Le(c.zero, z))
			}
			if neg(x) || neg(y) {
				m := pow2(ii.bits)
				r := ex.bitop(op, c.Mod(x, m), c.Mod(y, m), ii.bits)
				h := pow2(ii.bits - 1)
				return c.Sub(c.Mod(c.Add(r, c.Big(h)), m), c.Big(h))
			}
		}
		return ex.bitop(op, x, y, ii.bits)
	}
	ex.unsupported("operator %s", op)
	return nil
}

func (ex *Exec) bitop(op token.Token, x, y *Term, w int) *Term {
	c := ex.c
	switch op {
	case token.AND:
		return c.BitAnd(x, y, w)
	case token.OR:
		return c.BitOr(x, y, w)
	case token.XOR:
		return c.BitXor(x, y, w)
	}
	return c.Sub(x, c.BitAnd(x, y, w))
}

// valueEq is Go's == as a formula.
func (ex *Exec) valueEq(t types.Type, a, b Value) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if ok {
			return c.Eq(x, y)
		}
	case *Rope:
		if y, ok := b.(*Rope); ok {
			if x.elem != nil || y.elem != nil { // arrays
				at, ok := t.Underlying().(*types.Array)
				if !ok {
					break
				}
				var parts []*Term
				for i := int64(0); i < at.Len(); i++ {
					parts = append(parts, ex.valueEq(at.Elem(), ex.index(x, c.Int(i)), ex.index(y, c.Int(i))))
				}
				return c.And(parts...)
			}
			return ex.ropeEq(x, y)
		}
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			break
		}
		if x.ref != nil || y.ref != nil {
			rx, ry := ex.ptrRef(x), ex.ptrRef(y)
			if rx == nil || ry == nil || len(x.path)+len(y.path) > 0 {
				if x.isNil() || y.isNil() {
					// abstract objects may be nil only via the distinguished reference
					break
				}
				return c.False
			}
			return c.Eq(rx, ry)
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.False
		}
		parts := []*Term{}
		for i := range x.path {
			if (x.path[i].idx == nil) != (y.path[i].idx == nil) {
				return c.False
			}
			if x.path[i].idx != nil {
				parts = append(parts, c.Eq(x.path[i].idx, y.path[i].idx))
			} else if x.path[i].field != y.path[i].field {
				return c.False
			}
		}
		return c.And(parts...)
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			break
		}
		st := t.Underlying().(*types.Struct)
		var parts []*Term
		for i := range x.f {
			parts = append(parts, ex.valueEq(st.Field(i).Type(), x.f[i], y.f[i]))
		}
		return c.And(parts...)
	case Iface:
		switch y := b.(type) {
		case Iface:
			if x.typ == nil || y.typ == nil {
				return c.Bool(x.typ == nil && y.typ == nil)
			}
			if !types.Identical(x.typ, y.typ) {
				return c.False
			}
			return ex.valueEq(x.typ, x.v, y.v)
		case SymIface:
			return ex.symEq(y, x)
		}
		// comparison of interface with concrete value does not occur in SSA
	case SymIface:
		switch y := b.(type) {
		case Iface:
			return ex.symEq(x, y)
		case SymIface:
			return c.Eq(x.t, y.t)
		}
	case Slice:
		y, ok := b.(Slice)
		if ok { // only comparison with nil
			if x.obj == 0 || y.obj == 0 {
				if x.obj == 0 && y.obj == 0 {
					return c.True
				}
				return c.False
			}
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return c.Bool(x.obj == y.obj)
		}
	case Func:
		if y, ok := b.(Func); ok {
			if x.fn == nil && x.bi == nil || y.fn == nil && y.bi == nil {
				return c.Bool(x.fn == nil && x.bi == nil && y.fn == nil && y.bi == nil)
			}
		}
	}
	ex.unsupported("comparison of %T and %T", a, b)
	return nil
}

func (ex *Exec) ptrRef(p Ptr) *Term {
	if p.ref != nil {
		return p.ref
	}
	if p.obj == 0 {
		return ex.c.Var("nilref", SRef)
	}
	return nil
}

func (ex *Exec) symEq(s SymIface, x Iface) *Term {
	c := ex.c
	tag := ex.ifTag(s.t)
	if x.typ == nil {
		return c.Eq(tag, c.zero)
	}
	is := c.Eq(tag, c.Int(ex.typeTag(x.typ)))
	if !ex.decide(is) {
		return c.False
	}
	return ex.valueEq(x.typ, ex.ifPayload(s, x.typ), x.v)
}

func (ex *Exec) ifPayload(s SymIface, t types.Type) Value {
	return ex.symOf(t, "if."+typeName(t), []*Term{s.t})
}

// ---- type assertions ----

func (ex *Exec) typeAssert(fr *Frame, x *ssa.TypeAssert) {
	c := ex.c
	v := ex.eval(fr, x.X)
	fail := func() {
		if x.CommaOk {
			ex.set(fr, x, Tuple{ex.zero(x.AssertedType), c.False})
			return
		}
		ex.goPanic("interface conversion")
	}
	okv := func(r Value) {
		if x.CommaOk {
			ex.set(fr, x, Tuple{r, c.True})
			return
		}
		ex.set(fr, x, r)
	}
	isIface := types.IsInterface(x.AssertedType)
	switch i := v.(type) {
	case Iface:
		if i.typ == nil {
			fail()
			return
		}
		if isIface {
			if types.Implements(i.typ, x.AssertedType.Underlying().(*types.Interface)) {
				okv(i)
			} else {
				fail()
			}
			return
		}
		if types.Identical(i.typ, x.AssertedType) {
			okv(i.v)
		} else {
			fail()
		}
	case SymIface:
		if isIface {
			ex.unsupported("interface assertion on symbolic value")
		}
		if ex.decide(c.Eq(ex.ifTag(i.t), c.Int(ex.typeTag(x.AssertedType)))) {
			okv(ex.ifPayload(i, x.AssertedType))
		} else {
			fail()
		}
	default:
		ex.unsupported("type assertion on %T", v)
	}
}

// ---- control ----

func (ex *Exec) ifInstr(st *State, fr *Frame, x *ssa.If) {
	cond := ex.boolOf(ex.eval(fr, x.Cond))
	if _, ok := ex.known(cond); !ok {
		if ex.tryMergeIf(st, fr, x, cond) {
			return
		}
	}
	if ex.decide(cond) {
		ex.jump(st, fr, fr.block.Succs[0])
	} else {
		ex.jump(st, fr, fr.block.Succs[1])
	}
}

func (ex *Exec) doReturn(st *State, fr *Frame, res []Value) {
	if fr.onReturn != nil {
		f := fr.onReturn
		fr.onReturn = nil
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) == 0 {
			st.result = res
			f(st, res)
			return
		}
		r := f(st, res)
		if r == nil {
			if fr.isDefer {
				return
			}
			res = nil
		} else {
			res = r
		}
		ex.deliver(st, fr.dest, res, fr.isDefer)
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.result = res
		if st.result == nil {
			st.result = []Value{}
		}
		return
	}
	ex.deliver(st, fr.dest, res, fr.isDefer)
}

func (ex *Exec) deliver(st *State, dest ssa.Value, res []Value, isDefer bool) {
	if isDefer {
		return // the caller is in its defer-running mode
	}
	caller := st.top()
	if dest != nil {
		switch len(res) {
		case 0:
			caller.env[dest] = Tuple{}
		case 1:
			caller.env[dest] = res[0]
		default:
			caller.env[dest] = Tuple(res)
		}
	}
	caller.idx++
}

// ---- calls ----

func (ex *Exec) call(st *State, fr *Frame, cc *ssa.CallCommon, dest ssa.Value) {
	var fv Value
	var args []Value
	if cc.IsInvoke() {
		recv := ex.eval(fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, ex.eval(fr, a))
		}
		i, ok := recv.(Iface)
		if !ok {
			if r, ok := ex.invokeSym(recv, cc, args); ok {
				ex.set(fr, dest, r)
				return
			}
			ex.unsupported("method call on %T", recv)
		}
		if i.typ == nil {
			ex.nilDeref()
		}
		m := ex.w.prog.LookupMethod(i.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			ex.unsupported("no method %s on %s", cc.Method.Name(), i.typ)
		}
		fv = Func{fn: m}
		args = append([]Value{i.v}, args...)
	} else {
		fv = ex.eval(fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, ex.eval(fr, a))
		}
	}
	f, ok := fv.(Func)
	if !ok {
		ex.unsupported("call of %T", fv)
	}
	if f.bi != nil {
		r := ex.builtin(st, fr, f.bi, args, cc)
		ex.set(fr, dest, r)
		return
	}
	if f.fn == nil {
		ex.nilDeref()
	}
	if r, ok := ex.intrinsic(st, fr, f.fn, args, dest); ok {
		if r == nil {
			r = Tuple{}
		}
		ex.set(fr, dest, r)
		return
	}
	if ex.useContract(st, fr, f, args, dest) {
		return
	}
	if r, ok := ex.callMerged(st, f, args); ok {
		ex.set(fr, dest, r)
		return
	}
	ex.pushCall(st, f, args, dest)
}

// pushCall enters the body of a function.
func (ex *Exec) pushCall(st *State, fv Value, args []Value, dest ssa.Value) {
	f, ok := fv.(Func)
	if !ok || f.fn == nil {
		ex.unsupported("call of %T", fv)
	}
	if f.fn.Blocks == nil {
		ex.unsupported("call of %s (no body)", f.fn)
	}
	if len(st.frames) > 120 {
		ex.unsupported("call depth at %s", f.fn)
	}
	if f.fn.Pkg != nil && f.fn.Pkg != ex.w.pkg {
		ex.inlined[f.fn.String()] = true
	} else if len(st.frames) > 0 {
		ex.inlined[f.fn.String()] = true
	}
	nf := &Frame{fn: f.fn, env: map[ssa.Value]Value{}, block: f.fn.Blocks[0], dest: dest, loops: map[*ssa.BasicBlock]loopCount{}}
	if len(args) != len(f.fn.Params) {
		ex.unsupported("argument count for %s", f.fn)
	}
	for i, p := range f.fn.Params {
		nf.env[p] = args[i]
	}
	for i, v := range f.fn.FreeVars {
		nf.env[v] = f.binds[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], nf)
}

type loopCount struct {
	total, forked int
	forks         int
	cut           bool // this is the arbitrary iteration of cutLoop
}

func (ex *Exec) isLoopHeader(b *ssa.BasicBlock) bool { return ex.w.isLoopHeader(b) }

// atLoopHead is called on entering a loop header (before its phis are evaluated).
func (ex *Exec) atLoopHead(st *State, fr *Frame, to *ssa.BasicBlock) {
	lc := fr.loops[to]
	if fr.prev != nil && to.Dominates(fr.prev) { // back edge
		lc.total++
		if st.forks != lc.forks {
			lc.forked++
		}
		lc.forks = st.forks
		fr.loops[to] = lc
		lim := ex.unroll
		if ex.mergeDepth > 0 && lim < 70 {
			lim = 70
		}
		if lc.cut {
			return
		}
		if ex.cutAt > 0 && ex.mergeDepth == 0 && (lc.forked >= ex.cutAt || ex.cutEntry[to] && ex.initDone) && !ex.cutBad[to] && (lc.total > 40 || !ex.headDecided(st, to)) {
			if !ex.cutEntry[to] {
				panic(restartReq{to})
			}
			if !ex.cutLoop(st, to) {
				ex.cutBad[to] = true
				ex.needInvariants()
			}
		}
		if lc.forked > lim || lc.total > 2000 {
			if ex.mergeDepth > 0 {
				panic(mergeAbort{"loop bound"})
			}
			if !ex.feasible(ex.c.True) {
				panic(dieReq{})
			}
			ex.bounds_(fmt.Sprintf("%s (loop at %s)", fr.fn.String(), ex.posOf(to)), lc.forked)
			panic(dieReq{})
		}
		return
	}
	fr.loops[to] = loopCount{forks: st.forks}
	if ex.cutAt > 0 && ex.cutEntry[to] && ex.mergeDepth == 0 && !ex.cutBad[to] && ex.initDone && !ex.headDecided(st, to) {
		if !ex.cutLoop(st, to) {
			ex.cutBad[to] = true
			ex.needInvariants()
		}
	}
}

func (ex *Exec) posOf(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			p := ex.w.prog.Fset.Position(in.Pos())
			return fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				p := ex.w.prog.Fset.Position(in.Pos())
				return fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
			}
		}
	}
	return "?"
}

func (ex *Exec) bounds_(name string, n int) {
	if ex.bounds2 == nil {
		ex.bounds2 = map[string]int{}
	}
	if n > ex.bounds2[name] {
		ex.bounds2[name] = n
	}
}
