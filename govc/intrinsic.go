package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedStrings(p []string) []string { sort.Strings(p); return p }

// concreteString returns the text of a fully concrete rope.
func concreteString(r *Rope) (string, bool) {
	var sb strings.Builder
	for _, s := range r.segs {
		switch {
		case s.lit != "":
			sb.WriteString(s.lit)
		case s.zero != nil && s.n.isConst() && s.n.k.Int64() < 1000:
			for i := int64(0); i < s.n.k.Int64(); i++ {
				sb.WriteByte(0)
			}
		default:
			return "", false
		}
	}
	return sb.String(), true
}

func (ex *Exec) str(v Value) string {
	r, ok := v.(*Rope)
	if !ok {
		ex.unsupported("string argument expected")
	}
	s, ok := concreteString(r)
	if !ok {
		ex.unsupported("constant string expected")
	}
	return s
}

func (ex *Exec) seqArg(v Value) *Rope {
	switch x := v.(type) {
	case *Rope:
		return x
	case Slice:
		return ex.content(x, nil)
	}
	ex.unsupported("sequence expected, got %T", v)
	return nil
}

func (ex *Exec) intrinsic(st *State, fr *Frame, fn *ssa.Function, args []Value, dest ssa.Value) (Value, bool) {
	c := ex.c
	name := fn.String()
	if fn.Pkg == ex.w.pkg && len(fn.Name()) > 1 && fn.Name()[0] == 'v' && fn.Name()[1] >= 'A' && fn.Name()[1] <= 'Z' && fn.Signature.Recv() == nil {
		if r, ok := ex.vIntrinsic(st, fr, fn, args); ok {
			return r, true
		}
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Pkg != ex.w.pkg && fn.Signature.Recv() == nil {
		return Tuple{}, true // initialisers of other packages are not executed
	}
	switch name {
	case "unicode/utf8.Valid", "unicode/utf8.ValidString":
		return ex.utf8Match(ex.seqArg(args[0])), true
	case "regexp.MustCompile":
		return Regexp{ex.str(args[0])}, true
	case "(*regexp.Regexp).Match", "(*regexp.Regexp).MatchString":
		re, ok := args[0].(Regexp)
		if !ok {
			ex.unsupported("symbolic regular expression")
		}
		return ex.reMatch(re.pat, ex.seqArg(args[1])), true
	case "bytes.Equal":
		return ex.ropeEq(ex.seqArg(args[0]), ex.seqArg(args[1])), true
	case "bytes.HasPrefix", "strings.HasPrefix":
		a, p := ex.seqArg(args[0]), ex.seqArg(args[1])
		if !ex.decide(c.Le(ex.ropeLen(p), ex.ropeLen(a))) {
			return c.False, true
		}
		return ex.ropeEq(ex.sub(a, c.zero, ex.ropeLen(p)), p), true
	case "bytes.HasSuffix", "strings.HasSuffix":
		a, p := ex.seqArg(args[0]), ex.seqArg(args[1])
		if !ex.decide(c.Le(ex.ropeLen(p), ex.ropeLen(a))) {
			return c.False, true
		}
		return ex.ropeEq(ex.sub(a, c.Sub(ex.ropeLen(a), ex.ropeLen(p)), ex.ropeLen(p)), p), true
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index":
		a := ex.seqArg(args[0])
		var b byte
		if t, ok := args[1].(*Term); ok {
			if !t.isConst() {
				ex.unsupported("index of symbolic byte")
			}
			b = byte(t.k.Int64())
		} else {
			s, ok := concreteString(ex.seqArg(args[1]))
			if !ok || len(s) != 1 {
				ex.unsupported("index of a symbolic pattern")
			}
			b = s[0]
		}
		return ex.indexByte(a, b), true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return Tuple{c.zero, Iface{}}, true
	case "fmt.Sprintf", "fmt.Sprint":
		return ex.atomRope(c.Fresh("sprintf", SSeq), nil), true
	case "time.Now":
		ex.clockN++
		prev, _ := st.ghost["$clock"].(*Term)
		n, _ := st.ghost["$clockn"].(*Term)
		if n == nil {
			n = c.zero
		}
		t := c.Var(fmt.Sprintf("now!%s", n.k), SInt)
		c.setRange(t, bigOne, nil)
		st.ghost["$clockn"] = c.Add(n, c.one)
		if prev != nil {
			ex.assume(c.Le(prev, t))
		}
		st.ghost["$clock"] = t
		ex.usedTrust["time.Now returns non-decreasing instants"] = true
		return t, true
	case "(time.Time).IsZero":
		return c.Eq(args[0].(*Term), c.zero), true
	case "(time.Time).After":
		return c.Lt(args[1].(*Term), args[0].(*Term)), true
	case "(time.Time).Before":
		return c.Lt(args[0].(*Term), args[1].(*Term)), true
	case "(time.Time).Equal":
		return c.Eq(args[0].(*Term), args[1].(*Term)), true
	case "(time.Time).Add":
		return c.Add(args[0].(*Term), args[1].(*Term)), true
	case "(time.Time).Sub", "time.Until", "time.Since":
		a := args[0].(*Term)
		var b *Term
		if name == "(time.Time).Sub" {
			b = args[1].(*Term)
		} else {
			ex.unsupported("%s", name)
		}
		d := c.Sub(a, b)
		lo, hi := intInfo{64, true}.rng()
		if !ex.decide(c.Le(c.Big(lo), d)) {
			return c.Big(lo), true
		}
		if !ex.decide(c.Le(d, c.Big(hi))) {
			return c.Big(hi), true
		}
		return d, true
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return ex.atomic(st, fr, strings.TrimPrefix(name, "sync/atomic."), args, fn), true
	}
	return nil, false
}

// indexByte: position of the first b, or -1.
func (ex *Exec) indexByte(a *Rope, b byte) *Term {
	c := ex.c
	if s, ok := concreteString(a); ok {
		return c.Int(int64(strings.IndexByte(s, b)))
	}
	// short finite ropes: explicit
	n := ex.ropeLen(a)
	if n.isConst() && n.k.Int64() <= 32 {
		r := c.Int(-1)
		for i := n.k.Int64() - 1; i >= 0; i-- {
			e := ex.index(a, c.Int(i)).(*Term)
			r = c.Ite(c.Eq(e, c.Int(int64(b))), c.Int(i), r)
		}
		return r
	}
	if b >= 0x80 {
		ex.unsupported("index of a non-ASCII byte")
	}
	cum := c.zero
	for _, p := range ex.pieces(a) {
		if p.rope == nil {
			if i := strings.IndexByte(p.lit, b); i >= 0 {
				return c.Add(cum, c.Int(int64(i)))
			}
			cum = c.Add(cum, c.Int(int64(len(p.lit))))
			continue
		}
		n := ex.ropeLen(p.rope)
		if ex.decide(ex.hasByte(b, p.rope)) {
			r := c.AppRange(fmt.Sprintf("idx%02x", b), c.zero.k, maxLen, ex.seqTerm(p.rope))
			if !ex.predSeen[r] {
				ex.predSeen[r] = true
				r.ax = append(r.ax, c.Implies(ex.hasByte(b, p.rope), c.Lt(r, n)))
				if len(p.rope.segs) == 1 && p.rope.segs[0].atom != nil {
					s := p.rope.segs[0]
					r.ax = append(r.ax, c.Implies(ex.hasByte(b, p.rope), c.Eq(ex.at(s.atom, c.Add(s.off, r)), c.Int(int64(b)))))
					r.ax = append(r.ax, c.Implies(c.And(c.Lt(c.zero, n), c.Eq(ex.at(s.atom, s.off), c.Int(int64(b)))), c.Eq(r, c.zero)))
				}
			}
			return c.Add(cum, r)
		}
		cum = c.Add(cum, n)
	}
	return c.Int(-1)
}

func (ex *Exec) atomic(st *State, fr *Frame, op string, args []Value, fn *ssa.Function) Value {
	c := ex.c
	p, ok := args[0].(Ptr)
	if !ok {
		ex.unsupported("atomic on %T", args[0])
	}
	if p.isNil() {
		ex.nilDeref()
	}
	et := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	ex.interfere(st)
	cur := ex.load(p, et).(*Term)
	switch {
	case strings.HasPrefix(op, "Load"):
		st.atomics++
		return cur
	case strings.HasPrefix(op, "Store"):
		ex.store(p, args[1])
		ex.atomicStep(st, p, cur, args[1].(*Term))
		return Tuple{}
	case strings.HasPrefix(op, "Add"):
		n := ex.wrap(c.Add(cur, args[1].(*Term)), et)
		ex.store(p, n)
		ex.atomicStep(st, p, cur, n)
		return n
	case strings.HasPrefix(op, "Swap"):
		ex.store(p, args[1])
		ex.atomicStep(st, p, cur, args[1].(*Term))
		return cur
	case strings.HasPrefix(op, "CompareAndSwap"):
		if ex.decide(c.Eq(cur, args[1].(*Term))) {
			ex.store(p, args[2])
			ex.atomicStep(st, p, cur, args[2].(*Term))
			return c.True
		}
		st.atomics++
		return c.False
	}
	ex.unsupported("atomic %s", op)
	return nil
}

// interfere applies the rely condition before an atomic step.
func (ex *Exec) interfere(st *State)                        { ex.rely(st) }
func (ex *Exec) atomicStep(st *State, p Ptr, old, nw *Term) { ex.guarantee(st, p, old, nw) }

func (ex *Exec) invokeSym(recv Value, cc *ssa.CallCommon, args []Value) (Value, bool) {
	return nil, false
}
