package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort of an SMT term.
type Sort uint8

const (
	SInt Sort = iota
	SBool
	SSeq   // byte sequences and strings
	SIface // dynamic values
	SList  // sequences of non-byte elements
	SRef   // abstract objects, maps
)

var sortNames = [...]string{"Int", "Bool", "Seq", "Ifc", "Lst", "Ref"}

func (s Sort) String() string { return sortNames[s] }

type Op uint8

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OVar // declared constant
	OApp // uninterpreted function application
	OLin // linear combination
	ODiv // args[0] div k   (floor, k>0)
	OMod // args[0] mod k
	OIte
	OEq
	OLe // args[0] <= 0 (args[0] an int term)
	ONot
	OAnd
	OOr
)

// Term is an immutable hash-consed term.
type Term struct {
	id   int
	op   Op
	sort Sort
	name string
	k    *big.Int // OConst value, ODiv/OMod divisor, OLin constant
	args []*Term
	cs   []*big.Int // OLin coefficients
	lo   *big.Int   // interval, nil = unbounded
	hi   *big.Int
	// axioms attached to a var/app (asserted whenever the term is used)
	ax []*Term
}

// Ctx owns terms.
type Ctx struct {
	tab   map[string]*Term
	all   []*Term
	fresh int
	decls map[string]declInfo // function/const declarations
	True  *Term
	False *Term
	zero  *Term
	one   *Term
}

type declInfo struct {
	args []Sort
	res  Sort
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, decls: map[string]declInfo{}}
	c.True = c.mk(&Term{op: OTrue, sort: SBool}, "T")
	c.False = c.mk(&Term{op: OFalse, sort: SBool}, "F")
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) mk(t *Term, key string) *Term {
	if o, ok := c.tab[key]; ok {
		return o
	}
	t.id = len(c.all)
	c.all = append(c.all, t)
	c.tab[key] = t
	return t
}

func (c *Ctx) Big(b *big.Int) *Term {
	t := &Term{op: OConst, sort: SInt, k: b, lo: b, hi: b}
	return c.mk(t, "c"+b.String())
}
func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Uint(n uint64) *Term {
	return c.Big(new(big.Int).SetUint64(n))
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

func (c *Ctx) Var(name string, s Sort) *Term {
	if _, ok := c.decls[name]; !ok {
		c.decls[name] = declInfo{nil, s}
	}
	return c.mk(&Term{op: OVar, sort: s, name: name}, "v"+name)
}

// VarRange declares an Int constant with a known range (axioms attached).
func (c *Ctx) VarRange(name string, lo, hi *big.Int) *Term {
	t := c.Var(name, SInt)
	c.setRange(t, lo, hi)
	return t
}

func (c *Ctx) setRange(t *Term, lo, hi *big.Int) {
	if t.lo == nil && lo != nil {
		t.lo = lo
		a := c.mk(&Term{op: OLe, sort: SBool, args: []*Term{c.Sub(c.Big(lo), t)}}, "le"+strconv.Itoa(c.Sub(c.Big(lo), t).id))
		t.ax = append(t.ax, a)
	}
	if t.hi == nil && hi != nil {
		t.hi = hi
		a := c.mk(&Term{op: OLe, sort: SBool, args: []*Term{c.Sub(t, c.Big(hi))}}, "le"+strconv.Itoa(c.Sub(t, c.Big(hi)).id))
		t.ax = append(t.ax, a)
	}
}

// App is an uninterpreted function application.
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	if _, ok := c.decls[name]; !ok {
		var as []Sort
		for _, a := range args {
			as = append(as, a.sort)
		}
		c.decls[name] = declInfo{as, s}
	}
	var sb strings.Builder
	sb.WriteString("a")
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return c.mk(&Term{op: OApp, sort: s, name: name, args: args}, sb.String())
}

func (c *Ctx) AppRange(name string, lo, hi *big.Int, args ...*Term) *Term {
	t := c.App(name, SInt, args...)
	c.setRange(t, lo, hi)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return t.name
	case OLin:
		var p []string
		for i, a := range t.args {
			if t.cs[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, t.cs[i].String()+"*"+a.str(d+1))
			}
		}
		if t.k.Sign() != 0 {
			p = append(p, t.k.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case ODiv:
		return "(" + t.args[0].str(d+1) + " div " + t.k.String() + ")"
	case OMod:
		return "(" + t.args[0].str(d+1) + " mod " + t.k.String() + ")"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	n := t.name
	switch t.op {
	case OIte:
		n = "ite"
	case OEq:
		n = "="
	case OLe:
		return "(" + p[0] + " <= 0)"
	case ONot:
		n = "not"
	case OAnd:
		n = "and"
	case OOr:
		n = "or"
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

// ---- linear arithmetic ----

type linacc struct {
	k *big.Int
	m map[*Term]*big.Int
}

func newAcc() *linacc { return &linacc{k: new(big.Int), m: map[*Term]*big.Int{}} }

func (l *linacc) add(t *Term, c *big.Int) {
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(c, t.cs[i]))
		}
	default:
		l.addAtom(t, c)
	}
}

func (l *linacc) addAtom(t *Term, c *big.Int) {
	if o, ok := l.m[t]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
		return
	}
	if c.Sign() != 0 {
		l.m[t] = new(big.Int).Set(c)
	}
}

func (c *Ctx) finish(l *linacc) *Term {
	// k*d*div(x,d) + k*mod(x,d)  ->  k*x
	for changed := true; changed; {
		changed = false
		for t, co := range l.m {
			if t.op == OMod {
				d := c.Div(t.args[0], t.k)
				want := new(big.Int).Mul(co, t.k)
				if d.op == OConst || d.op == OLin {
					continue
				}
				if dc, ok := l.m[d]; ok && dc.Cmp(want) == 0 {
					delete(l.m, t)
					delete(l.m, d)
					l.add(t.args[0], co)
					changed = true
					break
				}
			}
		}
	}
	if len(l.m) == 0 {
		return c.Big(l.k)
	}
	atoms := make([]*Term, 0, len(l.m))
	for t := range l.m {
		atoms = append(atoms, t)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.k.Sign() == 0 && l.m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	var sb strings.Builder
	sb.WriteString("l")
	sb.WriteString(l.k.String())
	cs := make([]*big.Int, len(atoms))
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	okLo, okHi := true, true
	for i, a := range atoms {
		cs[i] = l.m[a]
		sb.WriteByte(';')
		sb.WriteString(cs[i].String())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(a.id))
		l1, h1 := a.lo, a.hi
		if cs[i].Sign() < 0 {
			l1, h1 = h1, l1
		}
		if l1 == nil {
			okLo = false
		} else if okLo {
			lo.Add(lo, new(big.Int).Mul(cs[i], l1))
		}
		if h1 == nil {
			okHi = false
		} else if okHi {
			hi.Add(hi, new(big.Int).Mul(cs[i], h1))
		}
	}
	t := &Term{op: OLin, sort: SInt, k: l.k, args: atoms, cs: cs}
	if okLo {
		t.lo = lo
	}
	if okHi {
		t.hi = hi
	}
	return c.mk(t, sb.String())
}

var bigOne = big.NewInt(1)
var bigMinus = big.NewInt(-1)

func (c *Ctx) Add(ts ...*Term) *Term {
	l := newAcc()
	for _, t := range ts {
		l.add(t, bigOne)
	}
	return c.finish(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Int(0)
	}
	l := newAcc()
	l.add(a, bigOne)
	l.add(b, bigMinus)
	return c.finish(l)
}
func (c *Ctx) MulK(k *big.Int, a *Term) *Term {
	l := newAcc()
	l.add(a, k)
	return c.finish(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.MulK(bigMinus, a) }

// Div is floor division by a positive constant.
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OConst {
		return c.Big(floorDiv(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		dl, dh := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if dl.Cmp(dh) == 0 {
			return c.Big(dl)
		}
	}
	if a.op == ODiv {
		return c.Div(a.args[0], new(big.Int).Mul(a.k, k))
	}
	if a.op == OMod { // (x mod m) div k with k | m  =  (x div k) mod (m/k)
		q, r := new(big.Int).QuoRem(a.k, k, new(big.Int))
		if r.Sign() == 0 {
			return c.Mod(c.Div(a.args[0], k), q)
		}
	}
	if a.op == OLin {
		// split multiples of k
		l := newAcc()
		rest := newAcc()
		for i, t := range a.args {
			q, r := new(big.Int).QuoRem(a.cs[i], k, new(big.Int))
			if r.Sign() == 0 {
				l.addAtom(t, q)
			} else {
				rest.addAtom(t, a.cs[i])
			}
		}
		q := floorDiv(a.k, k)
		if len(l.m) > 0 || q.Sign() != 0 {
			l.k.Set(q)
			rest.k.Sub(a.k, new(big.Int).Mul(q, k))
			rt := c.finish(rest)
			return c.Add(c.finish(l), c.Div(rt, k))
		}
	}
	t := &Term{op: ODiv, sort: SInt, k: k, args: []*Term{a}}
	if a.lo != nil {
		t.lo = floorDiv(a.lo, k)
	}
	if a.hi != nil {
		t.hi = floorDiv(a.hi, k)
	}
	return c.mk(t, "d"+k.String()+","+strconv.Itoa(a.id))
}

func floorDiv(a, k *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, k, m) // Euclidean; k>0 => floor
	return q
}

// Mod is a mod k (result in 0..k-1).
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return c.Int(0)
	}
	if a.op == OConst {
		return c.Big(new(big.Int).Mod(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		dl, dh := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if dl.Cmp(dh) == 0 {
			return c.Sub(a, c.Big(new(big.Int).Mul(dl, k)))
		}
	}
	if a.op == OMod {
		if new(big.Int).Rem(a.k, k).Sign() == 0 {
			return c.Mod(a.args[0], k)
		}
	}
	if a.op == OLin {
		rest := newAcc()
		ch := false
		for i, t := range a.args {
			// drop multiples of k, reduce mod(x, m) atoms with k | m
			r := new(big.Int).Mod(a.cs[i], k)
			if r.Cmp(a.cs[i]) != 0 {
				// keep small negative coefficients as they are unless multiple
				if r.Sign() == 0 {
					ch = true
					continue
				}
				if new(big.Int).Abs(a.cs[i]).Cmp(k) > 0 {
					ch = true
					rest.add(t, r)
					continue
				}
			}
			if t.op == OMod && new(big.Int).Rem(t.k, k).Sign() == 0 {
				ch = true
				rest.add(t.args[0], a.cs[i])
				continue
			}
			rest.add(t, a.cs[i])
		}
		km := new(big.Int).Mod(a.k, k)
		if a.k.CmpAbs(k) >= 0 || (a.k.Sign() < 0 && false) {
			ch = true
		} else {
			km = a.k
		}
		rest.k.Add(rest.k, km)
		if ch {
			return c.Mod(c.finish(rest), k)
		}
	}
	t := &Term{op: OMod, sort: SInt, k: k, args: []*Term{a}, lo: new(big.Int), hi: new(big.Int).Sub(k, bigOne)}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
		t.hi = a.hi
	}
	return c.mk(t, "m"+k.String()+","+strconv.Itoa(a.id))
}

// ---- booleans ----

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.Add(c.Sub(a, b), c.one)) }

func (c *Ctx) le0(d *Term) *Term {
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.True
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.False
	}
	if d.op == OLin {
		// normalise by gcd
		g := new(big.Int)
		for _, k := range d.cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bigOne) > 0 {
			l := newAcc()
			for i, a := range d.args {
				l.addAtom(a, new(big.Int).Quo(d.cs[i], g))
			}
			// sum + k <= 0  <=> sum' <= floor(-k/g)
			q := floorDiv(new(big.Int).Neg(d.k), g)
			l.k.Neg(q)
			return c.le0(c.finish(l))
		}
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{d}}, "le"+strconv.Itoa(d.id))
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort == SBool {
		switch {
		case a.op == OTrue:
			return b
		case b.op == OTrue:
			return a
		case a.op == OFalse:
			return c.Not(b)
		case b.op == OFalse:
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	}
	if a.sort == SInt {
		d := c.Sub(a, b)
		if d.op == OConst {
			return c.Bool(d.k.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.False
		}
		// canonical: sign of first coefficient positive
		if d.op == OLin {
			if d.cs[0].Sign() < 0 {
				d = c.Neg(d)
			}
			if d.op == OLin {
				g := new(big.Int)
				for _, k := range d.cs {
					g.GCD(nil, nil, g, new(big.Int).Abs(k))
				}
				if g.Cmp(bigOne) > 0 {
					if new(big.Int).Rem(d.k, g).Sign() != 0 {
						return c.False
					}
					l := newAcc()
					for i, a := range d.args {
						l.addAtom(a, new(big.Int).Quo(d.cs[i], g))
					}
					l.k.Quo(d.k, g)
					d = c.finish(l)
				}
			}
		}
		// ite(c, k1, k2) == 0 with constants
		if r := c.iteEq(d); r != nil {
			return r
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d, c.zero}}, "eq"+strconv.Itoa(d.id)+",0")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}}, "eq"+strconv.Itoa(a.id)+","+strconv.Itoa(b.id))
}

// iteEq simplifies (k + co*ite(c,x,y)) == 0 when x,y are constants.
func (c *Ctx) iteEq(d *Term) *Term {
	var it *Term
	k := new(big.Int)
	co := bigOne
	if d.op == OIte {
		it = d
	} else if d.op == OLin && len(d.args) == 1 && d.args[0].op == OIte {
		it = d.args[0]
		k = d.k
		co = d.cs[0]
	} else {
		return nil
	}
	if !it.args[1].isConst() && !it.args[2].isConst() {
		return nil
	}
	f := func(x *Term) *Term {
		return c.Eq(c.Add(c.MulK(co, x), c.Big(k)), c.zero)
	}
	return c.Ite(it.args[0], f(it.args[1]), f(it.args[2]))
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	case OLe: // not (d<=0)  <=> 1-d <= 0
		return c.le0(c.Sub(c.one, a.args[0]))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}}, "n"+strconv.Itoa(a.id))
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, ts) }

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = zero, unit
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[c.Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var sb strings.Builder
	if op == OAnd {
		sb.WriteString("and")
	} else {
		sb.WriteString("or")
	}
	for _, a := range out {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return c.mk(&Term{op: op, sort: SBool, args: out}, sb.String())
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term     { return c.Eq(a, b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.op == OTrue || a == b {
		return a
	}
	if g.op == OFalse {
		return b
	}
	if a.sort == SBool {
		switch {
		case a.op == OTrue && b.op == OFalse:
			return g
		case a.op == OFalse && b.op == OTrue:
			return c.Not(g)
		case a.op == OTrue:
			return c.Or(g, b)
		case a.op == OFalse:
			return c.And(c.Not(g), b)
		case b.op == OTrue:
			return c.Or(c.Not(g), a)
		case b.op == OFalse:
			return c.And(g, a)
		}
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{g, a, b}}
	if a.sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	return c.mk(t, fmt.Sprintf("i%d,%d,%d", g.id, a.id, b.id))
}

// ---- bit operations on non-negative ints (exact) ----

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

// AndK computes a & mask for constant mask >= 0; a must be non-negative.
func (c *Ctx) AndK(a *Term, mask *big.Int) *Term {
	if a.op == OConst {
		return c.Big(new(big.Int).And(a.k, mask))
	}
	var parts []*Term
	n := mask.BitLen()
	for i := 0; i < n; {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		p := c.Mod(c.Div(a, pow2(i)), pow2(j-i))
		parts = append(parts, c.MulK(pow2(i), p))
		i = j
	}
	return c.Add(parts...)
}

// divisor2 returns the largest s <= 64 such that 2^s provably divides t.
func divisor2(t *Term) int {
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			return 64
		}
		return int(t.k.TrailingZeroBits())
	case OLin:
		m := 64
		if t.k.Sign() != 0 {
			m = int(t.k.TrailingZeroBits())
		}
		for i, a := range t.args {
			d := int(t.cs[i].TrailingZeroBits()) + divisor2(a)
			if d < m {
				m = d
			}
		}
		return m
	case OMod:
		d := divisor2(t.args[0])
		k := int(t.k.TrailingZeroBits())
		if k < d {
			return k
		}
		return d
	case OIte:
		a, b := divisor2(t.args[1]), divisor2(t.args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

func bitsNeeded(t *Term, w int) int {
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		if b := t.hi.BitLen(); b < w {
			return b
		}
	}
	return w
}

// BitOr of two non-negative terms of width w.
func (c *Ctx) BitOr(a, b *Term, w int) *Term {
	if b.op != OConst && a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Big(new(big.Int).Or(a.k, b.k))
		}
		return c.Add(c.Sub(a, c.AndK(a, b.k)), b)
	}
	// disjoint bit ranges
	if divisor2(b) >= bitsNeeded(a, w) || divisor2(a) >= bitsNeeded(b, w) {
		return c.Add(a, b)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.BitOr(a.args[1], b, w), c.BitOr(a.args[2], b, w))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.BitOr(b, a, w)
	}
	// a | b = a + b - (a & b)
	return c.Sub(c.Add(a, b), c.BitAnd(a, b, w))
}

func (c *Ctx) bit(a *Term, i int) *Term { return c.Mod(c.Div(a, pow2(i)), big.NewInt(2)) }

func (c *Ctx) BitAnd(a, b *Term, w int) *Term {
	if a.op == OConst {
		return c.AndK(b, a.k)
	}
	if b.op == OConst {
		return c.AndK(a, b.k)
	}
	n := bitsNeeded(a, w)
	if m := bitsNeeded(b, w); m < n {
		n = m
	}
	var parts []*Term
	for i := 0; i < n; i++ {
		x, y := c.bit(a, i), c.bit(b, i)
		parts = append(parts, c.MulK(pow2(i), c.Ite(c.Eq(x, c.one), y, c.zero)))
	}
	return c.Add(parts...)
}

func (c *Ctx) BitXor(a, b *Term, w int) *Term {
	and := c.BitAnd(a, b, w)
	return c.Sub(c.Add(a, b), c.MulK(big.NewInt(2), and))
}
