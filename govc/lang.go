package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

// Regular languages over byte sequences. A language is a deterministic automaton
// over decoded runes, with one extra symbol for an ill-formed byte (which regexp
// treats as U+FFFD and utf8.Valid rejects). The state an automaton reaches over a
// sequence p from state q is the uninterpreted term run<d>.<q>(p), constrained by
// exactly the state vectors that some byte sequence can realise jointly in all the
// automata used on p.

const symBad = rune(-1)

type dfa struct {
	id     int
	name   string
	kind   int // 0 regexp, 1 utf8, 2 contains byte
	b      byte
	auto   *reAuto
	list   []reState
	ids    map[string]int
	memo   map[[2]int64]int
	bound  []rune
	closed int // number of states, once explored
}

var (
	langMu   sync.Mutex
	langTab  = map[string]*dfa{}
	langByID []*dfa
)

func langGet(kind int, arg string) *dfa {
	k := fmt.Sprintf("%d:%s", kind, arg)
	if d, ok := langTab[k]; ok {
		return d
	}
	d := &dfa{id: len(langByID), name: k, kind: kind, ids: map[string]int{}, memo: map[[2]int64]int{}}
	bd := map[rune]bool{0: true, 0x80: true, 0xFFFD: true, 0xFFFE: true}
	switch kind {
	case 0:
		a, err := compileRe(arg)
		if err != nil {
			panic(unsupportedErr{"regular expression: " + err.Error()})
		}
		d.auto = a
		a.bounds(bd)
		d.state(mkState(nil, true, false))
	case 2:
		d.b = arg[0]
		bd[rune(d.b)] = true
		bd[rune(d.b)+1] = true
	}
	for r := range bd {
		if r >= 0 && r <= unicode.MaxRune {
			d.bound = append(d.bound, r)
		}
	}
	langTab[k] = d
	langByID = append(langByID, d)
	// explore
	if kind == 0 {
		reps := langReps([]*dfa{d})
		for q := 0; q < len(d.list); q++ {
			for _, r := range reps {
				d.step(q, r)
			}
			if len(d.list) > 400 {
				panic(unsupportedErr{"automaton too large for " + arg})
			}
		}
		d.closed = len(d.list)
	} else {
		d.closed = 2
	}
	return d
}

func (d *dfa) state(s reState) int {
	if i, ok := d.ids[s.key]; ok {
		return i
	}
	d.ids[s.key] = len(d.list)
	d.list = append(d.list, s)
	return len(d.list) - 1
}

func (d *dfa) step(q int, r rune) int {
	switch d.kind {
	case 1:
		if q == 1 || r == symBad {
			return 1
		}
		return 0
	case 2:
		if q == 1 || r == rune(d.b) {
			return 1
		}
		return 0
	}
	if r == symBad {
		r = utf8.RuneError
	}
	k := [2]int64{int64(q), int64(r)}
	if n, ok := d.memo[k]; ok {
		return n
	}
	n := d.state(d.auto.step(d.list[q], r))
	d.memo[k] = n
	return n
}

func (d *dfa) accept(q int) bool {
	switch d.kind {
	case 1:
		return q == 0
	case 2:
		return q == 1
	}
	return d.auto.accepts(d.list[q])
}

// runText runs the automaton over concrete bytes.
func (d *dfa) runText(q int, s string) int {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 {
			r = symBad
		}
		q = d.step(q, r)
		i += w
	}
	return q
}

// langReps has one representative per class of symbols the automata can tell apart.
func langReps(ds []*dfa) []rune {
	m := map[rune]bool{}
	for _, d := range ds {
		for _, r := range d.bound {
			m[r] = true
		}
	}
	out := []rune{symBad}
	for r := range m {
		if r >= 0xD800 && r <= 0xDFFF {
			r = 0xE000
		}
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

type runReq struct {
	d *dfa
	q int
	t *Term
}

// jointVectors: state vectors reachable by non-empty sequences.
func jointVectors(rs []runReq, limit int) ([][]int, bool) {
	var ds []*dfa
	start := make([]int, len(rs))
	for i, r := range rs {
		ds = append(ds, r.d)
		start[i] = r.q
	}
	reps := langReps(ds)
	seen := map[string]bool{}
	var out [][]int
	queue := [][]int{start}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		for _, r := range reps {
			n := make([]int, len(v))
			for i := range v {
				n[i] = ds[i].step(v[i], r)
			}
			k := fmt.Sprint(n)
			if !seen[k] {
				seen[k] = true
				out = append(out, n)
				queue = append(queue, n)
				if len(out) > limit {
					return nil, false
				}
			}
		}
	}
	return out, true
}

// runTerm is the state d reaches over the sequence p (of length n) from state q.
func (ex *Exec) runTerm(d *dfa, q int, p, n *Term) *Term {
	c := ex.c
	name := fmt.Sprintf("run%d.%d", d.id, q)
	t := c.App(name, SInt, p)
	if ex.predSeen[t] {
		return t
	}
	ex.predSeen[t] = true
	c.setRange(t, c.zero.k, big.NewInt(int64(d.closed-1)))
	if ex.runReqs == nil {
		ex.runReqs = map[*Term][]runReq{}
	}
	prev := ex.runReqs[p]
	reqs := append(append([]runReq{}, prev...), runReq{d, q, t})
	ex.runReqs[p] = reqs
	t.ax = append(t.ax, c.Implies(c.Eq(n, c.zero), c.Eq(t, c.Int(int64(q)))))
	nonEmpty := c.Le(c.one, n)
	add := func(rs []runReq) bool {
		vs, ok := jointVectors(rs, 300)
		if !ok {
			return false
		}
		var alts []*Term
		for _, v := range vs {
			var cj []*Term
			for i, r := range rs {
				cj = append(cj, c.Eq(r.t, c.Int(int64(v[i]))))
			}
			alts = append(alts, c.And(cj...))
		}
		t.ax = append(t.ax, c.Implies(nonEmpty, c.Or(alts...)))
		return true
	}
	if !add(reqs) {
		for _, r := range prev {
			add([]runReq{r, reqs[len(reqs)-1]})
		}
	}
	return t
}

type langPiece struct {
	lit  string
	rope *Rope
}

// pieces groups a rope so that opaque parts are separated by text starting and ending in ASCII.
func (ex *Exec) pieces(r *Rope) []langPiece {
	var ps []langPiece
	for _, s := range r.segs {
		lit, isLit := "", false
		if s.lit != "" {
			lit, isLit = s.lit, true
		} else if s.zero != nil && s.n.isConst() && s.n.k.Int64() < 1000 {
			lit, isLit = strings.Repeat("\x00", int(s.n.k.Int64())), true
		}
		if isLit && lit[0] < 0x80 && lit[len(lit)-1] < 0x80 {
			if k := len(ps); k > 0 && ps[k-1].rope == nil {
				ps[k-1].lit += lit
			} else {
				ps = append(ps, langPiece{lit: lit})
			}
			continue
		}
		if k := len(ps); k > 0 && ps[k-1].rope != nil {
			ps[k-1].rope = &Rope{segs: append(append([]Seg{}, ps[k-1].rope.segs...), s)}
		} else {
			ps = append(ps, langPiece{rope: &Rope{segs: []Seg{s}}})
		}
	}
	return ps
}

// langMatch is the condition that rope r is in the language of d.
func (ex *Exec) langMatch(d *dfa, r *Rope) *Term {
	c := ex.c
	r = ex.canon(r)
	langMu.Lock()
	defer langMu.Unlock()
	if s, ok := concreteString(r); ok {
		return c.Bool(d.accept(d.runText(0, s)))
	}
	cur := c.zero // state term
	ps := ex.pieces(r)
	for _, p := range ps {
		if !cur.isConst() { // the next piece starts in one of several states: split
			fixed := false
			for q := 0; q < d.closed; q++ {
				k := c.Int(int64(q))
				if q == d.closed-1 || ex.decideUnlocked(c.Eq(cur, k)) {
					cur, fixed = k, true
					break
				}
			}
			if !fixed {
				ex.unsupported("automaton state")
			}
		}
		q := int(cur.k.Int64())
		if p.rope == nil {
			cur = c.Int(int64(d.runText(q, p.lit)))
			continue
		}
		n := ex.ropeLen(p.rope)
		t := ex.seqTerm(p.rope)
		cur = ex.runTerm(d, q, t, n)
	}
	var alts []*Term
	for q := 0; q < d.closed; q++ {
		if d.accept(q) {
			alts = append(alts, c.Eq(cur, c.Int(int64(q))))
		}
	}
	if len(alts) == d.closed {
		return c.True
	}
	return c.Or(alts...)
}

// decideUnlocked releases the automata lock while the path may fork.
func (ex *Exec) decideUnlocked(t *Term) bool {
	langMu.Unlock()
	defer langMu.Lock()
	return ex.decide(t)
}

func (ex *Exec) reMatch(pat string, r *Rope) *Term {
	id := ex.w.reClass(pat)
	reMu.Lock()
	rep := rePats[id]
	reMu.Unlock()
	langMu.Lock()
	d := langGet(0, rep)
	langMu.Unlock()
	return ex.langMatch(d, r)
}

func (ex *Exec) utf8Match(r *Rope) *Term {
	langMu.Lock()
	d := langGet(1, "")
	langMu.Unlock()
	return ex.langMatch(d, r)
}

func (ex *Exec) hasByte(b byte, r *Rope) *Term {
	langMu.Lock()
	d := langGet(2, string(rune(b)))
	langMu.Unlock()
	return ex.langMatch(d, r)
}

// langWitness finds a text of n bytes realising the wanted states and known bytes.
func langWitness(rs []runReq, want []int, n int64, known func(int64) (byte, bool)) (string, bool) {
	langMu.Lock()
	defer langMu.Unlock()
	var ds []*dfa
	start := make([]int, len(rs))
	for i, r := range rs {
		ds = append(ds, r.d)
		start[i] = r.q
	}
	pad := int64(0)
	if n > 48 {
		pad = n - 48
	}
	reps := langReps(ds)
	reps = append(reps, 'a', '/', 'b')
	type node struct {
		v    []int
		text string
	}
	cur := map[string]node{fmt.Sprint(start): {start, ""}}
	// long texts: loop on one letter first
	if pad > 0 {
		v := start
		for i := int64(0); i < pad && i < 2000; i++ {
			nv := make([]int, len(v))
			for j := range v {
				nv[j] = ds[j].step(v[j], 'a')
			}
			v = nv
		}
		cur = map[string]node{fmt.Sprint(v): {v, strings.Repeat("a", int(pad))}}
	}
	layers := map[int64]map[string]node{pad: cur}
	for l := pad; l < n; l++ {
		for _, nd := range layers[l] {
			for _, r := range reps {
				s := string([]byte{0xFF})
				if r != symBad {
					s = string(r)
				}
				w := int64(len(s))
				if l+w > n {
					continue
				}
				ok := true
				for i := int64(0); i < w; i++ {
					if kb, has := known(l + i); has && kb != s[i] {
						ok = false
					}
				}
				if !ok {
					continue
				}
				nv := make([]int, len(nd.v))
				for j := range nd.v {
					nv[j] = ds[j].step(nd.v[j], r)
				}
				k := fmt.Sprint(nv)
				if layers[l+w] == nil {
					layers[l+w] = map[string]node{}
				}
				if _, seen := layers[l+w][k]; !seen {
					layers[l+w][k] = node{nv, nd.text + s}
				}
			}
			// a known byte outside the representatives
			if kb, has := known(l); has && kb < 0x80 {
				nv := make([]int, len(nd.v))
				for j := range nd.v {
					nv[j] = ds[j].step(nd.v[j], rune(kb))
				}
				k := fmt.Sprint(nv)
				if layers[l+1] == nil {
					layers[l+1] = map[string]node{}
				}
				if _, seen := layers[l+1][k]; !seen {
					layers[l+1][k] = node{nv, nd.text + string(rune(kb))}
				}
			}
		}
	}
	nd, ok := layers[n][fmt.Sprint(want)]
	return nd.text, ok
}
