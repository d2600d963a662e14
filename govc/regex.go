package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"sync"
	"unicode"
)

// Regular expressions are compared as languages: two patterns get the same
// predicate symbol exactly when they match the same strings.

var (
	reMu   sync.Mutex
	rePats []string // representative of each class
	reIDs  = map[string]int{}
	reWits []string
)

func (w *World) reClass(pat string) int {
	reMu.Lock()
	defer reMu.Unlock()
	if id, ok := reIDs[pat]; ok {
		return id
	}
	for i, p := range rePats {
		eq, wit, err := reEquiv(p, pat)
		if err != nil {
			continue
		}
		if eq {
			reIDs[pat] = i
			return i
		}
		if len(wit) < 64 {
			reWits = append(reWits, wit)
		}
	}
	rePats = append(rePats, pat)
	reIDs[pat] = len(rePats) - 1
	return len(rePats) - 1
}

func (w *World) reWitness() []string {
	reMu.Lock()
	defer reMu.Unlock()
	return append([]string(nil), reWits...)
}

type reAuto struct {
	prog *syntax.Prog
}

type reState struct {
	key     string
	set     []uint32 // pending pcs, before closure
	begin   bool
	matched bool
}

func compileRe(p string) (*reAuto, error) {
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	pr, err := syntax.Compile(r.Simplify())
	if err != nil {
		return nil, err
	}
	for _, in := range pr.Inst {
		if in.Op == syntax.InstEmptyWidth {
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				return nil, fmt.Errorf("unsupported assertion in %q", p)
			}
		}
	}
	return &reAuto{pr}, nil
}

// closure follows empty transitions; it reports the rune instructions and whether a match is reached.
func (a *reAuto) closure(set []uint32, begin, end bool) (runes []uint32, match bool) {
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && !begin {
				return
			}
			if e&syntax.EmptyEndText != 0 && !end {
				return
			}
			walk(in.Out)
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			runes = append(runes, pc)
		}
	}
	for _, p := range set {
		walk(p)
	}
	walk(uint32(a.prog.Start)) // unanchored search
	return
}

func mkState(set []uint32, begin, matched bool) reState {
	if matched {
		return reState{key: "M", matched: true}
	}
	sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
	var u []uint32
	for i, p := range set {
		if i == 0 || p != set[i-1] {
			u = append(u, p)
		}
	}
	return reState{key: fmt.Sprint(begin, u), set: u, begin: begin}
}

func (a *reAuto) step(s reState, r rune) reState {
	if s.matched {
		return s
	}
	runes, m := a.closure(s.set, s.begin, false)
	if m {
		return mkState(nil, false, true)
	}
	var nx []uint32
	for _, pc := range runes {
		if a.prog.Inst[pc].MatchRune(r) {
			nx = append(nx, a.prog.Inst[pc].Out)
		}
	}
	return mkState(nx, false, false)
}

func (a *reAuto) accepts(s reState) bool {
	if s.matched {
		return true
	}
	_, m := a.closure(s.set, s.begin, true)
	return m
}

func (a *reAuto) bounds(b map[rune]bool) {
	add := func(lo, hi rune) {
		b[lo] = true
		b[hi+1] = true
	}
	for _, in := range a.prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			rs := in.Rune
			if len(rs) == 1 {
				add(rs[0], rs[0])
				for f := unicode.SimpleFold(rs[0]); f != rs[0]; f = unicode.SimpleFold(f) {
					add(f, f)
				}
				continue
			}
			for i := 0; i+1 < len(rs); i += 2 {
				add(rs[i], rs[i+1])
			}
		case syntax.InstRuneAnyNotNL:
			add('\n', '\n')
		}
	}
}

// reEquiv decides language equality; wit is a string on which the patterns differ.
func reEquiv(p, q string) (eq bool, wit string, err error) {
	a, err := compileRe(p)
	if err != nil {
		return false, "", err
	}
	b, err := compileRe(q)
	if err != nil {
		return false, "", err
	}
	bd := map[rune]bool{0: true, 'a': true, 'b': true, 0xE000: true, 0xFFFD: true}
	a.bounds(bd)
	b.bounds(bd)
	var reps []rune
	for r := range bd {
		if r >= 0 && r <= unicode.MaxRune {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	// surrogates cannot occur in decoded text; represent their class by U+FFFD when needed
	type pair struct {
		x, y reState
		str  string
	}
	start := pair{mkState(nil, true, false), mkState(nil, true, false), ""}
	seen := map[string]bool{start.x.key + "|" + start.y.key: true}
	queue := []pair{start}
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if a.accepts(c.x) != b.accepts(c.y) {
			return false, c.str, nil
		}
		for _, r := range reps {
			if r >= 0xD800 && r <= 0xDFFF {
				continue
			}
			n := pair{a.step(c.x, r), b.step(c.y, r), c.str + string(r)}
			k := n.x.key + "|" + n.y.key
			if !seen[k] {
				seen[k] = true
				queue = append(queue, n)
				if len(seen) > 20000 {
					return false, "", fmt.Errorf("too many states")
				}
			}
		}
	}
	return true, "", nil
}
