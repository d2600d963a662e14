package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one incremental SMT process and mirrors a path-condition stack.
type Solver struct {
	c        *Ctx
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term // asserted terms, one level each
	emitted  map[*Term]int
	declared map[string]int
	trailT   []*Term // emission order, for undoing
	trailD   []string
	marks    [][2]int
	level    int
	queries  int
	time     time.Duration
	timeout  int
	cache    map[string]Res
	hard     map[string]Res
	quickTO  int
	curTO    int
	perBack  map[string]int
	dead     bool
	prof     func()
	log      io.Writer
}

func newSolver(c *Ctx) *Solver {
	s := &Solver{c: c, bin: "z3-new", timeout: 10000, quickTO: 700, cache: map[string]Res{}, hard: map[string]Res{}, perBack: map[string]int{}}
	if b := os.Getenv("GOVC_Z3"); b != "" {
		s.bin = b
	}
	s.start()
	return s
}

func z3Args() []string {
	if a, ok := os.LookupEnv("GOVC_Z3ARGS"); ok {
		return strings.Fields(a)
	}
	return []string{"smt.arith.solver=2"}
}

func (s *Solver) start() {
	s.emitted = map[*Term]int{}
	s.declared = map[string]int{}
	s.level = 0
	s.curTO = s.timeout
	s.stack, s.trailT, s.trailD, s.marks = nil, nil, nil, nil
	s.cmd = exec.Command(s.bin, append([]string{"-in", "-smt2"}, z3Args()...)...)
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	var ww io.Writer = w
	if f := os.Getenv("GOVC_SMTLOG"); f != "" {
		fh, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		ww = io.MultiWriter(w, fh)
	}
	s.in = bufio.NewWriterSize(ww, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeout)
	for _, n := range []string{"Seq", "Ifc", "Lst", "Ref"} {
		fmt.Fprintf(s.in, "(declare-sort %s 0)\n", vsort(n))
	}
}

func vsort(n string) string {
	if n == "Int" || n == "Bool" {
		return n
	}
	return "V" + n
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func q(n string) string { return "|" + n + "|" }

func (s *Solver) push() {
	s.level++
	s.marks = append(s.marks, [2]int{len(s.trailT), len(s.trailD)})
	s.in.WriteString("(push 1)\n")
}

func (s *Solver) pop(n int) {
	if n <= 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	s.level -= n
	m := s.marks[len(s.marks)-n]
	s.marks = s.marks[:len(s.marks)-n]
	for _, t := range s.trailT[m[0]:] {
		delete(s.emitted, t)
	}
	for _, d := range s.trailD[m[1]:] {
		delete(s.declared, d)
	}
	s.trailT, s.trailD = s.trailT[:m[0]], s.trailD[:m[1]]
}

func numeral(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

type emitter struct {
	declare func(name string, d declInfo)
	define  func(t *Term, body string)
	isDone  func(t *Term) bool
	done    func(t *Term)
	assert  func(string)
	c       *Ctx
}

// emit makes sure t is available and returns its reference text.
func (e *emitter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return numeral(t.k)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	}
	if !e.isDone(t) {
		for _, a := range t.args {
			e.ref(a)
		}
	}
	if !e.isDone(t) { // the axioms of an argument may mention t
		e.done(t)
		switch t.op {
		case OVar:
			e.declare(t.name, e.c.decls[t.name])
		case OApp:
			e.declare(t.name, e.c.decls[t.name])
		default:
			e.define(t, e.body(t))
		}
		for _, a := range t.ax {
			e.assert(e.ref(a))
		}
	}
	switch t.op {
	case OVar:
		return q(t.name)
	case OApp:
		return e.app(t)
	}
	return "!" + strconv.Itoa(t.id)
}

func (e *emitter) app(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(q(t.name))
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(e.ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (e *emitter) body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OLin:
		sb.WriteString("(+")
		for i, a := range t.args {
			sb.WriteByte(' ')
			if t.cs[i].Cmp(bigOne) == 0 {
				sb.WriteString(e.ref(a))
			} else {
				sb.WriteString("(* " + numeral(t.cs[i]) + " " + e.ref(a) + ")")
			}
		}
		if t.k.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + numeral(t.k))
		}
		sb.WriteByte(')')
	case ODiv:
		sb.WriteString("(div " + e.ref(t.args[0]) + " " + numeral(t.k) + ")")
	case OMod:
		sb.WriteString("(mod " + e.ref(t.args[0]) + " " + numeral(t.k) + ")")
	case OIte:
		sb.WriteString("(ite " + e.ref(t.args[0]) + " " + e.ref(t.args[1]) + " " + e.ref(t.args[2]) + ")")
	case OEq:
		sb.WriteString("(= " + e.ref(t.args[0]) + " " + e.ref(t.args[1]) + ")")
	case OLe:
		sb.WriteString("(<= " + e.ref(t.args[0]) + " 0)")
	case ONot:
		sb.WriteString("(not " + e.ref(t.args[0]) + ")")
	case OAnd, OOr:
		if t.op == OAnd {
			sb.WriteString("(and")
		} else {
			sb.WriteString("(or")
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(e.ref(a))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func (e *emitter) declText(name string, d declInfo) string {
	var sb strings.Builder
	sb.WriteString("(declare-fun " + q(name) + " (")
	for i, a := range d.args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(vsort(a.String()))
	}
	sb.WriteString(") " + vsort(d.res.String()) + ")\n")
	return sb.String()
}

func (s *Solver) emitter() *emitter {
	e := &emitter{c: s.c}
	e.isDone = func(t *Term) bool { _, ok := s.emitted[t]; return ok }
	e.done = func(t *Term) {
		s.emitted[t] = s.level
		s.trailT = append(s.trailT, t)
	}
	e.declare = func(name string, d declInfo) {
		if _, ok := s.declared[name]; ok {
			return
		}
		s.declared[name] = s.level
		s.trailD = append(s.trailD, name)
		s.in.WriteString(e.declText(name, d))
	}
	e.define = func(t *Term, body string) {
		fmt.Fprintf(s.in, "(define-fun !%d () %s %s)\n", t.id, vsort(t.sort.String()), body)
	}
	e.assert = func(x string) { s.in.WriteString("(assert " + x + ")\n") }
	return e
}

func (s *Solver) assertTop(t *Term) {
	s.push()
	e := s.emitter()
	r := e.ref(t)
	e.assert(r)
	s.stack = append(s.stack, t)
}

// sync brings the solver stack to exactly pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		s.pop(len(s.stack) - n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.assertTop(t)
	}
}

func key(pc []*Term, extra *Term) string {
	var sb strings.Builder
	for _, t := range pc {
		sb.WriteString(strconv.Itoa(t.id))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(extra.id))
	return sb.String()
}

// Check satisfiability of pc and extra, with every back end if needed.
func (s *Solver) Check(pc []*Term, extra *Term) Res {
	if extra.op == OFalse {
		return Unsat
	}
	k := key(pc, extra)
	if r, ok := s.cache[k]; ok && r != Unknown {
		return r
	}
	if r, ok := s.hard[k]; ok {
		return r
	}
	s.limit(s.timeout)
	r := s.check1(pc, extra)
	if r == Unknown {
		r = s.fallback(pc, extra)
		s.hard[k] = r
	} else {
		s.perBack[s.bin]++
	}
	s.cache[k] = r
	return r
}

// Quick is Check with a small budget: used for branch feasibility and
// simplification, where Unknown is harmless.
func (s *Solver) Quick(pc []*Term, extra *Term) Res {
	if extra.op == OFalse {
		return Unsat
	}
	k := key(pc, extra)
	if r, ok := s.cache[k]; ok {
		return r
	}
	s.limit(s.quickTO)
	r := s.check1(pc, extra)
	if r != Unknown {
		s.perBack[s.bin]++
	}
	s.cache[k] = r
	return r
}

func (s *Solver) limit(ms int) {
	if s.curTO != ms {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
		s.curTO = ms
	}
}

func (s *Solver) check1(pc []*Term, extra *Term) Res {
	t0 := time.Now()
	if s.prof != nil {
		s.prof()
	}
	s.sync(pc)
	s.push()
	e := s.emitter()
	r := e.ref(extra)
	e.assert(r)
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	s.pop(1)
	s.queries++
	s.time += time.Since(t0)
	if d := time.Since(t0); d > 2*time.Second && os.Getenv("GOVC_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v %s: %s\n", d, line, extra)
	}
	switch line {
	case "sat":
		return Sat
	case "unsat":
		return Unsat
	case "unknown", "timeout":
		return Unknown
	}
	panic("solver said: " + line)
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Script renders a standalone query.
func (s *Solver) Script(pc []*Term, extra *Term) string {
	var b bytes.Buffer
	b.WriteString("(set-logic ALL)\n")
	for _, n := range []string{"Seq", "Ifc", "Lst", "Ref"} {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", vsort(n))
	}
	e := &emitter{c: s.c}
	done := map[*Term]bool{}
	decl := map[string]bool{}
	e.isDone = func(t *Term) bool { return done[t] }
	e.done = func(t *Term) { done[t] = true }
	e.declare = func(name string, d declInfo) {
		if !decl[name] {
			decl[name] = true
			b.WriteString(e.declText(name, d))
		}
	}
	e.define = func(t *Term, body string) {
		fmt.Fprintf(&b, "(define-fun !%d () %s %s)\n", t.id, vsort(t.sort.String()), body)
	}
	e.assert = func(x string) { b.WriteString("(assert " + x + ")\n") }
	for _, t := range append(append([]*Term{}, pc...), extra) {
		e.assert(e.ref(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var fallbackBackends = [][]string{
	{"z3", "-T:20", "-in", "-smt2"},
	{"cvc5", "--tlimit=20000", "--lang=smt2"},
}

func (s *Solver) fallback(pc []*Term, extra *Term) Res {
	script := s.Script(pc, extra)
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	for _, b := range fallbackBackends {
		ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
		cmd := exec.CommandContext(ctx, b[0], b[1:]...)
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		cancel()
		s.queries++
		l := strings.TrimSpace(string(out))
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		if l == "sat" {
			s.perBack[b[0]]++
			return Sat
		}
		if l == "unsat" {
			s.perBack[b[0]]++
			return Unsat
		}
	}
	s.perBack["unknown"]++
	return Unknown
}

// Model evaluates terms in a model of pc and extra; soft constraints are added greedily.
func (s *Solver) Model(pc []*Term, extra *Term, soft []*Term, ask func(eval func(ts ...*Term) []*big.Int)) bool {
	s.sync(pc)
	s.push()
	base := s.level
	defer func() { s.pop(s.level - base + 1) }()
	e := s.emitter()
	e.assert(e.ref(extra))
	if s.askSat() != "sat" {
		return false
	}
	for _, t := range soft {
		s.push()
		e.assert(e.ref(t))
		if s.askSat() != "sat" {
			s.pop(1)
		}
	}
	if s.askSat() != "sat" {
		return false
	}
	ask(func(ts ...*Term) []*big.Int {
		// all terms must be known before get-value; unknown ones get declared, which invalidates the model
		need := false
		for _, t := range ts {
			if !e.known(t) {
				need = true
			}
		}
		var refs []string
		for _, t := range ts {
			refs = append(refs, e.ref(t))
		}
		if need {
			if s.askSat() != "sat" {
				return nil
			}
		}
		res := make([]*big.Int, len(ts))
		for i, r := range refs {
			if ts[i].op == OTrue {
				res[i] = bigOne
				continue
			}
			if ts[i].op == OFalse {
				res[i] = new(big.Int)
				continue
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n", r)
			s.in.Flush()
			res[i] = parseValue(s.readSexp())
		}
		// pin the values so that later re-checks keep them
		for i, r := range refs {
			if res[i] == nil || ts[i].isConst() || ts[i].op == OTrue || ts[i].op == OFalse {
				continue
			}
			if ts[i].sort == SInt {
				e.assert("(= " + r + " " + numeral(res[i]) + ")")
			} else if ts[i].sort == SBool {
				if res[i].Sign() != 0 {
					e.assert(r)
				} else {
					e.assert("(not " + r + ")")
				}
			}
		}
		s.askSat()
		return res
	})
	return true
}

func (e *emitter) known(t *Term) bool {
	switch t.op {
	case OConst, OTrue, OFalse:
		return true
	}
	return e.isDone(t)
}

func (s *Solver) askSat() string {
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	return s.readLine()
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func parseValue(x string) *big.Int {
	x = strings.TrimSpace(x)
	x = strings.TrimSuffix(x, "))")
	// ((ref value))
	if i := strings.LastIndex(x, "(-"); i >= 0 && !strings.HasSuffix(x, ")") {
		n := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(x[i+2:]), ")"))
		b, ok := new(big.Int).SetString(n, 10)
		if ok {
			return b.Neg(b)
		}
	}
	i := strings.LastIndexAny(x, " \n\t")
	if i < 0 {
		return nil
	}
	v := strings.Trim(x[i+1:], "() ")
	switch v {
	case "true":
		return big.NewInt(1)
	case "false":
		return big.NewInt(0)
	}
	b, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return nil
	}
	if strings.Contains(x, "(- "+v) {
		b.Neg(b)
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
