package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var propPkg = map[string]string{"C21": "vlmonitoring", "C22": "vlmonitoring", "C23": "vltypes"}

type harnessJob struct {
	fn     *ssa.Function
	static *Result
}

// Violation as written to the replay file.
type violation struct {
	Property   string            `json:"property"`
	Harness    string            `json:"harness"`
	Obligation string            `json:"failed_obligation"`
	Kind       string            `json:"kind"`
	Where      string            `json:"where"`
	Call       []string          `json:"call_stack,omitempty"`
	Solver     string            `json:"solver_answer,omitempty"`
	Condition  string            `json:"condition,omitempty"`
	PathCond   []string          `json:"path_condition,omitempty"`
	Confirmed  bool              `json:"confirmed_on_real_code"`
	How        string            `json:"how,omitempty"`
	Observed   string            `json:"observed,omitempty"`
	Seed       int64             `json:"harness_seed,omitempty"`
	Args       []json.RawMessage `json:"failing_input,omitempty"`
	Model      []string          `json:"model,omitempty"`
	Replay     string            `json:"replay_cmd,omitempty"`
}

func cmdCheck(a []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	tier := fs.String("tier", "", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("dir", "/verif", "")
	if len(a) < 1 {
		return 2
	}
	prop := a[0]
	fs.Parse(a[1:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	var seed int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	return runCheck(prop, *tier, *repo, *dir, seed)
}

func runCheck(prop, tier, repo, dir string, seed int64) int {
	t0 := time.Now()
	rel := propPkg[prop]
	if rel == "" {
		rel = "mqttp"
	}
	cdir := filepath.Join(dir, "contracts")
	w, err := loadWorld(repo, cdir, rel, prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot load /repo/"+rel+":", err)
		return 2
	}
	loadT := time.Since(t0)
	hs := w.harnesses(prop)
	primary := 0
	for _, h := range hs {
		if !strings.HasPrefix(h.Name(), "Verify"+prop+"_Lemma") {
			primary++
		}
	}
	for _, d := range w.dropped {
		fmt.Println("NOT DECIDED: contract file", d, "does not fit the code")
	}
	if primary == 0 { // lemmas alone do not decide the property
		fmt.Fprintln(os.Stderr, "govc: no contract for", prop, "fits the code:", w.dropMsgs)
		return 2
	}
	opt := Options{Unroll: 3, Timeout: 400 * time.Second}
	if tier == "thorough" {
		opt.Unroll = 5
		opt.Timeout = 600 * time.Second
	}
	res := make([]*Result, len(hs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range hs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			o := opt
			if tier == "thorough" {
				res[i] = w.verify(hs[i], prop, o)
				if res[i].Unsupported == "" {
					return
				}
				o.Unroll = 3 // deeper unrolling ran out of budget
			}
			res[i] = w.verify(hs[i], prop, o)
		}(i)
	}
	wg.Wait()

	// classify
	type st struct {
		decided bool
		bounded bool
		reason  string
	}
	stat := make([]st, len(hs))
	var natJobs []nativeJob
	type back struct {
		h, o int // harness, obligation (-1: search)
	}
	var backs []back
	searchMs := int64(6000)
	if tier == "thorough" {
		searchMs = 20000
	}
	for i, r := range res {
		s := &stat[i]
		switch {
		case r.Unsupported != "":
			s.reason = r.Unsupported
		case len(r.Obls) == 0:
			s.reason = "no obligations generated"
		default:
			s.decided = true
			for _, t := range r.WantReach {
				if !r.Reach[t] && len(r.Failed) == 0 {
					s.decided = false
					s.reason = "vacuous: " + t + " never reached"
				}
			}
			s.bounded = len(r.Bounds) > 0
		}
		if len(r.Failed) > 0 {
			seen := map[string]int{}
			for k, o := range r.Failed {
				key := o.Tag + o.Where
				if o.Model != nil && seen[key] < 3 && len(backs) < 40 {
					seen[key]++
					natJobs = append(natJobs, nativeJob{Harness: r.Harness, Mode: "replay", Args: o.Model.Vals, Seed: seed})
					backs = append(backs, back{i, k})
				}
			}
		}
		if len(r.Failed) > 0 || !s.decided || tier == "thorough" {
			natJobs = append(natJobs, nativeJob{Harness: r.Harness, Mode: "search", Seed: seed, Millis: searchMs})
			backs = append(backs, back{i, -1})
		}
	}
	var outs []nativeOut
	natErr := ""
	if len(natJobs) > 0 {
		lim := time.Duration(searchMs)*time.Millisecond + 60*time.Second
		outs, _, err = w.runNative(rel, cdir, natJobs, lim)
		if err != nil { // a process that died is not an answer for its harness only
			natErr = err.Error()
			fmt.Fprintln(os.Stderr, "govc:", natErr)
		}
	}
	var vio []*violation
	confirmed := map[int]bool{}
	runs, kept, distinct := 0, 0, 0
	var samples []interface{}
	collect := func(outs []nativeOut) {
		for k, o := range outs {
			bk := backs[k]
			r := res[bk.h]
			if o.Mode == "search" {
				runs += o.Runs
				kept += o.Kept
				distinct += o.Distinct
				if len(samples) < 6 {
					samples = append(samples, map[string]interface{}{"harness": o.Harness, "args": o.Args, "outcome": o.Outcome})
				}
			}
			if o.Outcome != "fail" || confirmed[bk.h] {
				continue
			}
			confirmed[bk.h] = true
			v := &violation{Property: prop, Harness: r.Harness, Confirmed: true, Observed: o.Tag, Args: o.Args, Seed: o.Seed}
			v.How = "solver model replayed on the real code"
			ob := bk.o
			if ob < 0 {
				v.How = "concrete search with the same contract on the real code"
				for q, f := range r.Failed {
					if f.Tag == o.Tag || ob < 0 {
						ob = q
					}
					if f.Tag == o.Tag {
						break
					}
				}
			}
			if ob >= 0 {
				fillObl(v, r.Failed[ob])
			} else {
				v.Obligation = o.Tag
			}
			vio = append(vio, v)
		}
	}
	collect(outs)
	// A failure behind an abstracted loop may be the invariant's fault: unroll instead.
	natJobs, backs = nil, nil
	for i, r := range res {
		if len(r.Failed) == 0 || confirmed[i] || !r.Cut {
			continue
		}
		o := opt
		o.Unroll, o.NoCut = 3, true
		if left := 700*time.Second - time.Since(t0); o.Timeout > left {
			o.Timeout = left
		}
		r2 := w.verify(hs[i], prop, o)
		if len(r2.Failed) == 0 {
			why := "no loop invariant found: " + r.Failed[0].Tag + " not provable with those tried"
			if r2.Unsupported != "" {
				why += " (and " + r2.Unsupported + ")"
			}
			stat[i] = st{reason: why}
		} else {
			for k, f := range r2.Failed {
				if f.Model != nil && len(natJobs) < 40 {
					natJobs = append(natJobs, nativeJob{Harness: r.Harness, Mode: "replay", Args: f.Model.Vals, Seed: seed})
					backs = append(backs, back{i, k})
				}
			}
		}
		res[i] = r2
	}
	if len(natJobs) > 0 {
		outs, _, err = w.runNative(rel, cdir, natJobs, 60*time.Second)
		if err != nil {
			natErr = err.Error()
		}
		collect(outs)
	}
	for i, r := range res {
		if len(r.Failed) == 0 || confirmed[i] {
			continue
		}
		if r.OutOfTime && allUnknown(r.Failed) { // no answer from the verifier: the concrete search above stands in
			stat[i] = st{reason: "time budget exhausted before an answer to " + r.Failed[0].Tag}
			r.Failed = nil
			continue
		}
		v := &violation{Property: prop, Harness: r.Harness}
		fillObl(v, r.Failed[0])
		vio = append(vio, v)
	}

	known := loadKnown(filepath.Join(dir, "known_findings.json"))
	var report []*violation
	for _, v := range vio {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		report = append(report, v)
	}

	// evidence
	nob, dis := 0, 0
	perBack := map[string]int{}
	var solver time.Duration
	assum := map[string]bool{}
	funcs := map[string]bool{}
	var hev []map[string]interface{}
	boundedN, provedN := 0, 0
	var undecided []string
	for i, r := range res {
		ok := stat[i].decided && !stat[i].bounded
		okObl := 0
		for _, o := range r.Obls {
			if o.Res == Unsat {
				okObl++
			}
		}
		method := "deductive"
		switch {
		case !stat[i].decided:
			method = "not decided deductively on this tree: bounded concrete check of the same contract (not counted as proved)"
			undecided = append(undecided, r.Harness+": "+stat[i].reason)
		case stat[i].bounded:
			method = "bounded (loops cut, not counted as proved)"
			boundedN += len(r.Obls)
		}
		if ok {
			nob += len(r.Obls)
			dis += okObl
			provedN++
		}
		for k, n := range r.PerBack {
			perBack[k] += n
		}
		solver += r.SolverTime
		for _, t := range r.Trust {
			assum[t] = true
		}
		for _, f := range r.Inlined {
			if !strings.Contains(f, ".h") && !strings.Contains(f, ".v") {
				funcs[shortFn(f)] = true
			}
		}
		for _, f := range r.Used {
			assum["abstract contract used at call sites: "+f+" (proved against the body by its own harness)"] = true
		}
		e := map[string]interface{}{"harness": r.Harness, "quantified_over": paramText(hs[i]), "obligations": len(r.Obls), "discharged": okObl,
			"paths": r.Paths, "solver_queries": r.Queries, "solver_s": round2(r.SolverTime.Seconds()), "wall_s": round2(r.Wall.Seconds()), "method": method, "reached": sortedKeys(r.Reach)}
		if len(r.Bounds) > 0 {
			e["bounds"] = r.Bounds
		}
		if stat[i].reason != "" {
			e["reason"] = stat[i].reason
		}
		if len(r.CutLoops) > 0 {
			e["loops_proved_inductively"] = shortFns(r.CutLoops)
		}
		tags := map[string]int{}
		for _, o := range r.Obls {
			tags[o.Tag]++
		}
		e["obligation_tags"] = tags
		hev = append(hev, e)
	}
	level := "proof"
	cov := map[string]interface{}{
		"obligations": nob, "discharged": dis,
		"checker_cmd":                     fmt.Sprintf("bin/govc check %s --tier %s", prop, tier),
		"trusted_base":                    trustedBase(sortedKeys(assum)),
		"harnesses":                       hev,
		"queries_by_back_end":             perBack,
		"solver_s":                        round2(solver.Seconds()),
		"functions_executed_symbolically": sortedKeys(funcs),
		"harnesses_proved":                provedN, "harnesses_total": len(hs),
		"bounded_obligations": boundedN,
		"load_s":              round2(loadT.Seconds()),
	}
	if len(w.dropped) > 0 {
		cov["contract_files_not_fitting_the_code"] = w.dropMsgs
	}
	if len(undecided) > 0 {
		cov["undecided"] = undecided
	}
	if nob == 0 {
		level = "exploration"
		if len(samples) == 0 {
			samples = append(samples, map[string]interface{}{"bounded": "symbolic execution of every path up to the stated loop bounds"})
		}
	}
	if runs > 0 || nob == 0 {
		ev, di := runs, distinct
		if nob == 0 && runs == 0 {
			for _, r := range res {
				ev += r.Paths
			}
			di = ev
		}
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = di
		cov["rule"] = "concrete runs of the contract harness on seeded random and structured arguments; non-trivial: not skipped by an assumption and distinct arguments (bounded symbolic paths when no concrete run was needed)"
		cov["samples"] = samples
	}
	if natErr != "" {
		cov["native_error"] = natErr
	}
	evd := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions(sortedKeys(assum)), "wall_s": round2(time.Since(t0).Seconds()), "violations": len(report)}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(evd, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	for i, r := range res {
		m := "proved"
		if len(r.Failed) > 0 {
			m = fmt.Sprintf("%d FAILED", len(r.Failed))
		} else if !stat[i].decided {
			m = "undecided: " + stat[i].reason
		} else if stat[i].bounded {
			m = "bounded"
		}
		fmt.Printf("%-34s obligations %5d paths %5d solver %6.2fs wall %6.2fs  %s\n", r.Harness, len(r.Obls), r.Paths, r.SolverTime.Seconds(), r.Wall.Seconds(), m)
	}
	if runs > 0 {
		fmt.Printf("concrete runs: %d (%d kept, %d distinct)\n", runs, kept, distinct)
	}
	if len(report) > 0 {
		rd := filepath.Join(dir, "evidence", "replay")
		os.MkdirAll(rd, 0o755)
		for n, v := range report {
			f := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, n+1))
			v.Replay = "bin/govc replay " + f
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, append(b, '\n'), 0o644)
			suffix := ""
			if !v.Confirmed {
				suffix = " no-failing-input-found"
			}
			fmt.Printf("failed obligation %s at %s in %s: %s\n", v.Obligation, v.Where, v.Harness, v.Observed)
			fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, f, suffix)
			if n >= 9 {
				break
			}
		}
		return 1
	}
	return 0
}

func fillObl(v *violation, o *Obl) {
	v.Obligation, v.Kind, v.Where, v.Call = o.Tag, o.Kind, o.Where, o.Path
	v.Solver = o.Res.String()
	if o.Cond != nil {
		v.Condition = clip(o.Cond.String(), 2000)
	}
	for i, p := range o.PC {
		if i > 200 {
			break
		}
		v.PathCond = append(v.PathCond, clip(p.String(), 400))
	}
	if o.Model != nil {
		for _, m := range o.Model.Vals {
			v.Model = append(v.Model, m.text())
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func shortFn(f string) string { return strings.ReplaceAll(f, modPath+"/", "") }

func shortFns(l []string) []string {
	var o []string
	for _, f := range l {
		o = append(o, shortFn(f))
	}
	return o
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func trustedBase(extra []string) []string {
	t := []string{
		"/verif/govc: the symbolic executor and verification condition generator over go/ssa (golang.org/x/tools v0.52.0) and the Go front end that produced the SSA",
		"z3 4.8.12 (also z3-new and cvc5 where z3 gives no answer): unsat answers are not re-checked",
		"contracts in /verif/contracts state the property faithfully",
		"memory model: objects of distinct allocations do not overlap, slices made by append get a fresh backing array unless capacity is known, stack and heap are unlimited",
	}
	return append(t, extra...)
}

func assumptions(extra []string) []string {
	t := []string{
		"machine integers are modelled exactly (wrap-around included); no arithmetic is treated as mathematical",
		"64-bit platform: int is 64 bits wide, buffers are shorter than 2^62 bytes",
		"no concurrent mutation of a packet or buffer by other goroutines (except C22)",
	}
	return append(t, extra...)
}

// ---- known findings ----

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Harness  string `json:"harness"`
		Tag      string `json:"obligation"`
		Input    string `json:"input"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func loadKnown(f string) *knownFile {
	k := &knownFile{}
	if b, err := os.ReadFile(f); err == nil {
		json.Unmarshal(b, k)
	}
	return k
}

func (k *knownFile) match(v *violation) string {
	for _, f := range k.Findings {
		if f.Property == v.Property && f.Harness == v.Harness && f.Tag == v.Obligation && (f.Input == "" || f.Input == argText(v)) {
			return f.What
		}
	}
	return ""
}

func argText(v *violation) string {
	var o []string
	for _, a := range v.Args {
		var m ModelVal
		json.Unmarshal(a, &m)
		o = append(o, m.Name+"="+m.Go)
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

// cmdReplay re-runs a recorded counterexample against the real code.
func cmdReplay(a []string) int {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	if !v.Confirmed {
		fmt.Println("no failing input is recorded; failed obligation:", v.Obligation, "at", v.Where)
		return 1
	}
	rel := propPkg[v.Property]
	if rel == "" {
		rel = "mqttp"
	}
	w, err := loadWorld("/repo", "/verif/contracts", rel, v.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var args []*ModelVal
	for _, x := range v.Args {
		m := &ModelVal{}
		json.Unmarshal(x, m)
		args = append(args, m)
	}
	outs, log, err := w.runNative(rel, "/verif/contracts", []nativeJob{{Harness: v.Harness, Mode: "replay", Args: args, Seed: v.Seed}}, time.Minute)
	if err != nil {
		fmt.Println(err, log)
		return 2
	}
	fmt.Printf("%s: %s %s\n", v.Harness, outs[0].Outcome, outs[0].Tag)
	if outs[0].Outcome == "fail" {
		return 1
	}
	return 0
}

func allUnknown(l []*Obl) bool {
	for _, o := range l {
		if o.Res != Unknown {
			return false
		}
	}
	return true
}
