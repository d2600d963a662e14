package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type nativeJob struct {
	Harness string      `json:"harness"`
	Mode    string      `json:"mode"`
	Args    []*ModelVal `json:"args"`
	Seed    int64       `json:"seed"`
	Millis  int64       `json:"millis"`
}

type nativeOut struct {
	Harness  string            `json:"harness"`
	Mode     string            `json:"mode"`
	Outcome  string            `json:"outcome"`
	Tag      string            `json:"tag"`
	Detail   string            `json:"detail"`
	Args     []json.RawMessage `json:"args"`
	Runs     int               `json:"runs"`
	Kept     int               `json:"kept"`
	Distinct int               `json:"distinct"`
	Seed     int64             `json:"seed"`
}

// runNative runs harnesses natively inside the package under test (go test -overlay).
func (w *World) runNative(rel, contractsDir string, jobs []nativeJob, limit time.Duration) ([]nativeOut, string, error) {
	d, err := os.MkdirTemp("", "govc-native")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(d)
	rep := map[string]string{}
	put := func(name string, content []byte) error {
		f := filepath.Join(d, name)
		rep[filepath.Join(w.repo, rel, name)] = f
		return os.WriteFile(f, content, 0o644)
	}
	for p, b := range w.overlay {
		if err := put(filepath.Base(p), b); err != nil {
			return nil, "", err
		}
	}
	pk := w.pkg.Pkg.Name()
	native := func(file, as string) bool {
		b, err := os.ReadFile(filepath.Join(contractsDir, "native", file))
		if err != nil {
			return false
		}
		put(as, []byte(strings.Replace(string(b), "package PKG", "package "+pk, 1)))
		return true
	}
	native("runner.go.txt", "zz_vc_runner_test.go")
	if !native("wire_"+pk+".go.txt", "zz_vc_wire_test.go") {
		native("wire_default.go.txt", "zz_vc_wire_test.go")
	}
	// registry
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nvar zzHarness = map[string]interface{}{\n", pk)
	var names []string
	for _, j := range jobs {
		names = append(names, j.Harness)
	}
	sort.Strings(names)
	var uniq []string
	for i, n := range names {
		if i == 0 || names[i-1] != n {
			uniq = append(uniq, n)
			fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
		}
	}
	b.WriteString("}\n\nvar zzParams = map[string][]string{\n")
	for _, n := range uniq {
		f := w.pkg.Func(n)
		fmt.Fprintf(&b, "\t%q: {", n)
		for _, p := range f.Params {
			fmt.Fprintf(&b, "%q, ", p.Name())
		}
		b.WriteString("},\n")
	}
	b.WriteString("}\n")
	put("zz_vc_registry_test.go", []byte(b.String()))
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(d, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	mf, cleanup := modfileCopy(w.repo)
	defer cleanup()
	bin := filepath.Join(d, "harness.test")
	cmd := exec.Command("go", "test", "-c", "-o", bin, "-overlay", ovf, "-modfile="+mf, "-vet=off", "./"+rel)
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, string(out), fmt.Errorf("native build: %v %s", err, tail(string(out), 1500))
	}
	// one process per job (replays share one), at most 8 at a time
	var groups [][]int
	var rp []int
	for i, j := range jobs {
		if j.Mode == "replay" {
			rp = append(rp, i)
		} else {
			groups = append(groups, []int{i})
		}
	}
	if len(rp) > 0 {
		groups = append([][]int{rp}, groups...)
	}
	res := make([]nativeOut, len(jobs))
	for i := range res {
		res[i] = nativeOut{Harness: jobs[i].Harness, Mode: jobs[i].Mode, Outcome: "error"}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	sem := make(chan bool, 8)
	for gi, g := range groups {
		wg.Add(1)
		go func(gi int, g []int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			var js []nativeJob
			for _, i := range g {
				js = append(js, jobs[i])
			}
			jb, _ := json.Marshal(js)
			jf, of := filepath.Join(d, fmt.Sprintf("jobs%d.json", gi)), filepath.Join(d, fmt.Sprintf("out%d.json", gi))
			os.WriteFile(jf, jb, 0o644)
			c := exec.Command("timeout", "-k", "5", fmt.Sprint(int(limit.Seconds())+1), bin, "-test.run", "^TestZZGovc$", "-test.timeout", fmt.Sprintf("%ds", int(limit.Seconds())))
			c.Dir = d
			c.Env = append(goEnv(), "GOVC_JOBS="+jf, "GOVC_OUT="+of, "GOMEMLIMIT=2GiB")
			out, err := c.CombinedOutput()
			var r []nativeOut
			rb, e2 := os.ReadFile(of)
			if e2 == nil {
				e2 = json.Unmarshal(rb, &r)
			}
			mu.Lock()
			defer mu.Unlock()
			if e2 != nil || len(r) != len(g) {
				if firstErr == nil {
					firstErr = fmt.Errorf("native run: %v %s", err, tail(string(out), 1500))
				}
				return
			}
			for k, i := range g {
				res[i] = r[k]
			}
		}(gi, g)
	}
	wg.Wait()
	return res, "", firstErr
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func paramText(f *ssa.Function) string {
	var o []string
	for _, p := range f.Params {
		o = append(o, p.Name()+" "+types.TypeString(p.Type(), nil))
	}
	return strings.Join(o, ", ")
}
