package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	repo       string
	prog       *ssa.Program
	pkg        *ssa.Package
	pkgPath    string
	runtimeErr types.Type
	contracts  map[string]*ssa.Function // target function string -> contract
	overlay    map[string][]byte
	dropped    []string // contract files that no longer type-check
	dropMsgs   []string
	loopHd     map[*ssa.BasicBlock]bool
	loopKnown  map[*ssa.Function]bool
	pure       map[*ssa.Function]int
	ipdoms     map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	mergeBad   map[*ssa.Function]bool
	mergeIfBad map[*ssa.BasicBlock]int
	globalsBad map[string]bool
	renamed    map[string]string // "Type.new" -> old name, for declarations the contracts follow by their old names
}

const modPath = "github.com/VolantMQ/vlapi"

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "HOME", "GOPATH", "GOMODCACHE", "GOCACHE", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	cache := os.Getenv("GOVC_GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOWORK=off")
}

// modfileCopy copies go.mod/go.sum so that loading never rewrites the repository's.
func modfileCopy(repo string) (string, func()) {
	d, err := os.MkdirTemp("", "govc-mod")
	if err != nil {
		panic(err)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err == nil {
			os.WriteFile(filepath.Join(d, f), b, 0o644)
		}
	}
	return filepath.Join(d, "go.mod"), func() { os.RemoveAll(d) }
}

// contractFiles returns overlay path -> content for the contract files of a package directory.
func contractFiles(dir, rel, repo, prop string, skip map[string]bool) (map[string][]byte, error) {
	out := map[string][]byte{}
	ents, err := os.ReadDir(filepath.Join(dir, rel))
	if err != nil {
		return nil, err
	}
	if rel != "mqttp" {
		// the specification primitives are shared
		b, err := os.ReadFile(filepath.Join(dir, "mqttp", "rt.go"))
		if err != nil {
			return nil, err
		}
		out[filepath.Join(repo, rel, "zz_vc_rt.go")] = []byte(strings.Replace(string(b), "package mqttp", "package "+filepath.Base(rel), 1))
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || skip[e.Name()] {
			continue
		}
		if n := e.Name(); prop != "" && n[0] == 'c' && !strings.HasPrefix(n, strings.ToLower(prop)) {
			continue // contracts of another property
		}
		b, err := os.ReadFile(filepath.Join(dir, rel, e.Name()))
		if err != nil {
			return nil, err
		}
		out[filepath.Join(repo, rel, "zz_vc_"+e.Name())] = b
	}
	return out, nil
}

func loadWorld(repo, contractsDir, rel, prop string) (*World, error) {
	skip := map[string]bool{}
	var dropped, msgs []string
	ren := map[string]string{}
	edited := map[string][]byte{}
	for try := 0; try < 20; try++ {
		ov, err := contractFiles(contractsDir, rel, repo, prop, skip)
		if err != nil {
			return nil, err
		}
		for p, b := range edited {
			if ov[p] != nil {
				ov[p] = b
			}
		}
		mf, cleanup := modfileCopy(repo)
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        repo,
			Env:        goEnv(),
			Overlay:    ov,
			BuildFlags: []string{"-modfile=" + mf},
			Fset:       token.NewFileSet(),
		}
		pkgs, err := packages.Load(cfg, "./"+rel)
		cleanup()
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("loaded %d packages", len(pkgs))
		}
		bad := map[string]bool{}
		var other []string
		if len(pkgs[0].Errors) > 0 && try < 8 {
			if try == 0 {
				ren = nameMap(readNames(contractsDir, rel), collectNames(pkgs[0], "zz_vc_"))
			}
			if len(ren) > 0 && fixNames(pkgs[0], ov, ren) {
				edited = ov
				continue
			}
		}
		for _, e := range pkgs[0].Errors {
			f := e.Pos
			if i := strings.IndexByte(f, ':'); i > 0 {
				f = f[:i]
			}
			b := filepath.Base(f)
			if strings.HasPrefix(b, "zz_vc_") {
				bad[strings.TrimPrefix(b, "zz_vc_")] = true
				msgs = append(msgs, e.Error())
			} else {
				other = append(other, e.Error())
			}
		}
		if len(bad) > 0 {
			for b := range bad {
				skip[b] = true
				dropped = append(dropped, b)
			}
			if bad["rt.go"] || bad["rt_spec.go"] {
				return nil, fmt.Errorf("runtime contract file does not type-check: %v", msgs)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("package errors: %s", strings.Join(other, "; "))
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		sp := spkgs[0]
		if sp == nil {
			return nil, fmt.Errorf("no SSA package")
		}
		prog.Build()
		sort.Strings(dropped)
		w := &World{renamed: invertNames(ren), repo: repo, prog: prog, pkg: sp, pkgPath: sp.Pkg.Path(), overlay: ov, dropped: dropped, dropMsgs: msgs,
			contracts: map[string]*ssa.Function{}, loopHd: map[*ssa.BasicBlock]bool{}, loopKnown: map[*ssa.Function]bool{},
			pure: map[*ssa.Function]int{}, ipdoms: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, mergeBad: map[*ssa.Function]bool{}, mergeIfBad: map[*ssa.BasicBlock]int{}, globalsBad: map[string]bool{}}
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == "runtime" {
				if t := p.Type("Error"); t != nil {
					w.runtimeErr = t.Type()
				}
			}
		}
		if w.runtimeErr == nil {
			w.runtimeErr = types.Typ[types.String]
		}
		return w, nil
	}
	return nil, fmt.Errorf("contract files keep failing: %v", msgs)
}

// harnesses lists functions named Verify<PROP>_... in the package.
func (w *World) harnesses(prop string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range memberNames(w.pkg) {
		f, ok := w.pkg.Members[n].(*ssa.Function)
		if ok && strings.HasPrefix(n, "Verify"+prop+"_") {
			out = append(out, f)
		}
	}
	return out
}

func (w *World) harnessPrefix(pre string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range memberNames(w.pkg) {
		f, ok := w.pkg.Members[n].(*ssa.Function)
		if ok && strings.HasPrefix(n, pre) {
			out = append(out, f)
		}
	}
	return out
}

func memberNames(p *ssa.Package) []string {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (w *World) warnGlobal(g *ssa.Global) { w.globalsBad[g.String()] = true }

func (w *World) isLoopHeader(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	if !w.loopKnown[fn] {
		w.loopKnown[fn] = true
		for _, x := range fn.Blocks {
			for _, p := range x.Preds {
				if x.Dominates(p) {
					w.loopHd[x] = true
				}
			}
		}
	}
	return w.loopHd[b]
}

// ipdom computes immediate post-dominators (nil = exit).
func (w *World) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	m, ok := w.ipdoms[fn]
	if !ok {
		m = computeIpdoms(fn)
		w.ipdoms[fn] = m
	}
	return m[b]
}

func computeIpdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// pdom sets as bitsets over n+1 nodes (n = virtual exit)
	full := make([]bool, n+1)
	for i := range full {
		full[i] = true
	}
	pd := make([][]bool, n)
	for i := range pd {
		pd[i] = append([]bool(nil), full...)
	}
	exit := make([]bool, n+1)
	exit[n] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := append([]bool(nil), full...)
			if len(b.Succs) == 0 {
				nw = append([]bool(nil), exit...)
			}
			for _, s := range b.Succs {
				for j := range nw {
					nw[j] = nw[j] && pd[s.Index][j]
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j] {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			out[b] = fn.Blocks[best]
		}
	}
	return out
}

// sourceHash helps the evidence say what was loaded.
func goFiles(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var out []string
	for _, f := range m {
		if !strings.HasSuffix(f, "_test.go") {
			out = append(out, f)
		}
	}
	return out
}

var _ = parser.ParseFile
