package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Contract files name some unexported functions, types and fields of the code. When one of these was renamed,
// the contracts follow: names.json (written by "govc names" on the tree the contracts were written for) records
// every declaration of the package; a declaration that is gone and a new one of the same type (and the most similar
// body) are taken to be the same, and the contract sources are rewritten before they are type-checked. A wrong
// guess cannot hide anything: the rewritten contracts are still checked against the code.

type nameDecl struct {
	Kind string   // "type", "field", "method", "func", "var"
	Own  string   // struct or receiver type
	Name string   //
	Type string   // type or signature
	Idx  int      // field index
	Toks []string // identifiers of the body
}

func (d nameDecl) key() string { return d.Own + "." + d.Name }

func collectNames(p *packages.Package, skipPrefix string) []nameDecl {
	q := types.RelativeTo(p.Types)
	bodies := map[types.Object][]string{}
	fromContract := map[types.Object]bool{}
	for _, f := range p.Syntax {
		isC := strings.HasPrefix(filepath.Base(p.Fset.Position(f.Pos()).Filename), skipPrefix)
		for _, d := range f.Decls {
			if isC {
				ast.Inspect(d, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if o := p.TypesInfo.Defs[id]; o != nil {
							fromContract[o] = true
						}
					}
					return true
				})
				continue
			}
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			set := map[string]bool{}
			ast.Inspect(fd, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					set[id.Name] = true
				}
				return true
			})
			var l []string
			for k := range set {
				l = append(l, k)
			}
			sort.Strings(l)
			bodies[p.TypesInfo.Defs[fd.Name]] = l
		}
	}
	var out []nameDecl
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if fromContract[o] {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			out = append(out, nameDecl{Kind: "func", Name: n, Type: types.TypeString(o.Type(), q), Toks: bodies[o]})
		case *types.Var:
			out = append(out, nameDecl{Kind: "var", Name: n, Type: types.TypeString(o.Type(), q)})
		case *types.TypeName:
			var mem []string
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					mem = append(mem, m.Name())
					out = append(out, nameDecl{Kind: "method", Own: n, Name: m.Name(), Type: types.TypeString(m.Type(), q), Toks: bodies[m]})
				}
			}
			kind := ""
			switch u := o.Type().Underlying().(type) {
			case *types.Struct:
				kind = "struct"
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					mem = append(mem, f.Name())
					out = append(out, nameDecl{Kind: "field", Own: n, Name: f.Name(), Type: types.TypeString(f.Type(), q), Idx: i})
				}
			case *types.Interface:
				kind = "interface"
				for i := 0; i < u.NumExplicitMethods(); i++ {
					m := u.ExplicitMethod(i)
					mem = append(mem, m.Name())
					out = append(out, nameDecl{Kind: "method", Own: n, Name: m.Name(), Type: types.TypeString(m.Type(), q)})
				}
			default:
				kind = types.TypeString(u, q)
			}
			sort.Strings(mem)
			out = append(out, nameDecl{Kind: "type", Name: n, Type: kind, Toks: mem})
		}
	}
	return out
}

func jaccard(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	u := len(a) + len(b) - n
	if u == 0 {
		return 1
	}
	return float64(n) / float64(u)
}

// renameWords replaces whole identifiers of a type string.
func renameWords(s string, m map[string]string) string {
	if len(m) == 0 {
		return s
	}
	isW := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if !isW(s[i]) {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && isW(s[j]) {
			j++
		}
		w := s[i:j]
		if n, ok := m[w]; ok && (i == 0 || s[i-1] != '.') {
			w = n
		}
		b.WriteString(w)
		i = j
	}
	return b.String()
}

// nameMap maps old declarations (key "Own.Name", with Own the old owner) to new names.
func nameMap(old, cur []nameDecl) map[string]string {
	out := map[string]string{}
	kindName := func(k, own, n string) string { return k + " " + own + "." + n }
	have := map[string]bool{}
	for _, d := range cur {
		have[kindName(d.Kind, d.Own, d.Name)] = true
	}
	had := map[string]bool{}
	for _, d := range old {
		had[kindName(d.Kind, d.Own, d.Name)] = true
	}
	tm := map[string]string{} // old type name -> new
	match := func(kind, own, newOwn string) {
		var miss, cand []nameDecl
		for _, d := range old {
			if d.Kind == kind && d.Own == own && !have[kindName(kind, newOwn, d.Name)] {
				miss = append(miss, d)
			}
		}
		for _, d := range cur {
			if d.Kind == kind && d.Own == newOwn && !had[kindName(kind, own, d.Name)] {
				cand = append(cand, d)
			}
		}
		used := map[int]bool{}
		for round := 0; round < len(miss); round++ { // best pair first
			bi, bj, bs := -1, -1, -1.0
			for i, m := range miss {
				if m.Name == "" {
					continue
				}
				for j, c := range cand {
					if used[j] || renameWords(m.Type, tm) != c.Type {
						continue
					}
					s := jaccard(m.Toks, c.Toks)
					if kind == "field" {
						d := m.Idx - c.Idx
						if d < 0 {
							d = -d
						}
						s = 1 / float64(1+d)
					}
					if kind == "type" && s < 0.3 {
						continue
					}
					if s > bs {
						bi, bj, bs = i, j, s
					}
				}
			}
			if bi < 0 {
				break
			}
			out[own+"."+miss[bi].Name] = cand[bj].Name
			if kind == "type" {
				tm[miss[bi].Name] = cand[bj].Name
			}
			miss[bi].Name = ""
			used[bj] = true
		}
	}
	match("type", "", "")
	for _, d := range old {
		if d.Kind != "type" {
			continue
		}
		no := d.Name
		if n, ok := tm[d.Name]; ok {
			no = n
		}
		match("field", d.Name, no)
		match("method", d.Name, no)
	}
	match("func", "", "")
	match("var", "", "")
	return out
}

func readNames(dir, rel string) []nameDecl {
	b, err := os.ReadFile(filepath.Join(dir, rel, "names.json"))
	if err != nil {
		return nil
	}
	var l []nameDecl
	if json.Unmarshal(b, &l) != nil {
		return nil
	}
	return l
}

// fixNames rewrites the identifiers of the contract files that no longer resolve; true if anything changed.
func fixNames(p *packages.Package, ov map[string][]byte, ren map[string]string) bool {
	rev := map[string]string{} // new type name -> old
	for k, v := range ren {
		if strings.HasPrefix(k, ".") {
			rev[v] = k[1:]
		}
	}
	type edit struct {
		off  int
		old  string
		repl string
	}
	changed := false
	for _, f := range p.Syntax {
		fn := p.Fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fn), "zz_vc_") || ov[fn] == nil {
			continue
		}
		var es []edit
		sels := map[*ast.Ident]bool{}
		put := func(id *ast.Ident, own string) bool {
			n, ok := ren[own+"."+id.Name]
			if ok {
				es = append(es, edit{p.Fset.Position(id.Pos()).Offset, id.Name, n})
			}
			return ok
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				sels[n.Sel] = true
				if p.TypesInfo.Uses[n.Sel] != nil {
					return true
				}
				t := p.TypesInfo.TypeOf(n.X)
				if t == nil || t == types.Typ[types.Invalid] {
					return true
				}
				// the owner may be embedded: try every type reachable through embedding
				for _, own := range ownersOf(t) {
					if o, ok := rev[own]; ok {
						own = o
					}
					if put(n.Sel, own) {
						break
					}
				}
			case *ast.CompositeLit:
				t := p.TypesInfo.TypeOf(n)
				if t == nil {
					return true
				}
				for _, e := range n.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					if id, ok := kv.Key.(*ast.Ident); ok && p.TypesInfo.Uses[id] == nil {
						if _, ok := t.Underlying().(*types.Struct); ok {
							own := ownersOf(t)[0]
							if o, ok := rev[own]; ok {
								own = o
							}
							sels[id] = true
							put(id, own)
						}
					}
				}
			case *ast.Ident:
				if !sels[n] && p.TypesInfo.Uses[n] == nil && p.TypesInfo.Defs[n] == nil {
					put(n, "")
				}
			}
			return true
		})
		if len(es) == 0 {
			continue
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
		b := string(ov[fn])
		for _, e := range es {
			if e.off+len(e.old) <= len(b) && b[e.off:e.off+len(e.old)] == e.old {
				b = b[:e.off] + e.repl + b[e.off+len(e.old):]
				changed = true
			}
		}
		ov[fn] = []byte(b)
	}
	return changed
}

func ownersOf(t types.Type) []string {
	var out []string
	seen := map[types.Type]bool{}
	var walk func(types.Type)
	walk = func(t types.Type) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok {
			out = append(out, n.Obj().Name())
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Embedded() {
					walk(u.Field(i).Type())
				}
			}
		case *types.Interface:
			for i := 0; i < u.NumEmbeddeds(); i++ {
				walk(u.EmbeddedType(i))
			}
		}
	}
	walk(t)
	return out
}

// cmdNames records the declarations of the packages under contract.
func cmdNames(a []string) int {
	repo, dir := "/repo", "/verif/contracts"
	for _, rel := range []string{"mqttp", "vlmonitoring", "vltypes"} {
		mf, cleanup := modfileCopy(repo)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), BuildFlags: []string{"-modfile=" + mf}}
		ps, err := packages.Load(cfg, "./"+rel)
		cleanup()
		if err != nil || len(ps) != 1 {
			return 2
		}
		b, _ := json.MarshalIndent(collectNames(ps[0], "zz_vc_"), "", "")
		if os.WriteFile(filepath.Join(dir, rel, "names.json"), append(b, '\n'), 0o644) != nil {
			return 2
		}
	}
	return 0
}

// invertNames maps "newOwner.newName" to the old name (owners are type names).
func invertNames(ren map[string]string) map[string]string {
	out := map[string]string{}
	for k, n := range ren {
		i := strings.IndexByte(k, '.')
		own, old := k[:i], k[i+1:]
		if no, ok := ren["."+own]; ok && own != "" {
			own = no
		}
		out[own+"."+n] = old
	}
	return out
}
