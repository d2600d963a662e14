package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type baseRow struct {
	Wall  float64
	Funcs []string
}

// cmdMutant is a development aid. govc mutant base PKG OUT: time and functions of every
// harness. govc mutant run PKG REPO BASE FUNC MAXWALL: the harnesses that execute FUNC
// against a changed tree, cheapest first, until one fails.
func cmdMutant(a []string) int {
	repo := "/repo"
	if a[0] == "run" {
		repo = a[2]
	}
	w, err := loadWorld(repo, contractsAt(), a[1], "")
	if err != nil {
		fmt.Println("LOAD", err)
		return 2
	}
	hs := w.harnessPrefix("Verify")
	par := 8
	fmt.Sscan(os.Getenv("GOVC_PAR"), &par)
	base := map[string]*baseRow{}
	fn, max := "", 0.0
	if a[0] == "run" {
		b, _ := os.ReadFile(a[3])
		json.Unmarshal(b, &base)
		fn = a[4]
		fmt.Sscan(a[5], &max)
		k := 0
		for _, h := range hs {
			r := base[h.Name()]
			if r == nil || r.Wall > max {
				continue
			}
			hit := fn == ""
			for _, f := range r.Funcs {
				hit = hit || f == fn || strings.HasPrefix(f, fn+"$")
			}
			if hit {
				hs[k] = h
				k++
			}
		}
		hs = hs[:k]
		sort.Slice(hs, func(i, j int) bool { return base[hs[i].Name()].Wall < base[hs[j].Name()].Wall })
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	found := ""
	undec := 0
	for _, h := range hs {
		sem <- true
		mu.Lock()
		stop := found != ""
		mu.Unlock()
		if stop {
			<-sem
			break
		}
		wg.Add(1)
		h := h
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o := Options{Unroll: 3, Timeout: 400 * time.Second}
			if a[0] == "run" {
				o.Timeout = 90 * time.Second
			}
			r := w.verify(h, "", o)
			mu.Lock()
			defer mu.Unlock()
			if a[0] == "base" {
				base[h.Name()] = &baseRow{Wall: r.Wall.Seconds(), Funcs: shortFns(r.Inlined)}
				return
			}
			if len(r.Failed) > 0 {
				if found == "" {
					found = r.Harness + " " + r.Failed[0].Tag + " " + r.Failed[0].Kind
				}
				return
			}
			bad := r.Unsupported != ""
			for _, t := range r.WantReach {
				bad = bad || !r.Reach[t]
			}
			if bad {
				undec++
			}
		}()
	}
	wg.Wait()
	if a[0] == "base" {
		b, _ := json.Marshal(base)
		os.WriteFile(a[2], b, 0o644)
		return 0
	}
	switch {
	case found != "":
		fmt.Println("CAUGHT", found)
	case undec > 0:
		fmt.Println("UNDECIDED", undec, "of", len(hs))
	default:
		fmt.Println("MISSED", len(hs))
	}
	return 0
}

func contractsAt() string {
	if d := os.Getenv("GOVC_CONTRACTS"); d != "" {
		return d
	}
	return "/verif/contracts"
}
