package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|harness ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "mutant":
		os.Exit(cmdMutant(os.Args[2:]))
	case "names":
		os.Exit(cmdNames(os.Args[2:]))
	case "harness":
		os.Exit(cmdHarness(os.Args[2:]))
	}
	os.Exit(2)
}

// cmdHarness is a development aid: govc harness <pkgdir> <prefix>
func cmdHarness(a []string) int {
	repo := "/repo"
	if len(a) > 2 {
		repo = a[2]
	}
	w, err := loadWorld(repo, "/verif/contracts", a[0], "")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for i, d := range w.dropMsgs {
		fmt.Println("dropped:", i, d)
	}
	rc := 0
	for _, f := range w.harnessPrefix(a[1]) {
		r := w.verify(f, "", Options{})
		fmt.Printf("%s: obligations %d failed %d paths %d queries %d solver %.2fs wall %.2fs\n", r.Harness, len(r.Obls), len(r.Failed), r.Paths, r.Queries, r.SolverTime.Seconds(), r.Wall.Seconds())
		if r.Unsupported != "" {
			fmt.Println("   UNSUPPORTED:", r.Unsupported)
			rc = 1
		}
		for k, n := range r.Bounds {
			fmt.Println("   bounded:", k, n)
		}
		for _, t := range r.WantReach {
			if !r.Reach[t] {
				fmt.Println("   NOT REACHED:", t)
				rc = 1
			}
		}
		seen := map[string]int{}
		for _, o := range r.Failed {
			rc = 1
			k := o.Tag + o.Where + o.Kind
			seen[k]++
			if seen[k] > 1 {
				continue
			}
			fmt.Printf("   FAILED %s (%s) at %s: %v %v\n", o.Tag, o.Kind, o.Where, o.Res, o.Path)
			if o.Model != nil {
				for _, v := range o.Model.Vals {
					fmt.Println("       ", v.text())
				}
			}
		}
	}
	return rc
}
