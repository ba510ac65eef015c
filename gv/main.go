package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	repo := envOr("GV_REPO", "/repo")
	verif := envOr("GV_VERIF", "/verif")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gv unit NAME... | check PROPERTY | list")
		os.Exit(2)
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		r := runReplay(verif, repo, os.Args[2], envOr("VERIF_TIER", "quick"), 1)
		fmt.Println(r.summary)
		fmt.Println(r.failure)
		return
	}
	if err := loadContracts(filepath.Join(verif, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	setupConforms()
	w, err := loadWorld(repo, lemmaOverlay(repo, filepath.Join(verif, "contracts")))
	if err != nil {
		if os.Args[1] == "check" && len(os.Args) > 2 {
			os.Exit(checkProperty(nil, os.Args[2], verif, repo, []string{"loading " + repo + ": " + err.Error()}))
		}
		fmt.Fprintln(os.Stderr, "loading:", err)
		os.Exit(2)
	}
	setupFlats(w)
	missing := setupImpls(w)
	missing = append(missing, setupFields(w)...)
	if os.Args[1] != "check" && os.Args[1] != "worker" {
		for _, m := range missing {
			fmt.Println("MISSING", m)
		}
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkProperty(w, os.Args[2], verif, repo, missing))
	case "worker":
		serveUnits(w, os.Stdin, os.Stdout)
	case "funcs":
		for n := range w.funcs {
			fmt.Println(n)
		}
	case "unit":
		bad := 0
		for _, pat := range os.Args[2:] {
			for _, n := range contractNames() {
				c := contracts.funcs[n]
				if c.trusted || c.iface || strings.HasPrefix(n, "pool:") || (!strings.Contains(n, pat) && n != pat) {
					continue
				}
				for _, b := range c.behaviors {
					r := verifyUnit(w, c, b)
					printResult(r)
					if len(r.Failed) > 0 {
						bad++
					}
				}
			}
		}
		fmt.Println("units with failures:", bad)
	}
}

func printResult(r *UnitResult) {
	if os.Getenv("GV_ALL") != "" {
		for _, o := range r.Obls {
			fmt.Println("   ", o.Kind, o.Label, o.Pos, o.goal)
			if os.Getenv("GV_ALL") == o.Label {
				for p := o.assume; p != nil; p = p.up {
					fmt.Println("        |", p.t)
				}
			}
		}
	}
	fmt.Printf("%-55s proved %3d/%3d cands %d/%d returns %d %.1fs %v\n", r.Name, r.Proved, len(r.Obls), r.Alive, r.Candidates, r.Returns, r.Seconds, r.ByProver)
	for i, o := range r.Failed {
		if i > 12 {
			break
		}
		fmt.Printf("    FAILED %s %s %s: %s\n", o.Kind, o.Label, o.Pos, o.Detail)
		if os.Getenv("GV_SHOW") != "" && o.goal != nil {
			fmt.Println("        trace:", strings.Join(o.Trace, " "))
			fmt.Println("        goal:", o.goal)
			if os.Getenv("GV_SHOW") == "3" {
				var as []*Term
				for p := o.assume; p != nil; p = p.up {
					if p.cand == nil || !p.cand.dead {
						as = append([]*Term{p.t}, as...)
					}
				}
				for _, s := range presolve(as, o.goal) {
					fmt.Println("      SUBGOAL:", s.goal)
					for _, h := range s.hyps {
						fmt.Println("          |", h)
					}
				}
			}
			if os.Getenv("GV_SHOW") == "2" {
				for p := o.assume; p != nil; p = p.up {
					if p.cand != nil && p.cand.dead {
						continue
					}
					fmt.Println("          |", p.t)
				}
			}
		}
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
