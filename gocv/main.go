package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify|check|ssa ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "ssa":
		cmdSSA(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdSSA(args []string) {
	P, err := loadProgram("/repo")
	if err != nil {
		fatal(err)
	}
	for _, a := range args {
		if f := P.funcs[a]; f != nil {
			f.WriteTo(os.Stdout)
			for _, g := range f.AnonFuncs {
				g.WriteTo(os.Stdout)
			}
			continue
		}
		for _, k := range sortedKeys(P.funcs) {
			if strings.Contains(k, a) {
				fmt.Println(k)
			}
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gocv:", err)
	os.Exit(2)
}

// selectContracts returns the contracts a property's check verifies first.
func selectContracts(sp *Specs, prop string) []string {
	var out []string
	for _, k := range sortedKeys(sp.contracts) {
		c := sp.contracts[k]
		if c.Kind != "func" || c.Inline {
			continue
		}
		on := prop == "" || has(c.Props, prop)
		for _, cl := range c.Clauses {
			on = on || cl.Kind != "inv" && has(cl.Props, prop)
		}
		if on {
			out = append(out, k)
		}
	}
	return out
}

// verifyProp verifies all contracts of a property and everything they rely on.
func verifyProp(P *Program, sp *Specs, s *Solver, prop string, only []string, timeout float64, stop func() bool) []*FuncResult {
	todo := only
	if len(todo) == 0 {
		todo = selectContracts(sp, prop)
	}
	seen := map[string]bool{}
	var rs []*FuncResult
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(only) > 0 && !has(only, k) {
			continue
		}
		t0 := time.Now()
		r := verifyFunc(P, sp, s, prop, sp.contracts[k])
		if os.Getenv("GOCV_V") != "" {
			fmt.Fprintf(os.Stderr, "%-50s %3d paths %4d obls %6.1fs gen %s\n", k, r.Paths, len(r.Obls), time.Since(t0).Seconds(), r.Err)
		}
		rs = append(rs, r)
		for _, u := range r.Used {
			if strings.HasPrefix(u, "func ") {
				todo = append(todo, u)
			}
		}
		for _, kk := range sp.contracts[k].Also {
			todo = append(todo, kk)
		}
	}
	dischargeAll(s, rs, timeout)
	return append(rs, proveLemmas(s, timeout)...)
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	to := fs.Float64("t", 10, "timeout")
	fn := fs.String("func", "", "")
	dump := fs.String("dump", "", "")
	verbose := fs.Bool("v", false, "")
	all := fs.Bool("all", false, "")
	model := fs.Bool("model", false, "")
	fs.Parse(args)
	t0 := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		fatal(err)
	}
	sp, err := loadSpecs(*dir)
	if err != nil {
		fatal(err)
	}
	s := newSolver("")
	s.dump = *dump
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	if err := loadAxioms(P, sp, s, *prop); err != nil {
		fatal(err)
	}
	var only []string
	if *fn != "" {
		for _, f := range strings.Split(*fn, ",") {
			k := f
			if !strings.Contains(k, ".") || sp.contracts["func "+k] == nil {
				k = "flatjsonl." + f
			}
			if sp.contracts["func "+k] == nil {
				fatal(fmt.Errorf("no contract %s", k))
			}
			only = append(only, "func "+k)
		}
	}
	rs := verifyProp(P, sp, s, *prop, only, *to, nil)
	bad := 0
	for _, r := range rs {
		nOK, nBad := 0, 0
		byName := map[string][]*Obl{}
		for _, o := range r.Obls {
			byName[o.Name] = append(byName[o.Name], o)
			if o.Status == "proved" {
				nOK++
			} else {
				nBad++
			}
		}
		fmt.Printf("%s: %d proved, %d open, %d returns %s\n", r.Key, nOK, nBad, r.Returns, r.Err)
		if len(r.UnusedIv) > 0 {
			fmt.Printf("   invariants not established: %v\n", r.UnusedIv)
		}
		bad += nBad
		if r.Err != "" {
			bad++
		}
		for _, n := range sortedKeys(byName) {
			st := map[string]int{}
			mx := 0.0
			for _, o := range byName[n] {
				st[o.Status]++
				if o.Time > mx {
					mx = o.Time
				}
			}
			if st["proved"] < len(byName[n]) || *all {
				fmt.Printf("   %-60s %v  max %.1fs\n", n, st, mx)
				if *verbose || *model {
					for _, o := range byName[n] {
						if o.Status != "proved" {
							fmt.Printf("      path %s  %s %s [%s]\n      goal %s\n", o.Path, o.Pos, o.Status, o.Model, o.Goal)
							if *model {
								fmt.Println(s.model(o.PC, o.Goal, 5))
							}
							break
						}
					}
				}
			}
		}
		if *verbose {
			fmt.Println("   inlined:", r.Inlined)
			fmt.Println("   trusted:", r.Trusted)
			var ks []string
			for k := range r.Loops {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("   loop %s kept %d/%d rounds %d: %v\n", k, r.Loops[k].kept, r.Loops[k].cands, r.Loops[k].rounds, r.Loops[k].names)
			}
		}
	}
	fmt.Printf("total %.1fs, %d queries, %d cached, solver %.1fs, open %d\n", time.Since(t0).Seconds(), s.NQ, s.NHit, s.Total, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
