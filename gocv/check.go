package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ prop, obl, what string }

// loadFindings reads known-findings.txt.
func loadFindings(file string) (fs []finding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return fs
}

type failure struct {
	Obligation string `json:"obligation"`
	Status     string `json:"status"`
	Position   string `json:"position,omitempty"`
	Path       string `json:"path,omitempty"`
	Goal       string `json:"goal,omitempty"`
	Solver     string `json:"solver_output,omitempty"`
	Model      string `json:"counterexample,omitempty"`
	Why        string `json:"why,omitempty"`
	consts     []string
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		fatal(err)
	}
	sp, err := loadSpecs(filepath.Join(*root, "contracts"))
	if err != nil {
		fatal(err)
	}
	s := newSolver("")
	if err := loadAxioms(P, sp, s, *prop); err != nil {
		fatal(err)
	}
	first, retry := 10.0, 40.0
	if *tier == "thorough" {
		first, retry = 30, 150
	}
	// A proof that takes too long is left undecided, so that the check answers in time.
	budget, more := 420*time.Second, 560*time.Second
	if *tier == "thorough" {
		budget, more = 3*time.Hour, 4*time.Hour
	}
	deadline := t0.Add(budget)
	// Bounded stand-ins run beside the proof: with a failing input at hand, less time is spent on the proof.
	standin := readStandins(filepath.Join(*root, "harness", "standins.json"))[*prop]
	var hr *harnessResult
	harness := filepath.Join(*root, "harness", *prop+"_test.go")
	_, herr := os.Stat(harness)
	pl := newPool(*repo, *root, *prop)
	hch := make(chan *harnessResult, 1)
	if herr == nil && (len(standin.Functions) > 0 || os.Getenv("GOCV_SEARCH") != "") {
		go func() {
			r := runHarness(*repo, *root, *prop, *tier, seed, P, nil, false)
			if r.Failure != "" && *tier == "quick" {
				pl.stopAt(time.Now().Add(60 * time.Second))
			}
			hch <- r
		}()
	} else {
		hch <- nil
	}
	rs := pl.verifyAll(P, sp, selectContracts(sp, *prop), first, 1, deadline, true)
	hr = <-hch
	search := func(live []failure) {
		if herr == nil && (hr == nil || hr.Failure == "") {
			cases := 0
			if hr != nil {
				cases = hr.Cases
			}
			hr = runHarness(*repo, *root, *prop, *tier, seed, P, live, true)
			hr.Cases += cases
		}
	}
	// The functions whose proof failed get a second, longer try.
	var again []string
	slowOnly := true // nothing is refuted, some proofs were not found in time
	for _, r := range rs {
		bad := r.Err != "" || r.Vacuous
		for _, o := range r.Obls {
			bad = bad || o.Status != "proved"
			slowOnly = slowOnly && (o.Status == "proved" || o.Status == "unknown")
		}
		if bad {
			k := r.Key
			if !strings.HasPrefix(k, "lemma ") {
				k = "func " + k
			}
			again = append(again, k)
		}
	}
	if len(again) > 0 && hr == nil {
		// A failing input makes the longer try unnecessary.
		hr = runHarness2(herr, *repo, *root, *prop, *tier, seed, P)
	}
	if len(again) > 0 && slowOnly && (hr == nil || hr.Failure == "") && time.Now().Before(deadline) {
		m := map[string]*FuncResult{}
		for _, r := range pl.verifyAll(P, sp, again, retry, 3, t0.Add(more), false) {
			m[r.Key] = r
		}
		for i, r := range rs {
			if n := m[r.Key]; n != nil && n.Err == "" {
				rs[i] = n
			}
		}
	}

	var fails []failure
	total, proved := 0, 0
	by := map[string]int{}
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	var funcs []string
	var slow []string
	unused := []string{}
	loopInv := 0
	for _, r := range rs {
		nOK := 0
		for _, o := range r.Obls {
			total++
			if o.Status == "proved" {
				proved++
				nOK++
				by[o.Solver]++
				if o.Time > 3 {
					slow = append(slow, fmt.Sprintf("%s: %s %.1fs", r.Key, o.Name, o.Time))
				}
				continue
			}
			f := failure{Obligation: r.Key + ": " + o.Name, Status: o.Status, Position: o.Pos, Path: o.Path, Goal: o.GoalText, Solver: o.Model, Model: o.Cex, consts: o.Consts}
			fails = append(fails, f)
		}
		if r.Err != "" {
			fails = append(fails, failure{Obligation: r.Key + ": generate obligations", Status: "undecided", Why: r.Err})
			total++
		} else {
			if len(r.Obls) == 0 || r.Returns == 0 && !sp.contracts["func "+r.Key].MayPanic {
				fails = append(fails, failure{Obligation: r.Key + ": vacuity", Status: "undecided", Why: "no obligation generated or no normal return reached"})
				total++
			}
			if r.Vacuous {
				fails = append(fails, failure{Obligation: r.Key + ": vacuity", Status: "undecided", Why: "the assumptions on every path are contradictory"})
				total++
			}
		}
		funcs = append(funcs, fmt.Sprintf("%s (%d obligations, %d discharged, %d paths)", r.Key, len(r.Obls), nOK, r.Paths))
		for _, k := range r.Trusted {
			trusted[k] = true
		}
		for _, k := range r.Inlined {
			inlined[k] = true
		}
		for _, k := range r.UnusedIv {
			unused = append(unused, r.Key+":"+k)
		}
		loopInv += r.Kept
	}
	if len(rs) == 0 || total == 0 {
		fails = append(fails, failure{Obligation: "(none)", Status: "undecided", Why: "no obligations were generated"})
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %.1fs\n", *prop, len(rs), total, proved, time.Since(t0).Seconds())

	// Known findings.
	kf := loadFindings(filepath.Join(*root, "known-findings.txt"))
	var live []failure
	known := map[string]bool{}
	for _, f := range fails {
		hit := false
		for _, k := range kf {
			if k.prop == *prop && k.obl == f.Obligation {
				hit = true
				if !known[k.obl] {
					known[k.obl] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k.obl, k.what)
				}
			}
		}
		if !hit {
			live = append(live, f)
		}
	}

	if len(live) > 0 {
		search(live)
	}
	if hr != nil {
		if hr.Err != "" {
			fmt.Println("harness:", clip(hr.Err, 1500))
		}
		fmt.Printf("harness: %d cases run\n", hr.Cases)
	}
	viol := 0
	repDir := filepath.Join(*root, "replay")
	os.MkdirAll(repDir, 0o755)
	rep := filepath.Join(repDir, *prop+".json")
	os.Remove(rep)
	write := func(m map[string]any) {
		m["property"] = *prop
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(rep, b, 0o644)
	}
	found := hr != nil && hr.Failure != ""
	switch {
	case found:
		viol = 1
		write(map[string]any{"failing_input": hr.Failure, "failed_obligations": live, "how": "cd /repo && go test -overlay (see harness), input found by searching around the failed obligation", "harness": harness, "seed": seed})
		fmt.Printf("failing input: %s\n", clip(hr.Failure, 1500))
		for i, f := range live {
			if i < 8 {
				fmt.Printf("failed obligation: %s (%s) %s %s\n", f.Obligation, f.Status, f.Position, clip(f.Why, 300))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rep)
	case len(live) > 0:
		viol = 1
		he := ""
		if hr != nil {
			he = hr.Err
		}
		write(map[string]any{"failed_obligations": live, "replay_search": "no failing input found", "replay_search_error": he})
		for i, f := range live {
			if i < 12 {
				fmt.Printf("failed obligation: %s (%s) %s %s\n", f.Obligation, f.Status, f.Position, clip(f.Why, 300))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, rep)
	}

	// Evidence.
	tb := []string{
		"gocv (this repository): translation of go/ssa to first-order verification conditions",
		"golang.org/x/tools go/packages and go/ssa; the Go compiler implements the SSA semantics",
		"SMT solvers z3 5.3, z3 4.8.12, cvc5 1.1.2",
	}
	for _, k := range sortedKeys(trusted) {
		tb = append(tb, k)
	}
	assume := []string{
		"machine integers are treated as mathematical integers (no overflow)",
		"byte strings are modelled as character sequences; aliasing of []byte buffers through append is not modelled",
		"partial correctness: termination is not proved",
		"pointers are not nil where they are dereferenced; distinct struct fields do not overlap",
		"code reached only through functions without a contract and without source here has no effect on the modelled state (listed in trusted_base)",
		"contracts declared extern are assumed, not proved (listed in trusted_base)",
	}
	for _, a := range s.axioms {
		if len(a.syms) > 0 && a.name != "" && !a.lemma {
			assume = append(assume, "axiom "+a.name)
		}
	}
	cov := map[string]any{
		"obligations": total, "discharged": proved,
		"checker_cmd":                              fmt.Sprintf("/verif/build/gocv check -prop %s -tier %s", *prop, *tier),
		"trusted_base":                             tb,
		"functions_under_contract":                 funcs,
		"functions_inlined_without_contract":       sortedKeys(inlined),
		"discharged_by":                            by,
		"solver_time_s":                            round1(pl.total),
		"queries":                                  pl.nq,
		"loop_invariants_proved":                   loopInv,
		"slow_obligations":                         slow,
		"invariants_not_needed_or_not_established": unused,
	}
	if len(standin.Functions) > 0 {
		b := map[string]any{"label": "bounded, not counted as proved", "functions": standin.Functions, "bound": standin.Bound}
		if hr != nil {
			b["cases"] = hr.Cases
			b["error"] = hr.Err
		}
		cov["bounded_standins"] = b
	}
	if len(fails) > 0 {
		var ns []string
		for _, f := range fails {
			ns = append(ns, f.Obligation)
		}
		cov["not_discharged"] = uniq(ns)
	}
	ev := map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume,
		"wall_s": round1(time.Since(t0).Seconds()), "violations": viol}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), b, 0o644); err != nil {
		fatal(err)
	}
	if viol > 0 {
		os.Exit(1)
	}
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func uniq(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return sortedKeys(m)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type standinT struct {
	Functions []string `json:"functions"`
	Bound     string   `json:"bound"`
}

func readStandins(file string) map[string]standinT {
	m := map[string]standinT{}
	if b, err := os.ReadFile(file); err == nil {
		if err := json.Unmarshal(b, &m); err != nil {
			fatal(err)
		}
	}
	return m
}

func runHarness2(herr error, repo, root, prop, tier string, seed int, P *Program) *harnessResult {
	if herr != nil {
		return nil
	}
	return runHarness(repo, root, prop, tier, seed, P, nil, false)
}

type harnessResult struct {
	Failure string
	Cases   int
	Err     string
}

// termConsts collects string and integer literals of an obligation.
func termConsts(ts []*Term) []string {
	m := map[string]bool{}
	seen := map[int]bool{}
	for _, t := range ts {
		walk(t, seen, func(t *Term) {
			switch t.Op {
			case "str":
				m[strconv.Quote(t.Str)] = true
			case "int":
				m[t.Str] = true
			}
		})
	}
	return sortedKeys(m)
}

// runHarness compiles the in-package search through an overlay and runs it.
func runHarness(repo, root, prop, tier string, seed int, P *Program, fails []failure, search bool) *harnessResult {
	res := &harnessResult{}
	tmp, err := os.MkdirTemp("", "gocv-harness-")
	if err != nil {
		res.Err = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	for _, n := range append(harnessParts[prop], "common", "ref", prop, prop+"_unit") {
		src := filepath.Join(root, "harness", n+"_test.go")
		if _, err := os.Stat(src); err != nil {
			continue
		}
		repl[filepath.Join(repo, "flatjsonl", "zz_verif_"+strings.ToLower(n)+"_test.go")] = src
	}
	ovf := filepath.Join(tmp, "overlay.json")
	overlay := func() {
		ov, _ := json.Marshal(map[string]any{"Replace": repl})
		os.WriteFile(ovf, ov, 0o644)
	}
	overlay()
	goTest := []string{"test", "-vet=off", "-count=1", "-overlay", ovf}
	if prop == "C18" { // accesses without the lock
		goTest = append(goTest, "-race")
	}
	bin := filepath.Join(tmp, "verif.test")
	build := func() string {
		cmd := exec.Command("go", append(append([]string{}, goTest...), "-c", "-o", bin, "./flatjsonl")...)
		cmd.Dir = repo
		if prop == "C18" {
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		}
		if b, err := cmd.CombinedOutput(); err != nil {
			return string(b) + err.Error()
		}
		return ""
	}
	if e := build(); e != "" {
		// Functions that are called directly may have another form now.
		delete(repl, filepath.Join(repo, "flatjsonl", "zz_verif_"+strings.ToLower(prop)+"_unit_test.go"))
		overlay()
		if e := build(); e != "" {
			res.Err = e
			return res
		}
	}
	lits := map[string]bool{}
	for _, l := range P.lits {
		lits[l] = true
	}
	strRe := regexp.MustCompile(`"((?:[^"]|"")*)"`)
	for _, f := range fails {
		for _, c := range f.consts {
			lits[c] = true
		}
		for _, m := range strRe.FindAllStringSubmatch(f.Model, -1) {
			lits[strconv.Quote(smtUnescape(m[1]))] = true
		}
	}
	os.WriteFile(filepath.Join(tmp, "lits.txt"), []byte(strings.Join(sortedKeys(lits), "\n")), 0o644)
	budget := 20
	if search {
		budget = 90
	}
	if tier == "thorough" {
		budget *= 3
	}
	out := filepath.Join(tmp, "out.json")
	run := func(test string) string {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+120)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "-test.run", test, "-test.timeout", fmt.Sprintf("%ds", budget+60))
		cmd.Dir = filepath.Join(repo, "flatjsonl")
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1", "VERIF_OUT="+out, "VERIF_LITS="+filepath.Join(tmp, "lits.txt"), fmt.Sprintf("VERIF_BUDGET=%d", budget), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TMP="+tmp)
		cmd.WaitDelay = 2 * time.Second
		b, err := cmd.CombinedOutput()
		if err != nil {
			return string(b) + err.Error()
		}
		return ""
	}
	e := run("^TestVerif" + prop + "$")
	if b, err := os.ReadFile(out); err == nil {
		var r struct {
			Failure string
			Cases   int
			Last    string
		}
		if json.Unmarshal(b, &r) == nil {
			res.Failure, res.Cases = r.Failure, r.Cases
			if res.Failure == "" && e != "" {
				// The process died: the input under test is the failing one.
				if b, err := os.ReadFile(out + ".cur"); err == nil && len(b) > 0 {
					res.Failure = "crash or hang of the code under test on " + string(b) + "\n" + clip(e, 3000)
				}
			}
		}
	} else if b, err := os.ReadFile(out + ".cur"); err == nil && len(b) > 0 && e != "" {
		res.Failure = "crash or hang of the code under test on " + string(b) + "\n" + clip(e, 3000)
	}
	if res.Failure == "" {
		res.Err = e
	}
	return res
}

func smtUnescape(s string) string {
	s = strings.ReplaceAll(s, `""`, `"`)
	return regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`).ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.ParseInt(m[3:len(m)-1], 16, 32)
		if n < 256 {
			return string([]byte{byte(n)})
		}
		return "?"
	})
}

var _ = sort.Strings

// harnessParts lists further files of a harness.
var harnessParts = map[string][]string{"C11": {"sql"}, "C12": {"sql"}, "C13": {"sql"}}
