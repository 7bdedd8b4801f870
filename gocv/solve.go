package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Result of a validity query.
type Result struct {
	Status string // proved, failed (counterexample), unknown
	Solver string
	Time   float64
	Model  string
}

// Solver runs queries on a portfolio of SMT solvers.
type Solver struct {
	mu        sync.Mutex
	cache     map[string]Result
	sem       chan struct{}
	tmp       string
	seq       int
	axioms    []axiomT
	hints     []axiomT
	lemmaUsed map[string]bool
	Total     float64
	NQ        int
	NHit      int
	dump      string
	// deadline ends all solving, if set.
	deadline time.Time
	// scale multiplies the timeouts of invariant candidates.
	scale float64
	// Solver slots shared with other processes.
	tokR, tokW *os.File
}

func (s *Solver) times() float64 {
	if s.scale > 0 {
		return s.scale
	}
	return 1
}

// acquire takes a solver slot.
func (s *Solver) acquire() {
	s.sem <- struct{}{}
	if s.tokR != nil {
		b := make([]byte, 1)
		for {
			if n, err := s.tokR.Read(b); n == 1 || err != nil {
				return
			}
		}
	}
}

func (s *Solver) release() {
	if s.tokW != nil {
		s.tokW.Write([]byte("t"))
	}
	<-s.sem
}

type axiomT struct {
	t     *Term
	syms  []string
	name  string
	lemma bool
}

func newSolver(tmp string) *Solver {
	return &Solver{cache: map[string]Result{}, sem: make(chan struct{}, 8), tmp: tmp}
}

// query is a printed VC.
type query struct {
	text  string
	canon string
	syms  []string
	pc    []*Term
	goal  *Term
}

// termMu guards the term table while queries are built by solver goroutines.
var termMu sync.Mutex

// ground builds the ground-instance query of q.
func (s *Solver) ground(q query) (text string, ok bool) {
	termMu.Lock()
	defer termMu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	if q.goal != nil && q.goal.Op == "and" {
		return "", false
	}
	fs, ok := s.enhance(q.pc, q.goal)
	if !ok {
		return "", false
	}
	g := s.buildWith(fs, nil, false)
	return g.text + "(check-sat)\n", true
}

// collectSyms gathers uninterpreted symbols of a term.
func collectSyms(t *Term, seen map[int]bool, syms map[string]bool, sorts map[string]bool, vars map[string]string, ops map[string]bool) {
	walk(t, seen, func(u *Term) {
		sorts[u.Sort] = true
		if _, ok := fdecls[u.Op]; ok {
			syms[u.Op] = true
		}
		switch u.Op {
		case "var":
			vars[u.Str] = u.Sort
			if _, ok := fdecls[u.Str]; ok {
				syms[u.Str] = true
			}
		case "forall", "exists":
			for _, b := range u.Bound {
				sorts[b.Sort] = true
			}
		}
		ops[u.Op] = true
	})
}

func addSort(s string, out map[string]bool) {
	if out[s] {
		return
	}
	out[s] = true
	if strings.HasPrefix(s, "(Array") {
		k, v := arrSorts(s)
		addSort(k, out)
		addSort(v, out)
		return
	}
	if d := dts[s]; d != nil {
		for _, x := range d.sorts {
			addSort(x, out)
		}
	}
}

// build prints the query asserting pc and the negated goal.
func (s *Solver) build(pc []*Term, goal *Term) query { return s.buildWith(pc, goal, true) }

func (s *Solver) buildWith(pc []*Term, goal *Term, axioms bool) query {
	var as []*Term
	as = append(as, pc...)
	if goal != nil {
		as = append(as, mkNot(goal))
	}
	// Drop path facts unconnected to the goal? Kept: they may be contradictory.
	seen := map[int]bool{}
	syms, sorts, vars, ops := map[string]bool{}, map[string]bool{}, map[string]string{}, map[string]bool{}
	for _, a := range as {
		collectSyms(a, seen, syms, sorts, vars, ops)
	}
	// Axioms whose spec symbols all occur, to a fixpoint.
	used := map[int]bool{}
	var axs []*Term
	for axioms {
		ch := false
		for i, ax := range s.axioms {
			if used[i] {
				continue
			}
			ok := false
			for _, y := range ax.syms {
				if syms[y] {
					ok = true
					break
				}
			}
			if !ok && len(ax.syms) > 0 {
				continue
			}
			used[i] = true
			ch = true
			if ax.lemma {
				s.mu.Lock()
				if s.lemmaUsed == nil {
					s.lemmaUsed = map[string]bool{}
				}
				s.lemmaUsed[ax.name] = true
				s.mu.Unlock()
			}
			axs = append(axs, ax.t)
			collectSyms(ax.t, seen, syms, sorts, vars, ops)
		}
		if !ch {
			break
		}
	}
	as = append(axs, as...)
	all := map[string]bool{}
	for x := range sorts {
		addSort(x, all)
	}
	for y := range syms {
		d := fdecls[y]
		addSort(d.res, all)
		for _, x := range d.args {
			addSort(x, all)
		}
	}
	var sb strings.Builder
	// Boxing is injective.
	for y := range syms {
		if strings.HasPrefix(y, "box!") {
			srt := y[4:]
			ub := "unbox!" + srt
			if _, ok := fdecls[ub]; !ok {
				fdecls[ub] = fdecl{args: []string{sInt}, res: srt}
			}
			syms[ub] = true
		}
	}
	var us []string
	for x := range all {
		if usorts[x] {
			us = append(us, x)
		}
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", u)
	}
	for _, dn := range dtOrder {
		if !all[dn] {
			continue
		}
		d := dts[dn]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", dn, d.ctor)
		for i := range d.fields {
			fmt.Fprintf(&sb, " (%s %s)", symName(d.fields[i]), d.sorts[i])
		}
		sb.WriteString("))))\n")
	}
	var fs []string
	for y := range syms {
		fs = append(fs, y)
	}
	sort.Strings(fs)
	for _, y := range fs {
		d := fdecls[y]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symName(y), strings.Join(d.args, " "), d.res)
	}
	// Canonical names for variables, in order of first occurrence.
	ren := map[string]string{}
	var order []string
	sv := map[int]bool{}
	for _, a := range as {
		walkOrdered(a, sv, func(u *Term) {
			if u.Op == "var" {
				if _, ok := fdecls[u.Str]; ok {
					return
				}
				if _, ok := ren[u.Str]; !ok {
					n := u.Str
					if i := strings.LastIndex(n, "!"); i > 0 {
						if _, err := strconv.Atoi(n[i+1:]); err == nil {
							n = n[:i]
						}
					}
					ren[u.Str] = fmt.Sprintf("%s!%d", n, len(ren))
					order = append(order, u.Str)
				}
			}
		})
	}
	for _, v := range order {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symName(ren[v]), vars[v])
	}
	for _, y := range fs {
		if strings.HasPrefix(y, "box!") {
			srt := y[4:]
			fmt.Fprintf(&sb, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", srt, symName("unbox!"+srt), symName(y), symName(y))
		}
	}
	// Sharing.
	cnt := map[int]int{}
	var count func(t *Term)
	count = func(t *Term) {
		cnt[t.ID]++
		if cnt[t.ID] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				count(a)
			}
		}
	}
	for _, a := range as {
		count(a)
	}
	names := map[int]string{}
	k := 0
	nameOf := func(t *Term) (string, bool) {
		if t.Op == "var" {
			if r, ok := ren[t.Str]; ok {
				return symName(r), true
			}
			return symName(t.Str), true
		}
		n, ok := names[t.ID]
		return n, ok
	}
	done := map[int]bool{}
	var define func(t *Term)
	define = func(t *Term) {
		if done[t.ID] {
			return
		}
		done[t.ID] = true
		for _, a := range t.Args {
			define(a)
		}
		for _, p := range t.Pats {
			for _, a := range p {
				define(a)
			}
		}
		if len(t.Args) > 0 && cnt[t.ID] > 1 && !hasBound(t) {
			k++
			n := fmt.Sprintf("d%d", k)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.Sort, t.print(nameOf))
			names[t.ID] = n
		}
	}
	for _, a := range as {
		define(a)
		p, ok := nameOf(a)
		if !ok {
			p = a.print(nameOf)
		}
		fmt.Fprintf(&sb, "(assert %s)\n", p)
	}
	return query{text: sb.String(), canon: sb.String(), syms: fs, pc: pc, goal: goal}
}

func walkOrdered(t *Term, seen map[int]bool, f func(*Term)) { walk(t, seen, f) }

type backend struct {
	name string
	bin  string
	args []string
	pre  string
}

func backends(timeout float64) []backend {
	ms := int(timeout * 1000)
	return []backend{
		{"z3-5.3", "z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms)}, "(set-option :auto_config true)\n"},
		{"cvc5-1.1.2", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "--arrays-exp"}, "(set-logic ALL)\n"},
		{"z3-nombqi", "z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "auto_config=false", "smt.string_solver=seq"}, ""},
		{"z3-4.8", "z3", []string{"-in", fmt.Sprintf("-t:%d", ms)}, ""},
	}
}

func runBackend(ctx context.Context, b backend, text string, timeout float64) string {
	c, cancel := context.WithTimeout(ctx, time.Duration((timeout+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, b.bin, b.args...)
	cmd.Stdin = strings.NewReader(b.pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.WaitDelay = time.Second
	_ = cmd.Run()
	return out.String()
}

// check decides validity of goal under pc.
func (s *Solver) check(pc []*Term, goal *Term, timeout float64) Result {
	if goal != nil && goal.Op == "true" {
		return Result{Status: "proved", Solver: "simplifier"}
	}
	if goal == nil {
		return s.solve(s.build(pc, goal), timeout, false)
	}
	return s.checkAll(pc, []*Term{goal}, timeout)[0]
}

// subgoal is a part of a goal with its own hypotheses.
type subgoal struct {
	hyps []*Term
	goal *Term
}

// splitGoal cuts a goal at its conjunctions, below quantifiers and implications. The goal is
// valid if and only if all parts are.
func splitGoal(g *Term, hyps []*Term, depth int) []subgoal {
	if depth < 8 {
		switch g.Op {
		case "and":
			var out []subgoal
			for _, a := range g.Args {
				out = append(out, splitGoal(a, hyps, depth+1)...)
			}
			return out
		case "=>":
			h := append(append([]*Term(nil), hyps...), g.Args[0])
			return splitGoal(g.Args[1], h, depth+1)
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range g.Bound {
				m[b] = fresh("sk", b.Sort)
			}
			return splitGoal(subst(g.Args[0], m), hyps, depth+1)
		}
	}
	return []subgoal{{hyps, g}}
}

// splittable reports whether splitGoal yields more than one part.
func splittable(g *Term) int {
	switch g.Op {
	case "and":
		n := 0
		for _, a := range g.Args {
			n += splittable(a)
		}
		return n
	case "=>":
		return splittable(g.Args[1])
	case "forall":
		return splittable(g.Args[0])
	}
	return 1
}

// checkAll decides several goals under the same pc in parallel.
func (s *Solver) checkAll(pc []*Term, goals []*Term, timeout float64) []Result {
	qs := make([]query, len(goals))
	for i, g := range goals {
		if g.Op != "true" {
			qs[i] = s.build(pc, g)
		}
	}
	out := make([]Result, len(goals))
	var wg sync.WaitGroup
	for i := range goals {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if goals[i].Op == "true" {
				out[i] = Result{Status: "proved", Solver: "simplifier"}
				return
			}
			out[i] = s.decide(qs[i], timeout)
		}(i)
	}
	wg.Wait()
	return out
}

// decide solves a query as a whole, and else part by part.
func (s *Solver) decide(q query, timeout float64) Result {
	to := timeout
	cut := timeout > 2 && splittable(q.goal) > 1
	if cut {
		to = 2
	}
	w := s.solve(q, to, false)
	if !cut || w.Status != "unknown" {
		return w
	}
	termMu.Lock()
	var ps []query
	for _, p := range splitGoal(q.goal, nil, 0) {
		if p.goal.Op != "true" {
			ps = append(ps, s.build(append(append([]*Term(nil), q.pc...), p.hyps...), p.goal))
		}
	}
	termMu.Unlock()
	rs := make([]Result, len(ps))
	var pw sync.WaitGroup
	for j := range ps {
		pw.Add(1)
		go func(j int) {
			defer pw.Done()
			rs[j] = s.solve(ps[j], timeout, false)
		}(j)
	}
	pw.Wait()
	r := Result{Status: "proved", Solver: "split", Time: w.Time}
	for j, x := range rs {
		r.Time += x.Time
		if x.Status == "proved" {
			if !strings.Contains(r.Solver, x.Solver) {
				r.Solver += "+" + x.Solver
			}
			continue
		}
		if os.Getenv("GOCV_SPLIT") != "" {
			fmt.Fprintf(os.Stderr, "part %d/%d %s: %.400s\n", j, len(rs), x.Status, ps[j].goal)
		}
		if r.Status == "proved" || x.Status == "failed" {
			r.Status, r.Model = x.Status, x.Model
		}
	}
	return r
}

// solve runs the portfolio: one quick solver first, then the rest in parallel.
func (s *Solver) solve(q query, timeout float64, models bool) Result {
	s.mu.Lock()
	if r, ok := s.cache[q.canon]; ok && (r.Status != "unknown" || r.Time >= timeout*0.8) {
		s.NHit++
		s.mu.Unlock()
		return r
	}
	if !s.deadline.IsZero() {
		left := time.Until(s.deadline).Seconds()
		if left < 0.1 {
			s.mu.Unlock()
			return Result{Status: "unknown", Model: "time budget of the check used up"}
		}
		if left < timeout {
			timeout = left
		}
	}
	s.NQ++
	s.seq++
	id := s.seq
	s.mu.Unlock()
	if s.dump != "" {
		os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("q%05d.smt2", id)), []byte(q.text+"(check-sat)\n"), 0o644)
	}
	s.acquire()
	defer s.release()
	if !s.deadline.IsZero() {
		if left := time.Until(s.deadline).Seconds(); left < timeout {
			timeout = max(left, 0.1)
		}
	}
	t0 := time.Now()
	text := q.text + "(check-sat)\n"
	bs := backends(timeout)
	r := Result{Status: "unknown"}
	parse := func(b backend, out string) bool {
		l := strings.TrimSpace(out)
		for strings.HasPrefix(l, "WARNING") {
			i := strings.IndexByte(l, '\n')
			if i < 0 {
				break
			}
			l = l[i+1:]
		}
		if i := strings.IndexByte(l, '\n'); i >= 0 && !strings.HasPrefix(l, "(error") {
			l = l[:i]
		}
		switch {
		case l == "unsat":
			r.Status, r.Solver = "proved", b.name
			return true
		case l == "sat":
			r.Status, r.Solver = "failed", b.name
			return true
		case strings.HasPrefix(l, "(error"):
			r.Model = b.name + ": " + l
		}
		return false
	}
	// Back ends join the race one after another, the first definite answer counts.
	ctx, cancel := context.WithCancel(context.Background())
	type res struct {
		b backend
		o string
	}
	ch := make(chan res, 16)
	n := 0
	start := func(b backend, text string, only bool) {
		n++
		go func() {
			o := runBackend(ctx, b, text, timeout)
			if only {
				o = unsatOnly(o)
			}
			ch <- res{b, o}
		}()
	}
	variant := func(b backend, suf, text string) {
		s.dumpQ(id, "-"+suf, text)
		b.name += "+" + suf
		start(b, text, true)
	}
	start(bs[0], text, false)
	var inst string
	stages := []func(){
		func() {
			if a, ok := abstractStrings(text); ok {
				variant(bs[0], "abs", a)
			} else {
				start(bs[1], text, false)
			}
		},
		func() {
			if g, ok := s.ground(q); ok {
				inst = g
				variant(bs[0], "inst", g)
			} else {
				start(bs[3], text, false)
			}
		},
		func() {
			start(bs[2], text, false)
			if inst != "" {
				start(bs[3], text, false)
				variant(bs[1], "inst", inst)
				if a, ok := abstractStrings(inst); ok {
					start(bs[1], text, false)
					variant(bs[0], "instabs", a)
				}
			}
		},
	}
	delays := []time.Duration{50 * time.Millisecond, 250 * time.Millisecond, 1500 * time.Millisecond}
	got := 0
	for {
		if got == n && len(stages) == 0 {
			break
		}
		var tick <-chan time.Time
		if len(stages) > 0 {
			if got == n {
				stages[0]()
				stages, delays = stages[1:], delays[1:]
				continue
			}
			tick = time.After(time.Until(t0.Add(delays[0])))
		}
		done := false
		select {
		case x := <-ch:
			got++
			done = parse(x.b, x.o)
		case <-tick:
			if time.Since(t0).Seconds() < timeout {
				stages[0]()
			}
			stages, delays = stages[1:], delays[1:]
		}
		if done {
			break
		}
	}
	cancel()
	r.Time = time.Since(t0).Seconds()
	if os.Getenv("GOCV_SLOW") != "" && r.Time > 1 {
		g := fmt.Sprint(q.goal)
		fmt.Fprintf(os.Stderr, "slow q%05d %.1fs/%.1f %s %s %.150s\n", id, r.Time, timeout, r.Status, r.Solver, g)
	}
	s.mu.Lock()
	s.Total += r.Time
	s.cache[q.canon] = r
	s.mu.Unlock()
	return r
}

func (s *Solver) dumpQ(id int, suf, text string) {
	if s.dump != "" {
		os.WriteFile(filepath.Join(s.dump, fmt.Sprintf("q%05d%s.smt2", id, suf)), []byte(text), 0o644)
	}
}

// unsatOnly hides the answers of a weakened query that decide nothing.
func unsatOnly(out string) string {
	if strings.HasPrefix(strings.TrimSpace(out), "sat") {
		return "unknown"
	}
	return out
}

// sat reports whether the facts are satisfiable (or unknown).
func (s *Solver) unsat(pc []*Term, timeout float64) bool {
	return s.solve(s.build(pc, nil), timeout, false).Status == "proved"
}

// model gets a counterexample, best effort.
func (s *Solver) model(pc []*Term, goal *Term, timeout float64) string {
	q := s.build(pc, goal)
	text := q.text + "(check-sat)\n(get-model)\n"
	b := backends(timeout)[0]
	out := runBackend(context.Background(), b, text, timeout)
	if strings.HasPrefix(out, "sat") || strings.HasPrefix(out, "unknown") && strings.Contains(out, "define-fun") {
		return out
	}
	b = backends(timeout)[1]
	b.args = append(b.args, "--produce-models")
	out = runBackend(context.Background(), b, text, timeout)
	if strings.HasPrefix(out, "sat") {
		return out
	}
	return ""
}
