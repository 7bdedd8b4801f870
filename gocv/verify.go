package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome of one contract.
type FuncResult struct {
	Key      string
	Obls     []*Obl
	Err      string
	Used     []string // func contracts relied on
	Trusted  []string
	Inlined  []string
	Loops    map[string]*loopStat `json:"-"`
	Kept     int
	Paths    int
	Returns  int
	Vacuous  bool
	Missing  bool
	Notes    []string
	UnusedIv []string
}

func newExec(P *Program, sp *Specs, s *Solver, prop string) *Exec {
	return &Exec{
		P: P, sp: sp, prop: prop, solver: s,
		heapSorts: map[string]string{}, heap0: map[string]*Term{}, prov: map[int]string{}, clos: map[int64]*Clo{},
		loopInfo: map[*ssa.Function]*loopInfo{}, trusted: map[string]bool{}, loopLog: map[string]*loopStat{}, cellInfo: map[int]*ssa.Alloc{},
		iterCells: map[int]*mapIter{}, dropped: map[string]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{},
		invProved: map[string]bool{}, candTimeout: 2 * s.times(), userTimeout: 8 * s.times(),
	}
}

func (x *Exec) clauseOn(c *Clause) bool {
	return len(c.Props) == 0 || x.prop == "" || has(c.Props, x.prop)
}

// verifyFunc verifies the contract of one function.
func verifyFunc(P *Program, sp *Specs, s *Solver, prop string, con *Contract) (res *FuncResult) {
	x := newExec(P, sp, s, prop)
	x.con, x.key = con, con.Key
	res = &FuncResult{Key: con.Key}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupErr:
				res.Err = "unsupported: " + e.msg
			case specErr:
				res.Err = "contract: " + e.msg
			default:
				res.Err = fmt.Sprintf("internal: %v", r)
				if os.Getenv("GOCV_STACK") != "" {
					debug.PrintStack()
				}
			}
			if os.Getenv("GOCV_STACK") == "all" {
				debug.PrintStack()
			}
		}
		res.Obls = x.obls
		res.Paths = x.paths
		res.Returns = x.returns
		res.Loops = x.loopLog
		for _, l := range x.loopLog {
			res.Kept += l.kept
		}
		for _, k := range sortedKeys(x.usedContracts) {
			res.Used = append(res.Used, k)
		}
		res.Trusted = sortedKeys(x.trusted)
		res.Inlined = sortedKeys(x.inlined)
		res.Notes = x.notes
		for _, cl := range con.Clauses {
			if cl.Kind == "inv" && x.clauseOn(cl) && !x.invProved[cl.Name] {
				res.UnusedIv = append(res.UnusedIv, cl.Name)
				if strings.HasPrefix(cl.Name, "must-") && res.Err == "" {
					res.Obls = append(res.Obls, &Obl{Func: con.Key, Name: "invariant " + cl.Name, Status: "unknown", Goal: tFalse, Model: "no loop keeps this invariant"})
				}
			}
		}
	}()
	fn := P.funcs[con.Key]
	if fn == nil {
		res.Missing = true
		panic(unsup("function %s is gone", con.Key))
	}
	x.fn = fn
	st := newState()
	st.top = newTop()
	st.assume(mkLe(mkInt(0), st.top))
	if len(con.Params) != len(fn.Params) {
		panic(unsup("%s has %d parameters, contract has %d", con.Key, len(fn.Params), len(con.Params)))
	}
	x.names = map[string]EV{}
	fr := x.newFrame(fn, nil, nil)
	fr.root = true
	fr.binds = map[*ssa.FreeVar]Val{}
	for _, fv := range fn.FreeVars {
		// Captured variables of a closure verified on its own: arbitrary.
		t := deref(fv.Type())
		c := x.newCell(st, Val(nil))
		v := fresh("cap_"+fv.Name(), typeSort(t))
		st.cells[c] = v
		st.wf(t, v)
		fr.binds[fv] = &Addr{cell: c, typ: t}
	}
	for i, p := range fn.Params {
		n := con.Params[i].Name
		v := fresh(n, typeSort(p.Type()))
		st.wf(p.Type(), v)
		st.set(fr, p, v)
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			x.prov[v.ID] = con.Key + "." + n
		}
		x.names[n] = EV{v: v, t: p.Type(), s: v.Sort}
	}
	x.threadInit(st)
	env := &SEnv{x: x, st: st, vars: x.names}
	for _, cl := range con.Clauses {
		if cl.Kind == "requires" && x.clauseOn(cl) {
			st.assume(env.bool(cl.E))
		}
	}
	x.entry = st.clone()
	fr.ret = func(st *State, rs []Val) { x.atReturn(st, fn.Signature, rs) }
	x.enter(st, fr, nil, fn.Blocks[0])
	res.Vacuous = x.vacuous()
	x.smokeReport()
	return res
}

type smokeRec struct {
	what          string
	before, after []*Term
}

var smokeOn = os.Getenv("GOCV_SMOKE") != ""

// smoke remembers a point where assumptions were added, to test that they do not contradict each other.
func (x *Exec) smoke(pre, post *State, what string) {
	if smokeOn && x.quiet == 0 && !post.dead() {
		x.smokes = append(x.smokes, smokeRec{what, pre.pc, post.pc})
	}
}

// smokeReport lists the points whose assumptions are contradictory.
func (x *Exec) smokeReport() {
	seen := map[string]bool{}
	for _, r := range x.smokes {
		if seen[r.what] || !x.solver.unsat(r.after, 1.4) || x.solver.unsat(r.before, 1.4) {
			continue
		}
		seen[r.what] = true
		fmt.Fprintf(os.Stderr, "SMOKE %s: contradictory assumptions after %s\n", x.key, r.what)
	}
	if smokeOn {
		bad := 0
		for _, pc := range x.retPCs {
			if x.solver.unsat(pc, 1.4) {
				bad++
			}
		}
		fmt.Fprintf(os.Stderr, "SMOKE %s: %d of %d return paths are contradictory, %d points\n", x.key, bad, len(x.retPCs), len(x.smokes))
	}
}

// vacuous: the assumptions on every return path are contradictory.
func (x *Exec) vacuous() bool {
	if len(x.retPCs) == 0 {
		return false
	}
	ps := x.retPCs
	if len(ps) > 12 {
		ps = append(ps[:6:6], ps[len(ps)-6:]...)
	}
	for _, pc := range ps {
		if !x.solver.unsat(pc, 1.4) {
			return false
		}
	}
	for _, pc := range x.retPCs {
		if !x.solver.unsat(pc, 1.4) {
			return false
		}
	}
	return true
}

// atReturn checks postconditions and frame.
func (x *Exec) atReturn(st *State, sig *types.Signature, rs []Val) {
	if st.dead() {
		return
	}
	if x.quiet > 0 {
		return
	}
	x.returns++
	vars := map[string]EV{}
	for n, v := range x.names {
		vars[n] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		n := fmt.Sprintf("res%d", i)
		if i < len(x.con.Results) {
			n = x.con.Results[i].Name
		}
		rt := sig.Results().At(i).Type()
		var v Val = rs[i]
		if a, ok := v.(*Addr); ok && a.cell > 0 {
			panic(unsup("returning address of a local"))
		}
		t := x.term(st, v)
		st.wf(rt, t)
		vars[n] = EV{v: t, t: rt, s: t.Sort}
	}
	x.threadExit(st)
	env := &SEnv{x: x, st: st, old: x.entry, vars: vars}
	for _, cl := range x.con.Clauses {
		if cl.Kind == "ensures" && x.clauseOn(cl) {
			x.oblige(st, "ensures "+cl.Name, cl.Props, env.bool(cl.E), 0)
		}
	}
	if !x.con.NoFrame {
		x.frameCheck(st, x.entry, x.con, x.names, "")
	}
	for _, cl := range x.con.Clauses {
		if cl.Kind == "implements" && x.clauseOn(cl) {
			x.checkImpl(st.clone(), env, cl)
		}
	}
	x.retPCs = append(x.retPCs, st.pc)
}

// modSets lists what the modifies clauses allow to change.
func (x *Exec) modSets(entry *State, con *Contract, names map[string]EV) (map[string]bool, map[string][]*Term) {
	whole := map[string]bool{}
	refs := map[string][]*Term{}
	for _, cl := range con.Clauses {
		if cl.Kind != "modifies" {
			continue
		}
		for _, m := range cl.Mods {
			for _, t := range x.modTargets(entry, names, m) {
				if t.cell > 0 {
					continue
				}
				if t.ref == nil {
					whole[t.heap] = true
				} else {
					refs[t.heap] = append(refs[t.heap], t.ref)
				}
			}
		}
	}
	return whole, refs
}

// frameCheck: nothing outside the modifies clause changed.
func (x *Exec) frameCheck(st, entry *State, con *Contract, names map[string]EV, suffix string) {
	whole, refs := x.modSets(entry, con, names)
	for _, h := range sortedKeys(st.heap) {
		if whole[h] || strings.HasPrefix(h, "B:") {
			continue
		}
		a := st.heap[h]
		a0 := entry.heap[h]
		if a0 == nil {
			a0 = x.heap0[h]
		}
		if a == a0 {
			continue
		}
		if !strings.HasPrefix(a.Sort, "(Array Int") || strings.HasPrefix(h, "G:") {
			x.oblige(st, "frame "+h+suffix, nil, mkEq(a, a0), 0)
			continue
		}
		// Peel writes to fresh objects.
		g := x.frameGoal(st, a, a0, nilElems(h, refs[h]), entry)
		x.oblige(st, "frame "+h+suffix, nil, g, 0)
	}
}

// nilElems adds the backing array of nil slices, which has no elements.
func nilElems(h string, refs []*Term) []*Term {
	if strings.HasPrefix(h, "M:") {
		return append(refs[:len(refs):len(refs)], mkInt(0))
	}
	return refs
}

func (x *Exec) frameGoal(st *State, a, a0 *Term, refs []*Term, entry *State) *Term {
	top := entry.topTerm()
	// Peel syntactic stores.
	for a.Op == "store" {
		i := a.Args[1]
		ok := false
		if o, _, al := allocOf(i); al && (o > topOrd[entry.top.ID] || o == topOrd[entry.top.ID]) {
			_, k, _ := allocOf(i)
			if o > topOrd[entry.top.ID] || k > entry.topK {
				ok = true
			}
		}
		for _, r := range refs {
			if r == i {
				ok = true
			}
		}
		if !ok {
			break
		}
		a = a.Args[0]
	}
	if a == a0 {
		return tTrue
	}
	r := mkBound("fr", sInt)
	hyp := []*Term{mkLe(r, top)}
	for _, e := range refs {
		hyp = append(hyp, mkNot(mkEq(r, e)))
	}
	return mkForall([]*Term{r}, mkImp(mkAnd(hyp...), mkEq(mkSelect(a, r), mkSelect(a0, r))), []*Term{mkSelect(a, r)})
}

// checkImpl verifies a closure stored by the function against a callback contract:
// it may be called at any later time, in any state.
func (x *Exec) checkImpl(st *State, env *SEnv, cl *Clause) {
	key := cl.Impl
	if strings.Count(key, ".") == 0 {
		key = "flatjsonl." + key
	}
	con := x.sp.contracts["cb "+key]
	if con == nil {
		panic(serr("no callback contract %s", key))
	}
	env = env.in(st)
	ev := env.eval(cl.E)
	var clo *Clo
	switch v := ev.v.(type) {
	case *Clo:
		clo = v
	case *Term:
		v = st.simpIte(v)
		if v.isInt() {
			clo = x.clos[v.bigv().Int64()]
		}
	}
	if clo == nil {
		// The path may be infeasible.
		x.oblige(st, cl.Name, cl.Props, tFalse, 0)
		return
	}
	fn := clo.fn
	s := st.clone()
	s.loops = nil
	s.defers = map[int][]deferRec{}
	s.trace = append(s.trace, "impl "+key)
	// Arbitrary later state.
	for h := range s.heap {
		if keepHeap(x, h) {
			continue
		}
		s.heap[h] = fresh("im!"+h, x.heapSorts[h])
	}
	s.advanceTop()
	for i, fv := range fn.FreeVars {
		a, ok := clo.binds[i].(*Addr)
		if !ok || a.cell == 0 {
			continue
		}
		al := x.cellInfo[a.cell]
		if al != nil && assignedOnce(al) {
			continue
		}
		t := deref(fv.Type())
		nv := fresh("cap_"+fv.Name(), typeSort(t))
		s.wf(t, nv)
		s.cells[a.cell] = nv
	}
	if len(con.Params) != len(fn.Params) {
		panic(unsup("%s has %d parameters, contract has %d", key, len(fn.Params), len(con.Params)))
	}
	vars := map[string]EV{}
	for n, v := range env.vars {
		vars[n] = v
	}
	fr := x.newFrame(fn, nil, nil)
	fr.binds = map[*ssa.FreeVar]Val{}
	for i, fv := range fn.FreeVars {
		fr.binds[fv] = clo.binds[i]
	}
	for i, p := range fn.Params {
		v := fresh(con.Params[i].Name, typeSort(p.Type()))
		s.wf(p.Type(), v)
		s.set(fr, p, v)
		vars[con.Params[i].Name] = EV{v: v, t: p.Type(), s: v.Sort}
	}
	pe := &SEnv{x: x, st: s, vars: vars}
	for _, c := range con.Clauses {
		if c.Kind == "requires" && x.clauseOn(c) {
			s.assume(pe.bool(c.E))
		}
	}
	entry := s.clone()
	saveEntry, saveCon, saveNames, saveKey := x.entry, x.con, x.names, x.key
	x.entry, x.names = entry, vars
	nc := *con
	// Loop invariants of the enclosing contract stay available.
	for _, c := range saveCon.Clauses {
		if c.Kind == "inv" {
			nc.Clauses = append(nc.Clauses[:len(nc.Clauses):len(nc.Clauses)], c)
		}
	}
	x.con = &nc
	x.key = saveKey + "/" + strings.TrimPrefix(key, "flatjsonl.")
	n := 0
	fr.ret = func(r *State, rs []Val) {
		if r.dead() || x.quiet > 0 {
			return
		}
		n++
		rv := map[string]EV{}
		for k, v := range vars {
			rv[k] = v
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rn := fmt.Sprintf("res%d", i)
			if i < len(con.Results) {
				rn = con.Results[i].Name
			}
			rt := fn.Signature.Results().At(i).Type()
			t := x.term(r, rs[i])
			r.wf(rt, t)
			rv[rn] = EV{v: t, t: rt, s: t.Sort}
		}
		re := &SEnv{x: x, st: r, old: entry, vars: rv}
		for _, c := range con.Clauses {
			if c.Kind == "ensures" && x.clauseOn(c) {
				x.oblige(r, "ensures "+c.Name, c.Props, re.bool(c.E), 0)
			}
		}
		if !con.NoFrame {
			x.frameCheck(r, entry, con, vars, "")
		}
		x.retPCs = append(x.retPCs, r.pc)
	}
	x.enter(s, fr, nil, fn.Blocks[0])
	x.entry, x.con, x.names, x.key = saveEntry, saveCon, saveNames, saveKey
}

func keepHeap(x *Exec, h string) bool { return false }

// assignedOnce: the captured variable is written only before closures can run.
func assignedOnce(a *ssa.Alloc) bool {
	n := 0
	var cnt func(v ssa.Value, seen map[ssa.Value]bool) bool
	cnt = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					if _, isFV := v.(*ssa.FreeVar); isFV {
						return false
					}
					n++
				}
			case *ssa.MakeClosure:
				g := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !cnt(g.FreeVars[i], seen) {
						return false
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if r.Referrers() == nil {
					return false
				}
				for _, rr := range *r.Referrers() {
					if _, ok := rr.(*ssa.UnOp); !ok {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return cnt(a, map[ssa.Value]bool{}) && n <= 1
}

// dischargeAll solves the open obligations in parallel.
func dischargeAll(s *Solver, rs []*FuncResult, timeout float64) {
	type job struct {
		o *Obl
		q query
	}
	var jobs []job
	for _, r := range rs {
		for _, o := range r.Obls {
			if o.Status == "" {
				jobs = append(jobs, job{o, s.build(o.PC, o.Goal)})
			}
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				r := s.decide(j.q, timeout)
				j.o.Status, j.o.Solver, j.o.Time, j.o.Model = r.Status, r.Solver, r.Time, r.Model
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// proveLemmas proves the lemmas that were used.
func proveLemmas(s *Solver, timeout float64) (rs []*FuncResult) {
	for i := len(s.axioms) - 1; i >= 0; i-- {
		a := s.axioms[i]
		if !a.lemma || !s.lemmaUsed[a.name] {
			continue
		}
		s2 := newSolver(s.tmp)
		s2.deadline = s.deadline
		for _, b := range s.axioms[:i] {
			s2.axioms = append(s2.axioms, b)
		}
		for _, b := range s.axioms[i:] {
			if !b.lemma {
				s2.axioms = append(s2.axioms, b)
			}
		}
		s2.axioms = append(s2.axioms, s.hints...)
		o := &Obl{Func: "lemma", Name: a.name, Goal: a.t}
		r := &FuncResult{Key: "lemma " + a.name, Obls: []*Obl{o}, Paths: 1, Returns: 1}
		dischargeAll(s2, []*FuncResult{r}, timeout)
		for n := range s2.lemmaUsed {
			s.lemmaUsed[n] = true
		}
		s.Total += s2.Total
		s.NQ += s2.NQ
		rs = append(rs, r)
	}
	return rs
}

// loadAxioms evaluates the axioms of the contract files.
func loadAxioms(P *Program, sp *Specs, s *Solver, prop string) (err error) {
	x := newExec(P, sp, s, prop)
	x.fn = nil
	x.con = &Contract{}
	s.axioms, s.hints = nil, nil
	for _, cl := range sp.axioms {
		if len(cl.Props) > 0 && !has(cl.Props, prop) && prop != "" {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%s:%d: %v", cl.File, cl.Line, r)
				}
			}()
			st := newState()
			st.top = newTop()
			t := (&SEnv{x: x, st: st, vars: map[string]EV{}}).bool(cl.E)
			syms := map[string]bool{}
			collectSyms(t, map[int]bool{}, syms, map[string]bool{}, map[string]string{}, map[string]bool{})
			a := axiomT{t: t, name: cl.Name}
			for _, y := range sortedKeys(syms) {
				if strings.HasPrefix(y, "s!") || y == "gomod" || y == "godiv" || y == "toLower" {
					a.syms = append(a.syms, y)
				}
			}
			a.lemma = cl.Kind == "lemma"
			if cl.Kind == "hint" {
				s.hints = append(s.hints, a)
				return
			}
			s.axioms = append(s.axioms, a)
		}()
	}
	return err
}

var _ = sort.Strings
