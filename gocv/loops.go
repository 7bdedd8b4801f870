package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// loopCtx is an active loop of a path.
type loopCtx struct {
	fr       *frame
	header   *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	checking bool
	back     func(st *State, from *ssa.BasicBlock)
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type loopStat struct {
	cands, kept int
	rounds      int
	inv         map[string]bool
	names       []string
}

// loopsOf finds the natural loops of a function.
func (x *Exec) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := x.loopInfo[f]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	x.loopInfo[f] = li
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := li.headers[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				li.headers[s] = body
			}
			var add func(n *ssa.BasicBlock)
			add = func(n *ssa.BasicBlock) {
				if body[n] {
					return
				}
				body[n] = true
				for _, p := range n.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	return li
}

// lvar is a loop-carried SSA variable.
type lvar struct {
	key  any // *ssa.Phi
	typ  types.Type
	init Val
	lo   *Term
}

// loopDef describes one loop to verify.
type loopDef struct {
	name string
	fr   *frame
	vars []*lvar
	// run executes one iteration from a header state; env has been set by setVars.
	setVars func(st *State, vals []Val)
	run     func(st *State, lc *loopCtx, back func(st *State, vals []Val))
	iter    *mapIter // map iterator driving the loop
	rng     func(st *State) (EV, bool)
	bounds  func(st *State) []boundInfo
	outer   []ssa.Value // values of the loop computed before it
	pos     token.Pos
	fn      *ssa.Function
}

type boundInfo struct {
	v     any // phi
	add   *Term
	bound *Term
}

type locSet struct {
	heaps map[string]map[int]*Term // precise refs; nil map value: whole array
	whole map[string]bool
	cells map[int]bool
}

func newLocSet() *locSet {
	return &locSet{heaps: map[string]map[int]*Term{}, whole: map[string]bool{}, cells: map[int]bool{}}
}

func (l *locSet) size() int {
	n := len(l.whole)*1000 + len(l.cells)
	for _, h := range l.heaps {
		n += len(h)
	}
	return n
}

// invariantTerm: the term mentions only variables older than the loop.
func (x *Exec) invariantTerm(t *Term, mark int) bool {
	ok := true
	walk(t, map[int]bool{}, func(u *Term) {
		if u.Op == "var" && u.ID >= mark && !strings.HasPrefix(u.Str, "h0!") {
			if _, is := fdecls[u.Str]; !is {
				ok = false
			}
		}
		if u.Op == "bound" {
			ok = false
		}
	})
	return ok
}

func (x *Exec) collect(w *locSet, r *recorder, mark, cellMark int) {
	for _, wr := range r.writes {
		if wr.cell > 0 {
			if wr.cell <= cellMark {
				w.cells[wr.cell] = true
			}
			continue
		}
		if w.whole[wr.heap] {
			continue
		}
		if wr.ref == nil || !x.invariantTerm(wr.ref, mark) {
			// Objects allocated inside the loop are not loop-carried unless through the whole array.
			w.whole[wr.heap] = true
			continue
		}
		if w.heaps[wr.heap] == nil {
			w.heaps[wr.heap] = map[int]*Term{}
		}
		w.heaps[wr.heap][wr.ref.ID] = wr.ref
	}
}

func (x *Exec) startLoop(st *State, fr *frame, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	d := &loopDef{fr: fr, fn: fr.fn, name: fmt.Sprintf("%s#%d", funcKey(fr.fn), to.Index)}
	if len(to.Instrs) > 0 {
		for _, in := range to.Instrs {
			if in.Pos().IsValid() {
				d.pos = in.Pos()
				break
			}
		}
	}
	init := x.phis(st, fr, from, to)
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		d.vars = append(d.vars, &lvar{key: p, typ: p.Type(), init: init[p]})
	}
	d.setVars = func(st *State, vals []Val) {
		for i, v := range d.vars {
			st.set(fr, v.key.(*ssa.Phi), vals[i])
		}
	}
	d.run = func(st *State, lc *loopCtx, back func(*State, []Val)) {
		lc.header, lc.body = to, body
		lc.back = func(st *State, from *ssa.BasicBlock) {
			ph := x.phis(st, fr, from, to)
			var vals []Val
			for _, v := range d.vars {
				vals = append(vals, ph[v.key.(*ssa.Phi)])
			}
			back(st, vals)
		}
		x.instrs(st, fr, to, 0)
	}
	for _, in := range to.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := st.env[envKey{fr.id, n.Iter}].(*mapIter); ok {
				d.iter = it
			}
		}
	}
	// Header comparison: bounds and ranged slice.
	if iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If); ok {
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			lx, ly, strict := bo.X, bo.Y, true
			switch bo.Op {
			case token.LSS:
			case token.LEQ:
				strict = false
			case token.GTR:
				lx, ly = ly, lx
			case token.GEQ:
				lx, ly, strict = ly, lx, false
			default:
				lx = nil
			}
			if lx != nil {
				d.bounds = func(st *State) []boundInfo {
					b, ok := x.tryVal(st, fr, ly)
					if !ok {
						return nil
					}
					bt, ok := b.(*Term)
					if !ok || bt.Sort != sInt {
						return nil
					}
					if !strict {
						bt = mkAdd(bt, mkInt(1))
					}
					if p, ok := lx.(*ssa.Phi); ok && p.Block() == to {
						return []boundInfo{{p, mkInt(0), bt}}
					}
					if a, ok := lx.(*ssa.BinOp); ok && a.Op == token.ADD {
						if p, ok := a.X.(*ssa.Phi); ok && p.Block() == to {
							if c, ok := a.Y.(*ssa.Const); ok {
								return []boundInfo{{p, constTerm(c), bt}}
							}
						}
					}
					return nil
				}
				d.rng = func(st *State) (EV, bool) {
					if c, ok := ly.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							if v, ok := x.tryVal(st, fr, c.Call.Args[0]); ok {
								t := c.Call.Args[0].Type()
								return EV{v: v, t: t, s: typeSort(t)}, true
							}
						}
					}
					return EV{}, false
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o == nil || seen[*o] {
					continue
				}
				seen[*o] = true
				oi, ok := (*o).(ssa.Instruction)
				if !ok || body[oi.Block()] {
					continue
				}
				switch t := (*o).Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					d.outer = append(d.outer, *o)
				case *types.Basic:
					if t.Kind() == types.String {
						d.outer = append(d.outer, *o)
					}
				}
			}
		}
	}
	x.runLoop(st, d)
}

// tryVal evaluates a value without executing the header.
func (x *Exec) tryVal(st *State, fr *frame, v ssa.Value) (r Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupErr); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c), true
	case *ssa.Call:
		if bi, is := c.Call.Value.(*ssa.Builtin); is && bi.Name() == "len" {
			if a, ok := x.tryVal(st, fr, c.Call.Args[0]); ok {
				t := c.Call.Args[0].Type()
				at, isT := a.(*Term)
				if !isT {
					return nil, false
				}
				switch u := t.Underlying().(type) {
				case *types.Slice:
					if isByte(u.Elem()) {
						return mkLen(bsStr(at)), true
					}
					return slLen(at), true
				case *types.Basic:
					return mkLen(at), true
				}
			}
			return nil, false
		}
	case *ssa.UnOp:
		if c.Op == token.MUL {
			if e, ok := st.env[envKey{fr.id, v}]; ok && !inLoopHeader(st, c) {
				return e, true
			}
			if a, ok := x.tryVal(st, fr, c.X); ok {
				r := x.loadPtr(st, a, deref(c.X.Type()))
				return r, true
			}
			return nil, false
		}
	case *ssa.FieldAddr:
		if b, ok := x.tryVal(st, fr, c.X); ok {
			return x.fieldAddr(st, b, deref(c.X.Type()), c.Field), true
		}
		return nil, false
	}
	if e, ok := st.env[envKey{fr.id, v}]; ok {
		return e, true
	}
	if _, is := v.(*ssa.FreeVar); is {
		return x.val(st, fr, v), true
	}
	return nil, false
}

func inLoopHeader(st *State, v ssa.Instruction) bool { return true }

// cand is a candidate invariant.
type cand struct {
	name string
	f    func(c *candCtx) *Term // nil: not evaluable
	user bool
	cl   *Clause
	bind map[string]string // meta variable -> loop variable
}

// selected drops candidates that bind a meta variable otherwise than its selecting clause ("the-...") does.
func selected(cands []*cand) []*cand { return selectedBy(cands, nil) }

func selectedBy(cands []*cand, by *Clause) (out []*cand) {
	sel := map[string]map[string]bool{}
	for _, c := range cands {
		if c.user && strings.HasPrefix(c.cl.Name, "the-") && (by == nil || by == c.cl) {
			for k, v := range c.bind {
				if sel[k] == nil {
					sel[k] = map[string]bool{}
				}
				sel[k][v] = true
			}
		}
	}
	for _, c := range cands {
		ok := true
		for k, v := range c.bind {
			ok = ok && (sel[k] == nil || sel[k][v])
		}
		if ok {
			out = append(out, c)
		}
	}
	return out
}

type candCtx struct {
	st  *State
	pre *State
	n   *Term
	lv  []Val
}

func (x *Exec) evalCand(c *cand, cc *candCtx) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				if os.Getenv("GOCV_CAND") != "" {
					fmt.Fprintln(os.Stderr, "cand", c.name, e.msg)
				}
				t = nil
			case unsupErr:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.f(cc)
}

// runLoop verifies a loop: discovers what it writes, infers the inductive subset of the
// candidate invariants, and continues from the loop's exits.
func (x *Exec) runLoop(st0 *State, d *loopDef) {
	x.curLoops++
	defer func() { x.curLoops-- }()
	pre := st0.clone()
	for _, v := range d.vars {
		switch t := v.init.(type) {
		case *Term:
			st0.wf(v.typ, t)
		case *Clo:
			v.init = x.term(st0, t)
		}
	}
	w := newLocSet()
	var hav *State
	var vals []Val
	var nT *Term
	var mark int
	var alive0 []*cand
	fixedOff := func(name string) bool {
		for _, c := range alive0 {
			if c.name == name+".off" {
				return true
			}
		}
		return false
	}
	// A slice whose offset is invariant keeps the offset syntactically, which helps instantiation.
	keepOff := func(name string, init, f *Term) *Term {
		if init.Sort != sSlice || !fixedOff(name) {
			return f
		}
		return mkCtor(sSlice, fresh("sr", sInt), slOff(init), fresh("sl", sInt), fresh("sc", sInt))
	}
	preTop := st0.topTerm()

	havoc := func() {
		mark = termSeq + 1
		hav = st0.clone()
		// allocation
		nt := newTop()
		hav.assume(mkLe(hav.topTerm(), nt))
		hav.top, hav.topK = nt, 0
		nT = fresh("n", sInt)
		hav.assume(mkLe(mkInt(0), nT))
		vals = nil
		for i, v := range d.vars {
			switch in := v.init.(type) {
			case *Term:
				// Constant-in-loop variables stay.
				f := keepOff(fmt.Sprintf("v%d", i), in, fresh("phi", in.Sort))
				hav.wf(v.typ, f)
				vals = append(vals, f)
			default:
				vals = append(vals, v.init)
			}
		}
		for c := range w.cells {
			old, ok := hav.cells[c]
			if !ok {
				continue
			}
			ot, isT := old.(*Term)
			if cl, is := old.(*Clo); is {
				ot, isT = x.term(hav, cl), true
			}
			if !isT {
				panic(unsup("loop changes a pointer-valued local"))
			}
			f := keepOff(fmt.Sprintf("c%d", c), ot, fresh("cell", ot.Sort))
			if a := x.cellInfo[c]; a != nil {
				hav.wf(deref(a.Type()), f)
			}
			hav.cells[c] = f
		}
		for h := range w.whole {
			x.heapArr(hav, h, x.heapSorts[h])
			hav.heap[h] = fresh("lh!"+h, x.heapSorts[h])
		}
		for h, refs := range w.heaps {
			if w.whole[h] {
				continue
			}
			arr := x.heapArr(hav, h, x.heapSorts[h])
			var ids []int
			for id := range refs {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			_, vs := arrSorts(x.heapSorts[h])
			for _, id := range ids {
				arr = mkStore(arr, refs[id], fresh("lh!"+h, vs))
			}
			hav.heap[h] = arr
			if strings.HasPrefix(h, "ML:") {
				for _, id := range ids {
					hav.assume(mkLe(mkInt(0), mkSelect(arr, refs[id])))
				}
			}
		}
		d.setVars(hav, vals)
	}
	cellMark := x.cellSeq

	exec := func(st *State, checking bool, back func(*State, []Val)) {
		lc := &loopCtx{fr: d.fr, checking: checking}
		st.loops = append(st.loops, lc)
		d.run(st, lc, back)
	}

	// 1. What does the loop write?
	for round := 0; ; round++ {
		havoc()
		rec := &recorder{}
		x.recs = append(x.recs, rec)
		x.quiet++
		sz := w.size()
		exec(hav.clone(), true, func(*State, []Val) {})
		x.quiet--
		x.recs = x.recs[:len(x.recs)-1]
		x.collect(w, rec, mark, cellMark)
		if w.size() == sz {
			break
		}
		if round > 30 {
			panic(unsup("loop write set does not stabilise"))
		}
	}
	for c := range w.cells {
		x.record(writeRec{cell: c})
	}
	for h := range w.whole {
		x.record(writeRec{heap: h})
	}
	for h, refs := range w.heaps {
		for _, r := range refs {
			x.record(writeRec{heap: h, ref: r})
		}
	}
	// Arrays first touched inside the loop exist at entry too.
	for h := range w.whole {
		x.heapArr(st0, h, x.heapSorts[h])
		x.heapArr(pre, h, x.heapSorts[h])
	}
	for h := range w.heaps {
		x.heapArr(st0, h, x.heapSorts[h])
		x.heapArr(pre, h, x.heapSorts[h])
	}

	// 2. Candidates.
	cands := x.candidates(st0, pre, d, w, preTop)
	var initVals []Val
	for _, v := range d.vars {
		initVals = append(initVals, v.init)
	}
	if len(cands) > 0 {
		ent := st0.clone()
		d.setVars(ent, initVals)
		cc := &candCtx{st: ent, pre: pre, n: mkInt(0), lv: initVals}
		var first, rest []*cand
		for _, c := range cands {
			if c.user && strings.HasPrefix(c.cl.Name, "the-") {
				first = append(first, c)
			}
		}
		for len(first) > 0 { // one selecting clause after the other
			var now, later []*cand
			for _, c := range first {
				if c.cl == first[0].cl {
					now = append(now, c)
				} else {
					later = append(later, c)
				}
			}
			kept := map[*cand]bool{}
			for _, c := range x.filterCands(ent, now, cc, nil) {
				kept[c] = true
			}
			rest = nil
			for _, c := range cands {
				if kept[c] || c.cl != first[0].cl {
					rest = append(rest, c)
				}
			}
			keepSel := selectedBy(rest, first[0].cl)
			cands = nil
			live := map[*cand]bool{}
			for _, c := range keepSel {
				cands = append(cands, c)
				live[c] = true
			}
			first = nil
			for _, c := range later {
				if live[c] {
					first = append(first, c)
				}
			}
		}
		cands = x.filterCands(ent, cands, cc, nil)
	}
	ls := x.loopLog[d.name]
	if ls == nil {
		ls = &loopStat{inv: map[string]bool{}}
		x.loopLog[d.name] = ls
	}
	ls.cands = len(cands)
	for {
		alive0 = cands
		havoc()
		s := hav.clone()
		cc := &candCtx{st: s, pre: pre, n: nT, lv: vals}
		var keep []*cand
		for _, c := range cands {
			if t := x.evalCand(c, cc); t != nil {
				s.assume(t)
				keep = append(keep, c)
			}
		}
		cands = keep
		hav = s
		if len(cands) == 0 {
			break
		}
		n0 := len(cands)
		alive := cands
		x.quiet++
		ls.rounds++
		exec(hav.clone(), true, func(bs *State, nv []Val) {
			if len(alive) == 0 || bs.dead() {
				return
			}
			for i, v := range d.vars {
				if t, ok := nv[i].(*Term); ok {
					bs.wf(v.typ, t)
				} else if c, ok := nv[i].(*Clo); ok {
					nv[i] = x.term(bs, c)
				}
			}
			d.setVars(bs, nv)
			alive = x.filterCands(bs, alive, &candCtx{st: bs, pre: pre, n: mkAdd(nT, mkInt(1)), lv: nv}, nil)
		})
		x.quiet--
		cands = selected(alive)
		if len(cands) == n0 {
			break
		}
	}
	ls.kept = len(cands)
	if x.quiet == 0 {
		ls.names = nil
		for _, c := range cands {
			ls.names = append(ls.names, c.name)
		}
		for _, c := range cands {
			if c.user {
				ls.inv[c.cl.Name] = true
				x.invProved[c.cl.Name] = true
			}
		}
		// Each retained invariant is an obligation that was discharged at entry and on every back edge.
		for _, c := range cands {
			x.obls = append(x.obls, &Obl{Func: x.key, Name: "loop " + d.name + ":" + c.name, Status: "proved", Solver: "inference", Goal: tTrue})
		}
	}
	// 3. Final pass.
	if os.Getenv("GOCV_LOOPS") != "" && x.quiet == 0 {
		var ns []string
		for _, c := range cands {
			ns = append(ns, c.name)
		}
		fmt.Fprintf(os.Stderr, "loop %s: writes whole=%v heaps=%v cells=%d; inv: %s\n", d.name, sortedKeys(w.whole), sortedKeys(w.heaps), len(w.cells), strings.Join(ns, "; "))
	}
	x.smoke(st0, hav, "loop "+d.name)
	exec(hav, false, func(*State, []Val) {})
}

var q0 atomic.Int64

// filterCands keeps the candidates provable in the given state.
func (x *Exec) filterCands(st *State, cands []*cand, cc *candCtx, _ any) []*cand {
	var ok []*cand
	var goals []*Term
	var sub, evaluated []*cand
	for _, c := range cands {
		t := x.evalCand(c, cc)
		if t == nil {
			continue
		}
		evaluated = append(evaluated, c)
		t = st.simp(t)
		switch t.Op {
		case "true":
			ok = append(ok, c)
		case "false":
			// May still hold on an infeasible path.
			goals = append(goals, t)
			sub = append(sub, c)
		default:
			goals = append(goals, t)
			sub = append(sub, c)
		}
	}
	if len(goals) == 0 {
		return ok
	}
	to := x.candTimeout
	if len(goals) > 1 {
		r := x.solver.check(st.pc, mkAnd(goals...), 1.0)
		if r.Status == "proved" {
			return evaluated
		}
	}
	rs := x.solver.checkAll(st.pc, goals, to)
	keep := map[*cand]bool{}
	for _, c := range ok {
		keep[c] = true
	}
	for i, r := range rs {
		if r.Status == "proved" {
			keep[sub[i]] = true
			continue
		}
		if sub[i].user && r.Status == "unknown" && goals[i].Op != "false" {
			r = x.solver.check(st.pc, goals[i], x.userTimeout)
			if r.Status == "proved" {
				keep[sub[i]] = true
				continue
			}
		}
		if os.Getenv("GOCV_DROP") != "" && (sub[i].user || os.Getenv("GOCV_DROP") == "all") {
			fmt.Fprintf(os.Stderr, "  drop %s (%s) at %s n=%s\n", sub[i].name, r.Status, strings.Join(st.trace, "/"), cc.n)
			if d := os.Getenv("GOCV_DUMPDROP"); d != "" {
				q := x.solver.build(st.pc, goals[i])
				os.WriteFile(filepath.Join(d, fmt.Sprintf("drop-%s-%d.smt2", sub[i].name, q0.Add(1))), []byte(q.text+"(check-sat)\n"), 0o644)
				if g, ok := x.solver.ground(q); ok {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("drop-%s-%d-inst.smt2", sub[i].name, q0.Load())), []byte(g), 0o644)
				}
			}
			if os.Getenv("GOCV_DROP") == "v" {
				fmt.Fprintf(os.Stderr, "   goal: %s\n", goals[i])
				if r.Status == "failed" {
					fmt.Fprintln(os.Stderr, x.solver.model(st.pc, goals[i], 5))
				}
			}
		}
	}
	var out []*cand
	for _, c := range cands {
		if keep[c] {
			out = append(out, c)
		}
	}
	return out
}

// candidates builds the candidate invariants of a loop.
func (x *Exec) candidates(st0, pre *State, d *loopDef, w *locSet, preTop *Term) []*cand {
	var out []*cand
	add := func(name string, f func(c *candCtx) *Term) { out = append(out, &cand{name: name, f: f}) }
	type mv struct {
		name string
		t    types.Type
		get  func(c *candCtx) (*Term, bool)
		init *Term
	}
	var mvs []mv
	for i, v := range d.vars {
		it, ok := v.init.(*Term)
		if !ok {
			continue
		}
		i := i
		mvs = append(mvs, mv{fmt.Sprintf("v%d", i), v.typ, func(c *candCtx) (*Term, bool) { t, ok := c.lv[i].(*Term); return t, ok }, it})
	}
	var cs []int
	for c := range w.cells {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for _, c := range cs {
		c := c
		a := x.cellInfo[c]
		if a == nil {
			continue
		}
		it, ok := st0.cells[c].(*Term)
		if !ok {
			continue
		}
		mvs = append(mvs, mv{fmt.Sprintf("c%d", c), deref(a.Type()), func(cc *candCtx) (*Term, bool) { t, ok := cc.st.cells[c].(*Term); return t, ok }, it})
	}
	for _, m := range mvs {
		m := m
		g := func(f func(t *Term, c *candCtx) *Term) func(c *candCtx) *Term {
			return func(c *candCtx) *Term {
				t, ok := m.get(c)
				if !ok {
					return nil
				}
				return f(t, c)
			}
		}
		add(m.name+"==init", g(func(t *Term, c *candCtx) *Term {
			if t.Op == "+" && t != m.init && c.n.Op != "int" {
				return nil // stepped
			}
			return mkEq(t, m.init)
		}))
		switch m.init.Sort {
		case sInt:
			if isInteger(m.t) {
				add(m.name+"==init+n", g(func(t *Term, c *candCtx) *Term { return mkEq(t, mkAdd(m.init, c.n)) }))
				add(m.name+">=init", g(func(t *Term, c *candCtx) *Term { return mkLe(m.init, t) }))
			}
		case sSlice:
			add(m.name+".own", g(func(t *Term, c *candCtx) *Term {
				return mkOr(mkEq(slRef(t), slRef(m.init)), mkLt(preTop, slRef(t)))
			}))
			add(m.name+".off", g(func(t *Term, c *candCtx) *Term { return mkEq(slOff(t), slOff(m.init)) }))
			add(m.name+".len+n", g(func(t *Term, c *candCtx) *Term { return mkEq(slLen(t), mkAdd(slLen(m.init), c.n)) }))
			add(m.name+".len>=", g(func(t *Term, c *candCtx) *Term { return mkLe(slLen(m.init), slLen(t)) }))
			add(m.name+".len<=n", g(func(t *Term, c *candCtx) *Term { return mkLe(slLen(t), mkAdd(slLen(m.init), c.n)) }))
		}
	}
	for i := range mvs {
		for j := i + 1; j < len(mvs); j++ {
			if mvs[i].init.Sort == sSlice && mvs[j].init.Sort == sSlice && types.Identical(mvs[i].t, mvs[j].t) {
				a, b := mvs[i], mvs[j]
				add(a.name+"#"+b.name, func(c *candCtx) *Term {
					p, ok1 := a.get(c)
					q, ok2 := b.get(c)
					if !ok1 || !ok2 {
						return nil
					}
					return mkOr(mkNot(mkEq(slRef(p), slRef(q))), mkEq(slRef(p), mkInt(0)))
				})
			}
		}
	}
	if d.bounds != nil {
		add("bound", func(c *candCtx) *Term {
			bs := d.bounds(c.st)
			if len(bs) == 0 {
				return nil
			}
			for i, v := range d.vars {
				if v.key == bs[0].v {
					t, ok := c.lv[i].(*Term)
					if !ok {
						return nil
					}
					return mkLe(mkAdd(t, bs[0].add), bs[0].bound)
				}
			}
			return nil
		})
	}
	if d.iter != nil {
		it := d.iter
		kt, _, _ := mapTypes(it.mt)
		add("seen<=dom0", func(c *candCtx) *Term {
			seen := c.st.cells[it.cell].(*Term)
			k := mkBound("k", typeSort(kt))
			return mkForall([]*Term{k}, mkImp(mkSelect(seen, k), mkSelect(it.dom0, k)), []*Term{mkSelect(seen, k)})
		})
	}
	var fwhole map[string]bool
	var frefs map[string][]*Term
	for _, h := range sortedKeys(w.whole) {
		h := h
		srt := x.heapSorts[h]
		if !strings.HasPrefix(srt, "(Array Int") || strings.HasPrefix(h, "G:") {
			continue
		}
		refs := w.heaps[h]
		frame := func(excl bool) func(c *candCtx) *Term {
			return func(c *candCtx) *Term {
				a, a0 := c.st.heap[h], pre.heap[h]
				if a == a0 {
					return tTrue
				}
				r := mkBound("r", sInt)
				hyp := mkLe(r, preTop)
				if excl {
					var ids []int
					for id := range refs {
						ids = append(ids, id)
					}
					sort.Ints(ids)
					for _, id := range ids {
						hyp = mkAnd(hyp, mkNot(mkEq(r, refs[id])))
					}
				}
				return mkForall([]*Term{r}, mkImp(hyp, mkEq(mkSelect(a, r), mkSelect(a0, r))), []*Term{mkSelect(a, r)})
			}
		}
		add("frame("+h+")", frame(false))
		if fwhole == nil {
			fwhole, frefs = x.modSets(x.entry, x.con, x.names)
		}
		if !fwhole[h] && !x.con.NoFrame && x.entry != nil {
			add("fframe("+h+")", func(c *candCtx) *Term {
				a, a0 := c.st.heap[h], x.entry.heap[h]
				if a0 == nil {
					a0 = x.heap0[h]
				}
				if a == nil || a0 == nil || a == a0 {
					return tTrue
				}
				return x.frameGoal(c.st, a, a0, nilElems(h, frefs[h]), x.entry)
			})
		}
		if len(refs) > 0 {
			add("frame-("+h+")", frame(true))
		}
		// Memory of element type: initial slices of loop variables may be written in place past their length.
		if strings.HasPrefix(h, "M:") {
			for _, m := range mvs {
				m := m
				if m.init.Sort == sSlice && "M:"+typeKey(m.t.Underlying().(*types.Slice).Elem()) == h {
					add("framex("+h+","+m.name+")", func(c *candCtx) *Term {
						a, a0 := c.st.heap[h], pre.heap[h]
						r := mkBound("r", sInt)
						return mkForall([]*Term{r}, mkImp(mkAnd(mkLe(r, preTop), mkOr(mkEq(r, mkInt(0)), mkNot(mkEq(r, slRef(m.init))))), mkEq(mkSelect(a, r), mkSelect(a0, r))), []*Term{mkSelect(a, r)})
					})
				}
			}
		}
	}
	// Values computed before the loop may be named by contract invariants as well.
	for i, v := range d.outer {
		t, ok := x.tryVal(st0, d.fr, v)
		if !ok {
			continue
		}
		tt, ok := t.(*Term)
		if !ok {
			continue
		}
		mvs = append(mvs, mv{fmt.Sprintf("o%d", i), v.Type(), func(*candCtx) (*Term, bool) { return tt, true }, tt})
	}
	// Contract invariants.
	var invs []*Clause
	for _, cl := range x.con.Clauses {
		if cl.Kind == "inv" && x.clauseOn(cl) {
			invs = append(invs, cl)
		}
	}
	for _, cl := range invs {
		cl := cl
		if e := cl.E; e != nil && e.Op == "==>" && len(e.Args) == 2 && e.Args[0].Op == "==" && e.Args[0].Args[0].Op == "id" && (e.Args[0].Args[0].Name == "$rng" || e.Args[0].Args[0].Name == "$map") && !exprMentions(e.Args[0], cl.Meta) {
			// "$rng == E ==> ..." selects the loops over E.
			if !x.selects(st0, pre, d, e.Args[0]) {
				continue
			}
		}
		var assign func(i int, chosen []int)
		pool := make([][]int, len(cl.Meta))
		skip := false
		for i, p := range cl.Meta {
			t, err := x.tryType(p.Type)
			if err != nil {
				skip = true
				break
			}
			for j, m := range mvs {
				if strings.HasPrefix(p.Name, "?var_") && strings.HasPrefix(m.name, "o") {
					continue // variables of the loop only
				}
				if t != nil && types.Identical(t, m.t) || t != nil && types.Identical(t.Underlying(), m.t.Underlying()) && typeSort(t) == typeSort(m.t) && !isBasicT(t) {
					pool[i] = append(pool[i], j)
				}
			}
			if len(pool[i]) == 0 {
				skip = true
			}
		}
		if skip {
			continue
		}
		cnt := 0
		assign = func(i int, chosen []int) {
			if cnt > 60 {
				return
			}
			if i == len(cl.Meta) {
				cnt++
				ch := append([]int(nil), chosen...)
				nm := cl.Name
				bind := map[string]string{}
				for k, c := range ch {
					bind[cl.Meta[k].Name] = mvs[c].name
					nm += fmt.Sprintf(",%s=%s", cl.Meta[k].Name, mvs[c].name)
				}
				out = append(out, &cand{name: nm, user: true, cl: cl, bind: bind, f: func(c *candCtx) *Term {
					env := &SEnv{x: x, st: c.st, old: x.entry, pre: c.pre, vars: map[string]EV{}}
					for n, v := range x.names {
						env.vars[n] = v
					}
					env.vars["$n"] = tv(c.n, tInt)
					if d.iter == nil {
						env.vars["$i"] = tv(c.n, tInt)
					}
					if d.iter != nil {
						s := c.st.cells[d.iter.cell].(*Term)
						env.vars["$seen"] = EV{v: s, s: s.Sort}
						env.vars["$map"] = EV{v: d.iter.ref, t: d.iter.mt, s: sInt}
					}
					if d.rng != nil {
						if v, ok := d.rng(c.st); ok {
							env.vars["$rng"] = v
						}
					}
					for k, ci := range ch {
						t, ok := mvs[ci].get(c)
						if !ok {
							return nil
						}
						env.vars[cl.Meta[k].Name] = EV{v: t, t: mvs[ci].t, s: t.Sort}
					}
					return env.bool(cl.E)
				}})
				return
			}
			for _, j := range pool[i] {
				dup := false
				for _, c := range chosen {
					dup = dup || c == j
				}
				if !dup {
					assign(i+1, append(chosen, j))
				}
			}
		}
		assign(0, nil)
	}
	return out
}

func hasOp(t *Term, op string, seen map[*Term]bool) bool {
	if t.Op == op {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.Args {
		if hasOp(a, op, seen) {
			return true
		}
	}
	return false
}

func exprMentions(e *Expr, ps []Param) bool {
	if e.Op == "id" {
		for _, p := range ps {
			if p.Name == e.Name {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if exprMentions(a, ps) {
			return true
		}
	}
	return false
}

// selects says whether the loop ranges over the slice an invariant is about.
func (x *Exec) selects(st0, pre *State, d *loopDef, e *Expr) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	var v EV
	if e.Args[0].Name == "$map" {
		if d.iter == nil {
			return false
		}
		v = EV{v: d.iter.ref, t: d.iter.mt, s: sInt}
	} else {
		if d.rng == nil {
			return false
		}
		var is bool
		if v, is = d.rng(st0); !is {
			return false
		}
	}
	env := &SEnv{x: x, st: st0, old: x.entry, pre: pre, vars: map[string]EV{}}
	for n, v := range x.names {
		env.vars[n] = v
	}
	env.vars[e.Args[0].Name] = v
	t := env.bool(e)
	if t == tTrue {
		return true
	}
	if !hasOp(t, "store", map[*Term]bool{}) {
		return false
	}
	return x.solver.check(st0.pc, t, 2).Status == "proved"
}

func isBasicT(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func (x *Exec) tryType(s string) (t types.Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	t, _ = x.resolveType(s)
	return t, nil
}

// rangeLoop models m.Range(f): each key present is visited once.
func (x *Exec) rangeLoop(st *State, fr *frame, mt types.Type, m *Term, c *Clo, in ssa.Instruction, k func(*State, Val)) {
	x.sharedMap(st, mt, m)
	kt, vt, _ := mapTypes(mt)
	ks := typeSort(kt)
	cell := x.newCell(st, mkConstArr(arrSort(ks, sBool), tFalse))
	it := &mapIter{cell: cell, ref: m, mt: mt, dom0: x.mapDom(st, mt, m)}
	x.iterCells[cell] = it
	lf := x.newFrame(fr.fn, fr, nil)
	d := &loopDef{fr: lf, fn: fr.fn, name: fmt.Sprintf("%s range", funcKey(c.fn)), iter: it, pos: in.Pos()}
	d.setVars = func(*State, []Val) {}
	leave := func(st *State, lc *loopCtx) {
		if lc.checking {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
		k(st, nil)
	}
	d.run = func(st *State, lc *loopCtx, back func(*State, []Val)) {
		x.sharedMap(st, mt, m)
		s2 := st.clone()
		seen := st.cells[cell].(*Term)
		q := mkBound("k", ks)
		domN := x.mapDom(s2, mt, m)
		s2.assume(mkForall([]*Term{q}, mkImp(mkAnd(mkSelect(domN, q), mkSelect(it.dom0, q)), mkSelect(seen, q)), []*Term{mkSelect(domN, q)}))
		leave(s2, lc)
		kk := fresh("key", ks)
		st.assume(mkSelect(x.mapDom(st, mt, m), kk))
		st.assume(mkNot(mkSelect(seen, kk)))
		st.wf(kt, kk)
		v, _ := x.mapGet(st, mt, m, kk)
		st.wf(vt, v)
		x.record(writeRec{cell: cell})
		st.cells[cell] = mkStore(seen, kk, tTrue)
		x.inline(st, lf, c.fn, []Val{kk, st.simpIte(v)}, c.binds, func(st *State, r Val) {
			ok := st.simp(x.term(st, r))
			if ok.Op != "false" {
				s3 := st.clone()
				s3.assume(ok)
				back(s3, nil)
			}
			if ok.Op != "true" {
				s4 := st.clone()
				s4.assume(mkNot(ok))
				leave(s4, lc)
			}
		})
	}
	x.runLoop(st, d)
}

// visitLoop models o.Visit(f): f is called for each property in order.
func (x *Exec) visitLoop(st *State, fr *frame, o *Term, c *Clo, in ssa.Instruction, k func(*State, Val)) {
	n := ufn("s!visitLen", sInt, o)
	st.assume(mkLe(mkInt(0), n))
	lf := x.newFrame(fr.fn, fr, nil)
	key := envKey{lf.id, in.(ssa.Value)}
	v := &lvar{key: key, typ: types.Typ[types.Int], init: mkInt(0)}
	d := &loopDef{fr: lf, fn: fr.fn, name: fmt.Sprintf("%s visit", funcKey(c.fn)), pos: in.Pos(), vars: []*lvar{v}}
	d.setVars = func(st *State, vals []Val) { st.env[key] = vals[0] }
	d.bounds = func(*State) []boundInfo { return []boundInfo{{key, mkInt(0), n}} }
	d.run = func(st *State, lc *loopCtx, back func(*State, []Val)) {
		i := x.term(st, st.env[key])
		if !lc.checking {
			s2 := st.clone()
			s2.assume(mkLe(n, i))
			s2.loops = s2.loops[:len(s2.loops)-1]
			k(s2, nil)
		}
		st.assume(mkLt(i, n))
		args := []Val{mkBytes(ufn("s!visitKey", sStr, o, i)), ufn("s!visitVal", sInt, o, i)}
		x.inline(st, lf, c.fn, args, c.binds, func(st *State, r Val) {
			back(st, []Val{mkAdd(i, mkInt(1))})
		})
	}
	x.runLoop(st, d)
}
