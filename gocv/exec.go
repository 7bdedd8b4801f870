package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec verifies one function contract.
type Exec struct {
	P     *Program
	sp    *Specs
	prop  string
	fn    *ssa.Function
	con   *Contract
	key   string
	names map[string]EV // contract parameter names
	entry *State

	heapSorts                map[string]string
	heap0                    map[string]*Term
	prov                     map[int]string
	clos                     map[int64]*Clo
	cloSeq                   int64
	cellSeq                  int
	frameSeq                 int
	recs                     []*recorder
	quiet                    int // >0: obligations are not recorded
	paths                    int
	steps                    int
	obls                     []*Obl
	returns                  int
	smokes                   []smokeRec
	retPCs                   [][]*Term
	loopInfo                 map[*ssa.Function]*loopInfo
	trusted                  map[string]bool
	depth                    int
	loopLog                  map[string]*loopStat
	cellInfo                 map[int]*ssa.Alloc
	iterCells                map[int]*mapIter
	sharedCtx                *Shared
	notes                    []string
	dropped                  map[string]bool
	curLoops                 int
	goHook                   func(st *State, fr *frame, in *ssa.Go, k func(*State))
	condConst                map[*ssa.Alloc]bool
	topFuel                  int
	callSelf                 *Term
	inlined                  map[string]bool
	usedContracts            map[string]bool
	solver                   *Solver
	invProved                map[string]bool
	candTimeout, userTimeout float64
}

// Obl is one proof obligation.
type Obl struct {
	Func  string
	Name  string
	Path  string
	Props []string
	PC    []*Term `json:"-"`
	Goal  *Term   `json:"-"`
	Note  string
	Pos   string
	// Result.
	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Model  string
	// Details of an open obligation.
	GoalText string
	Cex      string
	Consts   []string
}

type frame struct {
	id     int
	fn     *ssa.Function
	ret    func(st *State, res []Val)
	parent *frame
	root   bool
	defs   bool // has defers
	binds  map[*ssa.FreeVar]Val
	noRec  bool
	// recoverable panics: fn has a deferred function calling recover.
	named []*ssa.Alloc
}

func (x *Exec) newFrame(fn *ssa.Function, parent *frame, ret func(*State, []Val)) *frame {
	x.frameSeq++
	return &frame{id: x.frameSeq, fn: fn, parent: parent, ret: ret}
}

func (st *State) set(fr *frame, v ssa.Value, val Val) { st.env[envKey{fr.id, v}] = val }

func (x *Exec) newCell(st *State, v Val) int {
	x.cellSeq++
	st.cells[x.cellSeq] = v
	return x.cellSeq
}

// val evaluates an SSA operand.
func (x *Exec) val(st *State, fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return x.funcVal(v, nil)
	case *ssa.Global:
		t := deref(v.Type())
		return &Addr{heap: "G:" + v.Pkg.Pkg.Name() + "." + v.Name(), typ: t}
	case *ssa.FreeVar:
		if b, ok := fr.binds[v]; ok {
			return b
		}
		panic(unsup("free variable %s", v.Name()))
	case *ssa.Builtin:
		return v
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		panic(unsup("undefined SSA value %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) funcVal(f *ssa.Function, binds []Val) Val {
	if len(binds) == 0 {
		for id, c := range x.clos {
			if c.fn == f && len(c.binds) == 0 {
				_ = id
				return c
			}
		}
	}
	x.cloSeq++
	c := &Clo{fn: f, binds: binds, id: x.cloSeq}
	x.clos[c.id] = c
	return c
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch typeSort(t) {
	case sInt:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(unsup("constant %s", c))
		}
		return mkBig(n)
	case sBool:
		return mkBool(constant.BoolVal(c.Value))
	case sStr:
		return mkStr(constant.StringVal(c.Value))
	case sF64:
		f, _ := constant.Float64Val(c.Value)
		return floatConst(f)
	}
	panic(unsup("constant %s of type %s", c, t))
}

func floatConst(f float64) *Term {
	if f == float64(int64(f)) {
		return ufn("f64ofint", sF64, mkInt(int64(f)))
	}
	return ufn(fmt.Sprintf("f64_%v", f), sF64)
}

func (x *Exec) t(st *State, fr *frame, v ssa.Value) *Term { return x.term(st, x.val(st, fr, v)) }

// oblige records a proof obligation.
func (x *Exec) oblige(st *State, name string, props []string, goal *Term, pos token.Pos) {
	if x.quiet > 0 {
		return
	}
	if st.dead() {
		return
	}
	p := ""
	if pos.IsValid() {
		ps := x.P.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
	}
	g := st.simp(goal)
	o := &Obl{Func: x.key, Name: name, Path: strings.Join(st.trace, "/"), Props: props, PC: st.pc, Goal: g, Pos: p}
	if g.Op == "true" {
		o.Status = "proved"
		o.Solver = "simplifier"
	}
	x.obls = append(x.obls, o)
}

func (x *Exec) safe(st *State, what string, goal *Term, pos token.Pos) {
	if !x.con.NoSafe {
		x.oblige(st, "safe:"+what, x.safeProps(), goal, pos)
	}
	st.assume(goal)
}

func (x *Exec) safeProps() []string { return nil }

type pathLimit struct{}

func (x *Exec) tick() {
	x.steps++
	if x.steps > 3000000 {
		panic(unsup("too many steps in %s", x.key))
	}
}

// ---- blocks ----

func (x *Exec) jump(st *State, fr *frame, from, to *ssa.BasicBlock) {
	// Leaving loops of this frame.
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.fr != fr || lc.body[to] {
			break
		}
		if lc.checking {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if n := len(st.loops); n > 0 && st.loops[n-1].fr == fr && st.loops[n-1].header == to {
		st.loops[n-1].back(st, from)
		return
	}
	li := x.loopsOf(fr.fn)
	if body, ok := li.headers[to]; ok {
		x.startLoop(st, fr, from, to, body)
		return
	}
	x.enter(st, fr, from, to)
}

func (x *Exec) phis(st *State, fr *frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(st, fr, p.Edges[pi])
		if _, isA := v.(*Addr); !isA {
			if _, isT := v.(Tuple); !isT {
				v = x.term(st, v)
			}
		}
		out[p] = v
	}
	return out
}

func (x *Exec) enter(st *State, fr *frame, from, to *ssa.BasicBlock) {
	if from != nil {
		for p, v := range x.phis(st, fr, from, to) {
			st.set(fr, p, v)
		}
	}
	x.instrs(st, fr, to, 0)
}

// fork runs f on a copy of the state.
func (x *Exec) instrs(st *State, fr *frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.tick()
		if st.dead() {
			return
		}
		in := b.Instrs[i]
		next := i + 1
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := st.simp(x.t(st, fr, in.Cond))
			switch c.Op {
			case "true":
				x.jump(st, fr, b, b.Succs[0])
				return
			case "false":
				x.jump(st, fr, b, b.Succs[1])
				return
			}
			s2 := st.clone()
			ln := x.P.prog.Fset.Position(in.Cond.Pos()).Line
			st.assume(c)
			st.trace = append(st.trace, fmt.Sprintf("%dT", ln))
			s2.assume(mkNot(c))
			s2.trace = append(s2.trace, fmt.Sprintf("%dF", ln))
			x.paths++
			if x.feasible(st) {
				x.jump(st, fr, b, b.Succs[0])
			}
			if x.feasible(s2) {
				x.jump(s2, fr, b, b.Succs[1])
			}
			return
		case *ssa.Jump:
			x.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, fr, r))
			}
			x.popLoops(st, fr, func(st *State) { fr.ret(st, res) })
			return
		case *ssa.Panic:
			if x.recovers(fr) {
				x.unwind(st, fr)
				return
			}
			x.panicking(st, fr, in.Pos())
			return
		case *ssa.RunDefers:
			x.runDefers(st, fr, func(st *State) { x.instrs(st, fr, b, next) })
			return
		case *ssa.Call:
			x.call(st, fr, &in.Call, in, func(st *State, r Val) {
				if r != nil {
					st.set(fr, in, r)
				}
				x.instrs(st, fr, b, next)
			})
			return
		case *ssa.Go:
			x.doGo(st, fr, in, func(st *State) { x.instrs(st, fr, b, next) })
			return
		case *ssa.Defer:
			d := deferRec{call: in.Call, site: in}
			if !in.Call.IsInvoke() {
				d.fn = x.val(st, fr, in.Call.Value)
			} else {
				d.fn = x.val(st, fr, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				x.recv(st, fr, in, func(st *State, v Val) {
					st.set(fr, in, v)
					x.instrs(st, fr, b, next)
				})
				return
			}
			st.set(fr, in, x.unop(st, fr, in))
		case *ssa.Send:
			x.send(st, fr, in, func(st *State) { x.instrs(st, fr, b, next) })
			return
		case *ssa.Next:
			it, ok := x.val(st, fr, in.Iter).(*mapIter)
			if !ok {
				panic(unsup("range over %s", in.Iter.Type()))
			}
			if it.str != nil {
				panic(unsup("range over string"))
			}
			kt, vt, _ := mapTypes(it.mt)
			s2 := st.clone()
			// Exhausted.
			seen := st.cells[it.cell].(*Term)
			k := mkBound("k", typeSort(kt))
			domN := x.mapDom(s2, it.mt, it.ref)
			s2.assume(mkForall([]*Term{k}, mkImp(mkAnd(mkSelect(domN, k), mkSelect(it.dom0, k)), mkSelect(seen, k)), []*Term{mkSelect(domN, k)}))
			s2.set(fr, in, Tuple{tFalse, zero(kt), zero(vt)})
			// One more key.
			kk := fresh("key", typeSort(kt))
			st.assume(mkSelect(x.mapDom(st, it.mt, it.ref), kk))
			st.assume(mkNot(mkSelect(seen, kk)))
			st.wf(kt, kk)
			v, _ := x.mapGet(st, it.mt, it.ref, kk)
			x.record(writeRec{cell: it.cell})
			st.cells[it.cell] = mkStore(seen, kk, tTrue)
			st.set(fr, in, Tuple{tTrue, kk, st.simpIte(v)})
			x.instrs(st, fr, b, next)
			x.instrs(s2, fr, b, next)
			return
		default:
			x.simple(st, fr, in)
		}
	}
}

// simpIte resolves ite's whose condition is known.
func (s *State) simpIte(t *Term) *Term {
	for t.Op == "ite" {
		c := s.simp(t.Args[0])
		if c.Op == "true" {
			t = t.Args[1]
		} else if c.Op == "false" {
			t = t.Args[2]
		} else {
			break
		}
	}
	return t
}

func (x *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	return true
}

// popLoops removes the loop contexts of a returning frame.
func (x *Exec) popLoops(st *State, fr *frame, k func(*State)) {
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.fr != fr {
			break
		}
		if lc.checking {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	k(st)
}

// ---- panics and defers ----

func (x *Exec) recovers(fr *frame) bool {
	for f := fr; f != nil; f = f.parent {
		if callsRecover(f.fn) {
			return true
		}
	}
	return false
}

// callsRecover: the function defers a closure that calls recover.
func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var g *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				g = v.Fn.(*ssa.Function)
			case *ssa.Function:
				g = v
			}
			if g == nil {
				continue
			}
			for _, gb := range g.Blocks {
				for _, gi := range gb.Instrs {
					if c, ok := gi.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// unwind runs deferred calls up the stack until a frame recovers.
func (x *Exec) unwind(st *State, fr *frame) {
	x.popLoops(st, fr, func(st *State) {
		st.panicVal[fr.id] = true
		x.runDefers(st, fr, func(st *State) {
			if st.panicVal[fr.id] {
				if fr.parent == nil {
					x.panicking(st, fr, token.NoPos)
					return
				}
				x.unwind(st, fr.parent)
				return
			}
			// Recovered: return the current results.
			if fr.fn.Recover != nil {
				x.instrs(st, fr, fr.fn.Recover, 0)
				return
			}
			var res []Val
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				res = append(res, zero(fr.fn.Signature.Results().At(i).Type()))
			}
			fr.ret(st, res)
		})
	})
}

func (x *Exec) panicking(st *State, fr *frame, pos token.Pos) {
	if x.con.MayPanic {
		return
	}
	if !x.con.NoSafe {
		x.oblige(st, "safe:no-panic", x.safeProps(), tFalse, pos)
	}
}

func (x *Exec) runDefers(st *State, fr *frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	x.invoke(st, fr, &d.call, d.fn, d.args, d.site, func(st *State, _ Val) { x.runDefers(st, fr, k) })
}

// ---- simple instructions ----

func (x *Exec) simple(st *State, fr *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		st.set(fr, in, x.alloc(st, fr, in))
	case *ssa.BinOp:
		st.set(fr, in, x.binop(st, in.Op, x.val(st, fr, in.X), x.val(st, fr, in.Y), in.X.Type(), in.Pos()))
	case *ssa.ChangeType:
		v := x.val(st, fr, in.X)
		st.set(fr, in, v)
	case *ssa.ChangeInterface:
		st.set(fr, in, x.val(st, fr, in.X))
	case *ssa.Convert:
		st.set(fr, in, x.convert(st, x.val(st, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		tp, ok := x.val(st, fr, in.Tuple).(Tuple)
		if !ok {
			panic(unsup("extract from non-tuple"))
		}
		st.set(fr, in, tp[in.Index])
	case *ssa.Field:
		t := x.t(st, fr, in.X)
		if dts[t.Sort] == nil {
			panic(unsup("field of opaque %s", t.Sort))
		}
		v := mkSel(t.Sort, in.Field, t)
		st.wf(in.Type(), v)
		st.set(fr, in, v)
	case *ssa.FieldAddr:
		b := x.val(st, fr, in.X)
		if t, ok := b.(*Term); ok {
			x.nilCheck(st, t, in.Pos())
		}
		st.set(fr, in, x.fieldAddr(st, b, deref(in.X.Type()), in.Field))
	case *ssa.Index:
		i := x.t(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			s := x.t(st, fr, in.X)
			x.safe(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(s))), in.Pos())
			st.set(fr, in, strAt(s, i))
		case *types.Array:
			st.set(fr, in, mkSelect(x.t(st, fr, in.X), i))
		default:
			panic(unsup("index of %s", u))
		}
	case *ssa.IndexAddr:
		i := x.t(st, fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			if isByte(u.Elem()) {
				b := x.t(st, fr, in.X)
				x.safe(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(bsStr(b)))), in.Pos())
				st.set(fr, in, &Addr{heap: "B:", ref: b, idx: i, typ: u.Elem()})
				return
			}
			s := x.t(st, fr, in.X)
			x.safe(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, slLen(s))), in.Pos())
			st.set(fr, in, &Addr{heap: memHeap(u.Elem()), ref: slRef(s), idx: mkAdd(slOff(s), i), typ: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a, ok := x.val(st, fr, in.X).(*Addr)
			if !ok {
				panic(unsup("array pointer"))
			}
			n := *a
			n.path = append(append([]step(nil), a.path...), step{field: -1, idx: i, sort: typeSort(u.Elem())})
			n.typ = at.Elem()
			st.set(fr, in, &n)
		default:
			panic(unsup("indexaddr of %s", u))
		}
	case *ssa.Lookup:
		if isString(in.X.Type()) {
			s, i := x.t(st, fr, in.X), x.t(st, fr, in.Index)
			x.safe(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkLen(s))), in.Pos())
			st.set(fr, in, strAt(s, i))
			return
		}
		m, k := x.t(st, fr, in.X), x.t(st, fr, in.Index)
		x.mapGuard(st, in.X, false)
		v, ok := x.mapGet(st, in.X.Type(), m, k)
		if in.CommaOk {
			st.set(fr, in, Tuple{st.simpIte(v), ok})
		} else {
			st.set(fr, in, st.simpIte(v))
		}
		if _, isF := deref(in.Type()).Underlying().(*types.Signature); isF {
			x.prov[v.ID] = typeKey(in.X.Type())
		}
	case *ssa.MakeChan:
		r := st.newRef()
		c := x.t(st, fr, in.Size)
		st.assume(mkEq(ufn("chancap", sInt, r), c))
		x.setHeap(st, "CH:count", r, mkStore(x.heapArr(st, "CH:count", arrSort(sInt, sInt)), r, mkInt(0)))
		st.set(fr, in, r)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		st.set(fr, in, x.funcVal(in.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		v := x.val(st, fr, in.X)
		if c, ok := v.(*Clo); ok {
			v = mkInt(c.id)
		}
		if _, isA := v.(*Addr); isA {
			v = x.term(st, v)
		}
		st.set(fr, in, mkIfaceOf(in.X.Type(), v.(*Term)))
	case *ssa.MakeMap:
		st.set(fr, in, x.newMap(st, in.Type()))
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n, c := x.t(st, fr, in.Len), x.t(st, fr, in.Cap)
		if isByte(et) {
			if n.isInt() && n.Str == "0" {
				st.set(fr, in, mkBytes(mkStr("")))
				return
			}
			s := fresh("mkbytes", sStr)
			st.assume(mkEq(mkLen(s), n))
			st.set(fr, in, mkBytes(s))
			return
		}
		x.safe(st, "makeslice", mkAnd(mkLe(mkInt(0), n), mkLe(n, c)), in.Pos())
		r := st.newRef()
		x.setMem(st, et, r, mkConstArr(arrSort(sInt, typeSort(et)), zero(et)))
		st.set(fr, in, mkCtor(sSlice, r, mkInt(0), n, c))
	case *ssa.MapUpdate:
		m, k := x.t(st, fr, in.Map), x.t(st, fr, in.Key)
		v := x.t(st, fr, in.Value)
		x.mapGuard(st, in.Map, true)
		x.safe(st, "nil-map", mkNot(mkEq(m, mkInt(0))), in.Pos())
		x.mapSet(st, in.Map.Type(), m, k, v)
	case *ssa.Range:
		if isString(in.X.Type()) {
			st.set(fr, in, &mapIter{str: x.t(st, fr, in.X)})
			return
		}
		m := x.t(st, fr, in.X)
		x.mapGuard(st, in.X, false)
		kt, _, _ := mapTypes(in.X.Type())
		c := x.newCell(st, mkConstArr(arrSort(typeSort(kt), sBool), tFalse))
		it := &mapIter{cell: c, ref: m, mt: in.X.Type(), dom0: x.mapDom(st, in.X.Type(), m), instr: in}
		x.iterCells[c] = it
		st.set(fr, in, it)
	case *ssa.Slice:
		st.set(fr, in, x.slice(st, fr, in))
	case *ssa.Store:
		a := x.val(st, fr, in.Addr)
		v := x.val(st, fr, in.Val)
		if t, ok := a.(*Term); ok {
			x.nilCheck(st, t, in.Pos())
		}
		x.storePtr(st, a, deref(in.Addr.Type()), v)
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, in)
	default:
		panic(unsup("instruction %T: %s", in, in))
	}
}

func (x *Exec) nilCheck(st *State, t *Term, pos token.Pos) {
	st.assume(mkLt(mkInt(0), t))
}

func strAt(s, i *Term) *Term {
	if s.isStr() && i.isInt() {
		n := int(i.bigv().Int64())
		if n >= 0 && n < len(s.Str) {
			return mkInt(int64(s.Str[n]))
		}
	}
	return app("str.to_code", sInt, app("str.at", sStr, s, i))
}

func (x *Exec) alloc(st *State, fr *frame, in *ssa.Alloc) Val {
	t := deref(in.Type())
	if leaks(in) {
		r := st.newRef()
		if s, ok := t.Underlying().(*types.Struct); ok && dts[typeSort(t)] != nil {
			for i := 0; i < s.NumFields(); i++ {
				x.store(st, x.fieldAddr(st, r, t, i), zero(s.Field(i).Type()))
			}
		} else if _, isArr := t.Underlying().(*types.Array); !isArr {
			x.storePtr(st, r, t, zero(t))
		} else {
			panic(unsup("escaping array"))
		}
		return r
	}
	var v Val = zero(t)
	c := x.newCell(st, v)
	x.cellInfo[c] = in
	return &Addr{cell: c, typ: t}
}

var leakMemo = map[ssa.Value]bool{}

// leaks decides whether the address of an allocation leaves engine-level tracking.
func leaks(a *ssa.Alloc) bool {
	if r, ok := leakMemo[a]; ok {
		return r
	}
	leakMemo[a] = true
	r := leaksV(a, map[ssa.Value]bool{})
	leakMemo[a] = r
	return r
}

func leaksV(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return false
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == a {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if fieldLeaks(r, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if fieldLeaks(r, seen) {
				return true
			}
		case *ssa.Slice:
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && i < len(fn.FreeVars) && leaksV(fn.FreeVars[i], seen) {
					return true
				}
			}
		case ssa.CallInstruction:
			c := r.Common()
			if c.IsInvoke() {
				return true
			}
			if f, ok := c.Value.(*ssa.Function); ok {
				for i, v := range c.Args {
					if v != a {
						continue
					}
					if len(f.Blocks) == 0 {
						continue // external: address of local, havoced
					}
					if leaksV(f.Params[i], seen) {
						return true
					}
				}
				continue
			}
			if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func fieldLeaks(v ssa.Value, seen map[ssa.Value]bool) bool { return leaksV(v, seen) }

func (x *Exec) slice(st *State, fr *frame, in *ssa.Slice) Val {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.t(st, fr, v)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.t(st, fr, in.X)
		lo, hi := get(in.Low, mkInt(0)), get(in.High, mkLen(s))
		x.safe(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkLen(s))), in.Pos())
		return mkSubstr(s, lo, mkSub(hi, lo))
	case *types.Slice:
		if isByte(u.Elem()) {
			b := x.t(st, fr, in.X)
			s := bsStr(b)
			lo, hi := get(in.Low, mkInt(0)), get(in.High, mkLen(s))
			if in.High != nil {
				// Reslicing beyond the length exposes unknown bytes; require within length.
				x.safe(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkLen(s))), in.Pos())
			} else {
				x.safe(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi)), in.Pos())
			}
			return mkCtor(sBS, bsNil(b), mkSubstr(s, lo, mkSub(hi, lo)))
		}
		s := x.t(st, fr, in.X)
		lo, hi := get(in.Low, mkInt(0)), get(in.High, slLen(s))
		mx := get(in.Max, slCap(s))
		x.safe(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, slCap(s))), in.Pos())
		if in.Low == nil && in.Max == nil {
			return mkCtor(sSlice, slRef(s), slOff(s), hi, slCap(s))
		}
		return mkCtor(sSlice, slRef(s), mkAdd(slOff(s), lo), mkSub(hi, lo), mkSub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a, ok := x.val(st, fr, in.X).(*Addr)
		if !ok {
			panic(unsup("slice of array pointer"))
		}
		arr := x.term(st, x.load(st, a))
		n := mkInt(at.Len())
		lo, hi := get(in.Low, mkInt(0)), get(in.High, n)
		if isByte(at.Elem()) {
			if in.Low != nil || in.High != nil || at.Len() > 16 {
				panic(unsup("slice of byte array"))
			}
			str := mkStr("")
			for i := int64(0); i < at.Len(); i++ {
				c := mkSelect(arr, mkInt(i))
				if c.isInt() {
					str = mkCat(str, mkStr(string([]byte{byte(c.bigv().Int64())})))
				} else {
					str = mkCat(str, app("str.from_code", sStr, c))
				}
			}
			return mkBytes(str)
		}
		r := st.newRef()
		x.setMem(st, at.Elem(), r, arr)
		return mkCtor(sSlice, r, lo, mkSub(hi, lo), mkSub(n, lo))
	}
	panic(unsup("slice of %s", in.X.Type()))
}

func (x *Exec) unop(st *State, fr *frame, in *ssa.UnOp) Val {
	v := x.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if t, ok := v.(*Term); ok {
			x.nilCheck(st, t, in.Pos())
		}
		if a, ok := v.(*Addr); ok && a.heap == "B:" {
			return strAt(bsStr(a.ref), a.idx)
		}
		if a, ok := v.(*Addr); ok {
			x.checkGuard(st, a, false)
		}
		r := x.loadPtr(st, v, deref(in.X.Type()))
		if g, ok := in.X.(*ssa.Global); ok {
			x.globalFacts(st, g, r)
		}
		return r
	case token.NOT:
		return mkNot(x.term(st, v))
	case token.SUB:
		if isFloat(in.X.Type()) {
			return ufn("fneg", sF64, x.term(st, v))
		}
		return mkSub(mkInt(0), x.term(st, v))
	}
	panic(unsup("unary %s", in.Op))
}

// globalFacts: package-level error variables are non-nil.
func (x *Exec) globalFacts(st *State, g *ssa.Global, v Val) {
	t, ok := v.(*Term)
	if !ok {
		return
	}
	if t.Sort == sIface && types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
		st.assume(mkNot(mkEq(mkSel(sIface, 0, t), mkInt(0))))
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	if _, ok := a.(*Addr); ok {
		if bt, ok := b.(*Term); ok && bt.isInt() {
			return mkBool(op == token.NEQ)
		}
	}
	l, r := x.term(st, a), x.term(st, b)
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if l.Sort == sSlice {
			if isNilSlice(r) {
				e = mkEq(slRef(l), mkInt(0))
			} else {
				e = mkEq(slRef(r), mkInt(0))
			}
		} else if l.Sort == sBS {
			if r.Op == "mkBS" {
				e = bsNil(l)
			} else {
				e = bsNil(r)
			}
		} else if l.Sort == sIface && isNilIface(r) {
			e = mkEq(mkSel(sIface, 0, l), mkInt(0))
		} else if l.Sort == sIface && isNilIface(l) {
			e = mkEq(mkSel(sIface, 0, r), mkInt(0))
		} else if l.Sort == sInt && isCode(l, r) {
			e = codeEq(l, r)
		} else {
			if l.Sort == sF64 {
				e = ufn("feq", sBool, l, r)
			} else {
				e = mkEq(l, r)
			}
		}
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			l, r = r, l
		}
		strict := op == token.LSS || op == token.GTR
		switch l.Sort {
		case sInt:
			if strict {
				return mkLt(l, r)
			}
			return mkLe(l, r)
		case sStr:
			if strict {
				return app("str.<", sBool, l, r)
			}
			return app("str.<=", sBool, l, r)
		case sF64:
			if strict {
				return ufn("flt", sBool, l, r)
			}
			return ufn("fle", sBool, l, r)
		}
	case token.ADD:
		switch l.Sort {
		case sInt:
			return mkAdd(l, r)
		case sStr:
			return mkCat(l, r)
		case sF64:
			return ufn("fadd", sF64, l, r)
		}
	case token.SUB:
		if l.Sort == sInt {
			return mkSub(l, r)
		}
		return ufn("fsub", sF64, l, r)
	case token.MUL:
		if l.Sort == sInt {
			return mkMul(l, r)
		}
		return ufn("fmul", sF64, l, r)
	case token.QUO:
		if l.Sort == sF64 {
			return ufn("fdiv", sF64, l, r)
		}
		x.safe(st, "div-zero", mkNot(mkEq(r, mkInt(0))), pos)
		return ufn("godiv", sInt, l, r)
	case token.REM:
		x.safe(st, "div-zero", mkNot(mkEq(r, mkInt(0))), pos)
		return ufn("gomod", sInt, l, r)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if l.Sort == sBool {
			if op == token.AND {
				return mkAnd(l, r)
			}
			if op == token.OR {
				return mkOr(l, r)
			}
		}
		return ufn("bit"+clean(op.String())+fmt.Sprint(int(op)), sInt, l, r)
	}
	panic(unsup("binary %s on %s", op, l.Sort))
}

func isNilSlice(t *Term) bool {
	return t.Op == "mkSlice" && t.Args[0].isInt() && t.Args[0].Str == "0"
}
func isNilIface(t *Term) bool {
	return t.Op == "mkIface" && t.Args[0].isInt() && t.Args[0].Str == "0"
}

func isCode(l, r *Term) bool {
	return l.Op == "str.to_code" && r.isInt() || r.Op == "str.to_code" && l.isInt()
}

// codeEq turns comparisons of characters into comparisons of strings.
func codeEq(l, r *Term) *Term {
	if l.isInt() {
		l, r = r, l
	}
	n := r.bigv()
	if n.Sign() < 0 || n.BitLen() > 8 {
		return tFalse
	}
	return mkEq(l.Args[0], mkStr(string([]byte{byte(n.Int64())})))
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	t := x.term(st, v)
	fs, ts := typeSort(from), typeSort(to)
	switch {
	case fs == sStr && ts == sStr:
		return t
	case fs == sBS && ts == sStr:
		return bsStr(t)
	case fs == sStr && ts == sBS:
		return mkBytes(t)
	case fs == sInt && ts == sInt:
		return t
	case fs == sInt && ts == sF64:
		return ufn("f64ofint", sF64, t)
	case fs == sF64 && ts == sInt:
		return ufn("intoff64", sInt, t)
	case fs == sF64 && ts == sF64:
		return t
	case fs == sInt && ts == sStr:
		return ufn("strofrune", sStr, t)
	case fs == ts:
		return t
	}
	panic(unsup("conversion %s -> %s", from, to))
}

func (x *Exec) typeAssert(st *State, fr *frame, in *ssa.TypeAssert) {
	v := x.t(st, fr, in.X)
	tag, val := mkSel(sIface, 0, v), mkSel(sIface, 1, v)
	var ok *Term
	var res *Term
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if it.NumMethods() == 0 {
			ok = mkNot(mkEq(tag, mkInt(0)))
		} else {
			ok = mkAnd(mkNot(mkEq(tag, mkInt(0))), ufn("impl!"+clean(typeKey(in.AssertedType)), sBool, tag))
		}
		res = v
	} else {
		ok = mkEq(tag, typeTag(in.AssertedType))
		res = unbox(in.AssertedType, val)
		if res.Op != "int" && !isCtor(res) {
			st2 := st
			_ = st2
		}
	}
	if in.CommaOk {
		o := st.simp(ok)
		st.set(fr, in, Tuple{mkIte(o, res, zero(in.AssertedType)), o})
		return
	}
	x.safe(st, "type-assert", ok, in.Pos())
	st.wf(in.AssertedType, res)
	st.set(fr, in, res)
}

func fieldIndex(t types.Type, name string) (int, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, true
		}
	}
	return 0, false
}

var _ = sort.Strings
