package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call evaluates a call instruction.
func (x *Exec) call(st *State, fr *frame, cc *ssa.CallCommon, in ssa.Instruction, k func(*State, Val)) {
	var fv Val
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		k(st, x.builtin(st, fr, b, cc, in))
		return
	}
	fv = x.val(st, fr, cc.Value)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	x.invoke(st, fr, cc, fv, args, in, k)
}

func (x *Exec) invoke(st *State, fr *frame, cc *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction, k func(*State, Val)) {
	if b, ok := fv.(*ssa.Builtin); ok {
		_ = b
		k(st, nil) // deferred builtin (close, delete...): none used
		return
	}
	sig := cc.Signature()
	if cc.IsInvoke() {
		recv := x.term(st, fv)
		// Devirtualize when the dynamic type is known.
		if tag := mkSel(sIface, 0, recv); tag.isInt() {
			if dt := tagTypes[tag.bigv().Int64()]; dt != nil {
				if m := x.P.prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name()); m != nil && m.Blocks != nil && m.Synthetic == "" {
					x.staticCall(st, fr, m, append([]Val{unbox(dt, mkSel(sIface, 1, recv))}, args...), nil, in, k)
					return
				}
			}
		}
		x.nilIface(st, recv, in.Pos())
		key := typeKey(cc.Value.Type()) + "." + cc.Method.Name()
		x.opaqueCall(st, fr, "cb", key, append([]Val{recv}, args...), append([]types.Type{cc.Value.Type()}, sigParams(sig)...), sig, in, k)
		return
	}
	switch f := fv.(type) {
	case *Clo:
		if f.impl != "" {
			x.opaqueCall(st, fr, "cb", f.impl, args, sigParams(sig), sig, in, k)
			return
		}
		x.staticCall(st, fr, f.fn, args, f.binds, in, k)
		return
	case *Term:
		if f.isInt() {
			if c := x.clos[f.bigv().Int64()]; c != nil {
				x.invoke(st, fr, cc, c, args, in, k)
				return
			}
		}
		prov := x.prov[f.ID]
		if prov == "" {
			prov = "?"
		}
		x.safe(st, "nil-func", mkNot(mkEq(f, mkInt(0))), in.Pos())
		x.callSelf = f
		x.opaqueCall(st, fr, "cb", prov, args, sigParams(sig), sig, in, k)
		return
	}
	panic(unsup("call of %T", fv))
}

func (x *Exec) nilIface(st *State, recv *Term, pos token.Pos) {
	x.safe(st, "nil-interface", mkNot(mkEq(mkSel(sIface, 0, recv), mkInt(0))), pos)
}

func sigParams(s *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		ts = append(ts, s.Params().At(i).Type())
	}
	return ts
}

// staticCall calls a known function.
func (x *Exec) staticCall(st *State, fr *frame, f *ssa.Function, args []Val, binds []Val, in ssa.Instruction, k func(*State, Val)) {
	// Bound methods and wrappers.
	key := funcKey(f)
	if strings.HasSuffix(f.Name(), "$bound") && len(binds) == 1 {
		// method value: find the method
		if m := boundTarget(f); m != nil {
			x.staticCall(st, fr, m, append([]Val{binds[0]}, args...), nil, in, k)
			return
		}
	}
	own := f.Blocks != nil
	var ptypes []types.Type
	if r := f.Signature.Recv(); r != nil {
		ptypes = append(ptypes, r.Type())
	}
	ptypes = append(ptypes, sigParams(f.Signature)...)
	if !own {
		if x.model(st, fr, key, f, args, in, k) {
			return
		}
		x.opaqueCall(st, fr, "extern", key, args, ptypes, f.Signature, in, k)
		return
	}
	if c := x.sp.contracts["func "+key]; c != nil && !c.Inline {
		x.contractCall(st, fr, c, args, ptypes, f.Signature, in, k)
		return
	}
	if x.sp.contracts["extern "+key] != nil { // not verified: part of the trusted base
		x.opaqueCall(st, fr, "extern", key, args, ptypes, f.Signature, in, k)
		return
	}
	// Inline.
	d := 0
	for p := fr; p != nil; p = p.parent {
		if p.fn == f {
			panic(unsup("recursive function %s has no contract", key))
		}
		d++
	}
	if d > 12 {
		panic(unsup("inlining too deep at %s", key))
	}
	x.inlined[key] = true
	x.inline(st, fr, f, args, binds, k)
}

func (x *Exec) inline(st *State, fr *frame, f *ssa.Function, args []Val, binds []Val, k func(*State, Val)) {
	nf := x.newFrame(f, fr, func(st *State, res []Val) {
		switch len(res) {
		case 0:
			k(st, nil)
		case 1:
			k(st, res[0])
		default:
			k(st, Tuple(res))
		}
	})
	nf.binds = map[*ssa.FreeVar]Val{}
	for i, fv := range f.FreeVars {
		nf.binds[fv] = binds[i]
	}
	for i, p := range f.Params {
		st.set(nf, p, args[i])
	}
	x.enter(st, nf, nil, f.Blocks[0])
}

func boundTarget(f *ssa.Function) *ssa.Function {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return g
				}
			}
		}
	}
	return nil
}

// opaqueCall calls something known only through a contract, or unknown.
func (x *Exec) opaqueCall(st *State, fr *frame, kind, key string, args []Val, ptypes []types.Type, sig *types.Signature, in ssa.Instruction, k func(*State, Val)) {
	c := x.sp.contracts[kind+" "+key]
	if c != nil {
		if kind == "extern" {
			x.trusted["extern "+key] = true
		}
		x.contractCall(st, fr, c, args, ptypes, sig, in, k)
		return
	}
	// Unknown: arbitrary results, no effect on modelled state.
	x.trusted["no contract, arbitrary result, assumed free of effects on the modelled state: "+key] = true
	for _, a := range args {
		if ad, ok := a.(*Addr); ok && ad.cell > 0 {
			x.havocAddr(st, ad)
		}
		if c, ok := a.(*Clo); ok && c.fn != nil && len(c.fn.Blocks) > 0 {
			x.havocClosure(st, c)
		}
	}
	st.advanceTop()
	k(st, x.freshResults(st, "r_"+clean(key), sig))
}

// havocClosure forgets everything a closure passed to unknown code may write.
func (x *Exec) havocClosure(st *State, c *Clo) {
	for i, fv := range c.fn.FreeVars {
		if a, ok := c.binds[i].(*Addr); ok && a.cell > 0 && storesTo(c.fn, fv) {
			x.havocAddr(st, a)
		}
	}
}

func storesTo(f *ssa.Function, v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if storesTo(f, r) {
				return true
			}
		case *ssa.IndexAddr:
			if storesTo(f, r) {
				return true
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && storesTo(g, g.FreeVars[i]) {
					return true
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case ssa.CallInstruction:
			return true
		}
	}
	return false
}

func (x *Exec) freshOf(st *State, name string, t types.Type) *Term {
	v := fresh(name, typeSort(t))
	st.wf(t, v)
	return v
}

func (x *Exec) freshResults(st *State, name string, sig *types.Signature) Val {
	n := sig.Results().Len()
	switch n {
	case 0:
		return nil
	case 1:
		return x.freshOf(st, name, sig.Results().At(0).Type())
	}
	var tp Tuple
	for i := 0; i < n; i++ {
		tp = append(tp, x.freshOf(st, fmt.Sprintf("%s%d", name, i), sig.Results().At(i).Type()))
	}
	return tp
}

func (x *Exec) havocAddr(st *State, a *Addr) {
	x.store(st, a, x.freshOf(st, "hv", a.typ))
}

// bindParams binds contract parameter names to argument values.
func (x *Exec) bindParams(c *Contract, args []Val, ptypes []types.Type) map[string]EV {
	if len(c.Params) != len(args) {
		panic(unsup("contract %s has %d parameters, call has %d", c.Key, len(c.Params), len(args)))
	}
	m := map[string]EV{}
	for i, p := range c.Params {
		t := ptypes[i]
		if a, ok := args[i].(*Clo); ok {
			m[p.Name] = EV{v: a, t: t, s: sInt}
			continue
		}
		s := typeSort(t)
		m[p.Name] = EV{v: args[i], t: t, s: s}
	}
	return m
}

// contractCall uses the contract of the callee.
func (x *Exec) contractCall(st *State, fr *frame, c *Contract, args []Val, ptypes []types.Type, sig *types.Signature, in ssa.Instruction, k func(*State, Val)) {
	c.Used = true
	x.usedContracts[c.Kind+" "+c.Key] = true
	vars := x.bindParams(c, args, ptypes)
	env := &SEnv{x: x, st: st, vars: vars}
	if self := x.callSelf; self != nil {
		vars["self"] = tv(self, nil)
		x.callSelf = nil
	}
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	for _, cl := range c.Clauses {
		if cl.Kind != "requires" || !x.clauseOn(cl) {
			continue
		}
		g := env.bool(cl.E)
		if c.Kind != "func" || !x.con.NoSafe || true {
			x.oblige(st, "call "+c.Key+":"+cl.Name, cl.Props, g, pos)
		}
		st.assume(g)
	}
	x.interfere(st, c)
	pre := st.clone()
	if !c.Pure {
		st.advanceTop()
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "modifies" {
			for _, m := range cl.Mods {
				x.havocTarget(st, pre, vars, m)
			}
		}
	}
	// Results.
	post := &SEnv{x: x, st: st, old: pre, vars: map[string]EV{}}
	for n, v := range vars {
		post.vars[n] = v
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		name := fmt.Sprintf("res%d", i)
		if i < len(c.Results) {
			name = c.Results[i].Name
		}
		var v *Term
		// Definitional result: ensures name == e.
		for _, cl := range c.Clauses {
			if cl.Kind == "ensures" && x.clauseOn(cl) && cl.E.Op == "==" && cl.E.Args[0].Op == "id" && cl.E.Args[0].Name == name && !mentions(cl.E.Args[1], c.Results) {
				ev := post.eval(cl.E.Args[1])
				if ev.s == "nil" {
					v = zero(rt)
				} else {
					t := ev.term(post)
					if t.Sort == sStr && typeSort(rt) == sBS {
						continue
					}
					if t.Sort == typeSort(rt) {
						v = t
					}
				}
				break
			}
		}
		if v == nil {
			v = fresh("r_"+clean(c.Key), typeSort(rt))
		}
		st.wf(rt, v)
		res = append(res, v)
		post.vars[name] = EV{v: v, t: rt, s: typeSort(rt)}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "ensures" && x.clauseOn(cl) {
			st.assume(post.bool(cl.E))
		}
	}
	x.smoke(pre, st, c.Kind+" "+c.Key)
	if c.MayPanic && x.recovers(fr) {
		x.unwind(pre.cloneWith(st), fr)
	}
	switch len(res) {
	case 0:
		k(st, nil)
	case 1:
		k(st, res[0])
	default:
		k(st, Tuple(res))
	}
}

// cloneWith: the state after a panicking callee: the effects happened, the results are lost.
func (s *State) cloneWith(post *State) *State { return post.clone() }

func mentions(e *Expr, rs []Param) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" {
		for _, r := range rs {
			if r.Name == e.Name {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if mentions(a, rs) {
			return true
		}
	}
	return false
}

// modTarget describes one modifies location.
type modTarget struct {
	heap string
	ref  *Term // nil: all
	cell int
	addr *Addr
}

// modTargets resolves a modifies expression in state pre.
func (x *Exec) modTargets(st *State, vars map[string]EV, m *Expr) []modTarget {
	env := &SEnv{x: x, st: st, old: st, vars: vars}
	switch m.Op {
	case "call":
		switch m.Name {
		case "map":
			a := env.eval(m.Args[0])
			d, v, l, ks, vs := mapHeaps(mapT(a.t))
			x.heapArr(st, d, arrSort(sInt, arrSort(ks, sBool)))
			x.heapArr(st, v, arrSort(sInt, arrSort(ks, vs)))
			x.heapArr(st, l, arrSort(sInt, sInt))
			r := a.term(env)
			return []modTarget{{heap: d, ref: r}, {heap: v, ref: r}, {heap: l, ref: r}}
		case "elems":
			a := env.eval(m.Args[0])
			el := a.t.Underlying().(*types.Slice).Elem()
			x.mem(st, el)
			return []modTarget{{heap: memHeap(el), ref: slRef(a.term(env))}}
		case "mem": // mem(T): all slice memory of element type T
			t, _ := x.resolveType(exprType(m.Args[0]))
			x.mem(st, t)
			return []modTarget{{heap: memHeap(t)}}
		case "maps": // maps(m): every map of the same type
			var mt types.Type
			if m.Args[0].Op == "str" {
				mt, _ = x.resolveType(m.Args[0].Name)
			} else {
				mt = mapT(env.eval(m.Args[0]).t)
			}
			d, v, l, ks, vs := mapHeaps(mt)
			x.heapArr(st, d, arrSort(sInt, arrSort(ks, sBool)))
			x.heapArr(st, v, arrSort(sInt, arrSort(ks, vs)))
			x.heapArr(st, l, arrSort(sInt, sInt))
			return []modTarget{{heap: d}, {heap: v}, {heap: l}}
		case "fields": // fields(T.f)
			s := m.Args[0]
			t, _ := x.resolveType(exprType(s.Args[0]))
			return x.fieldTargets(st, t, s.Name, nil)
		case "allfields": // allfields(T)
			t, _ := x.resolveType(exprType(m.Args[0]))
			var out []modTarget
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, x.fieldTargets(st, t, s.Field(i).Name(), nil)...)
			}
			return out
		}
		if f := x.sp.fns[m.Name]; f != nil && f.Body != nil && len(f.Params) == 0 {
			return x.modTargets(st, vars, f.Body)
		}
	case "deref":
		a := env.eval(m.Args[0])
		el := deref(a.t)
		switch p := a.v.(type) {
		case *Addr:
			return []modTarget{{addr: p, cell: p.cell, heap: p.heap, ref: p.ref}}
		case *Term:
			if s, ok := el.Underlying().(*types.Struct); ok && dts[typeSort(el)] != nil {
				var out []modTarget
				for i := 0; i < s.NumFields(); i++ {
					out = append(out, x.fieldTargets(st, el, s.Field(i).Name(), p)...)
				}
				return out
			}
			h := "P:" + typeKey(el)
			x.heapArr(st, h, arrSort(sInt, typeSort(el)))
			return []modTarget{{heap: h, ref: p}}
		}
	case "sel":
		b := env.eval(m.Args[0])
		bt := deref(b.t)
		if _, ok := x.sp.gfields[typeKey(bt)+"."+m.Name]; ok {
			return x.fieldTargets(st, bt, m.Name, b.term(env))
		}
		fi, ok := fieldIndex(bt, m.Name)
		if !ok {
			panic(serr("modifies: no field %s", m.Name))
		}
		if _, isP := b.t.Underlying().(*types.Pointer); isP {
			a := x.fieldAddr(st, b.v, bt, fi)
			if a.cell == 0 {
				x.baseLoad(st, a)
			}
			return []modTarget{{addr: a, cell: a.cell, heap: a.heap, ref: a.ref}}
		}
		// Field of a nested struct value: resolve the address of the base.
		ba := x.addrOf(env, m.Args[0])
		a := x.fieldAddr(st, ba, bt, fi)
		return []modTarget{{addr: a, cell: a.cell, heap: a.heap, ref: a.ref}}
	case "id":
		if g, ok := x.sp.ghosts[m.Name]; ok {
			_, srt := x.resolveType(g.Type)
			x.heapArr(st, "G:"+m.Name, srt)
			return []modTarget{{heap: "G:" + m.Name}}
		}
		if f := x.sp.fns[m.Name]; f != nil && f.Body != nil && len(f.Params) == 0 {
			return x.modTargets(st, vars, f.Body)
		}
		env.ident(m.Name)
		for _, p := range x.pkgList() {
			if o, ok := p.Scope().Lookup(m.Name).(*types.Var); ok {
				_ = o
				return []modTarget{{heap: "G:" + p.Name() + "." + m.Name}}
			}
		}
	}
	panic(serr("bad modifies target %s", m.Op))
}

// addrOf computes the address denoted by a field expression.
func (x *Exec) addrOf(env *SEnv, e *Expr) *Addr {
	if e.Op != "sel" {
		panic(serr("not addressable"))
	}
	b := env.eval(e.Args[0])
	bt := deref(b.t)
	fi, ok := fieldIndex(bt, e.Name)
	if !ok {
		panic(serr("no field %s", e.Name))
	}
	if _, isP := b.t.Underlying().(*types.Pointer); isP {
		return x.fieldAddr(env.st, b.v, bt, fi)
	}
	return x.fieldAddr(env.st, x.addrOf(env, e.Args[0]), bt, fi)
}

func (x *Exec) fieldTargets(st *State, t types.Type, name string, ref *Term) []modTarget {
	h := "F:" + typeKey(t) + "." + name
	if g, ok := x.sp.gfields[typeKey(t)+"."+name]; ok {
		_, srt := x.resolveType(g)
		x.heapArr(st, h, arrSort(sInt, srt))
		return []modTarget{{heap: h, ref: ref}}
	}
	fi, ok := fieldIndex(t, name)
	if !ok {
		panic(serr("no field %s in %s", name, t))
	}
	x.heapArr(st, h, arrSort(sInt, typeSort(t.Underlying().(*types.Struct).Field(fi).Type())))
	return []modTarget{{heap: h, ref: ref}}
}

func (x *Exec) havocTarget(st, pre *State, vars map[string]EV, m *Expr) {
	// Locations are resolved in the pre-state.
	p := pre
	for _, t := range x.modTargets(p, vars, m) {
		if t.addr != nil {
			x.havocAddr(st, t.addr)
			continue
		}
		x.havocHeap(st, t.heap, t.ref)
	}
}

func (x *Exec) havocHeap(st *State, h string, ref *Term) {
	srt := x.heapSorts[h]
	arr := x.heapArr(st, h, srt)
	if ref == nil {
		x.setHeap(st, h, nil, fresh("hv!"+h, srt))
		return
	}
	_, vs := arrSorts(srt)
	nv := fresh("hv!"+h, vs)
	x.setHeap(st, h, ref, mkStore(arr, ref, nv))
	if strings.HasPrefix(h, "ML:") {
		st.assume(mkLe(mkInt(0), nv))
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, in ssa.Instruction) Val {
	arg := func(i int) *Term { return x.t(st, fr, cc.Args[i]) }
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return mkLen(arg(0))
		case *types.Slice:
			if isByte(u.Elem()) {
				return mkLen(bsStr(arg(0)))
			}
			return slLen(arg(0))
		case *types.Map:
			x.mapGuard(st, cc.Args[0], false)
			return x.mapLen(st, t, arg(0))
		case *types.Array:
			return mkInt(u.Len())
		}
	case "cap":
		t := cc.Args[0].Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if isByte(u.Elem()) {
				c := fresh("bcap", sInt)
				st.assume(mkLe(mkLen(bsStr(arg(0))), c))
				return c
			}
			return slCap(arg(0))
		case *types.Chan:
			c := ufn("chancap", sInt, arg(0))
			st.assume(mkLe(mkInt(0), c))
			return c
		}
	case "append":
		st0 := cc.Args[0].Type().Underlying().(*types.Slice)
		if isByte(st0.Elem()) {
			a := arg(0)
			var tail *Term
			b1 := arg(1)
			if b1.Sort == sStr {
				tail = b1
			} else {
				tail = bsStr(b1)
			}
			// append(nil, nothing...) stays nil.
			nilness := tFalse
			if bsNil(a).Op != "false" {
				nilness = mkAnd(bsNil(a), mkEq(mkLen(tail), mkInt(0)))
			}
			return mkCtor(sBS, nilness, mkCat(bsStr(a), tail))
		}
		return x.appendSlice(st, st0.Elem(), arg(0), arg(1))
	case "copy":
		dt := cc.Args[0].Type().Underlying().(*types.Slice)
		if isByte(dt.Elem()) {
			panic(unsup("copy of bytes"))
		}
		d, s := arg(0), arg(1)
		n := mkIte(mkLe(slLen(s), slLen(d)), slLen(s), slLen(d))
		m := x.mem(st, dt.Elem())
		da, sa := mkSelect(m, slRef(d)), mkSelect(m, slRef(s))
		na := fresh("cp", da.Sort)
		i := mkBound("i", sInt)
		st.assume(mkForall([]*Term{i}, mkEq(mkSelect(na, i), mkIte(mkAnd(mkLe(slOff(d), i), mkLt(i, mkAdd(slOff(d), n))),
			mkSelect(sa, mkAdd(slOff(s), mkSub(i, slOff(d)))), mkSelect(da, i))), []*Term{mkSelect(na, i)}))
		x.setMem(st, dt.Elem(), slRef(d), na)
		return n
	case "delete":
		x.mapGuard(st, cc.Args[0], true)
		x.mapDel(st, cc.Args[0].Type(), arg(0), arg(1))
		return nil
	case "print", "println":
		return nil
	case "recover":
		// Called from a deferred closure: clears the panic of the calling frame.
		for f := fr.parent; f != nil; f = f.parent {
			if st.panicVal[f.id] {
				st.panicVal[f.id] = false
				v := fresh("recovered", sIface)
				st.assume(mkNot(mkEq(mkSel(sIface, 0, v), mkInt(0))))
				return v
			}
			break
		}
		return zeroSort(sIface)
	case "close":
		return nil
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(cc.Args); i++ {
			a := arg(i)
			if b.Name() == "min" {
				r = mkIte(mkLe(r, a), r, a)
			} else {
				r = mkIte(mkLe(a, r), r, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return x.val(st, fr, cc.Args[0])
	}
	panic(unsup("builtin %s", b.Name()))
}

// ---- engine models ----

// model implements concurrent maps, atomics and locks.
// permute reorders the elements of a slice in an arbitrary way.
func (x *Exec) permute(st *State, el types.Type, s *Term) {
	da := mkSelect(x.mem(st, el), slRef(s))
	na := fresh("perm", da.Sort)
	p, q := fresh("pi", arrSort(sInt, sInt)), fresh("pj", arrSort(sInt, sInt))
	in := func(i *Term) *Term {
		return mkAnd(mkLe(slOff(s), i), mkLt(i, mkAdd(slOff(s), slLen(s))))
	}
	i := mkBound("i", sInt)
	pi := mkSelect(p, i)
	st.assume(mkForall([]*Term{i}, mkIte(in(i), mkAnd(in(pi), mkEq(mkSelect(na, i), mkSelect(da, pi)), mkEq(mkSelect(q, pi), i)), mkEq(mkSelect(na, i), mkSelect(da, i))), []*Term{mkSelect(na, i)}))
	j := mkBound("j", sInt)
	qj := mkSelect(q, j)
	st.assume(mkForall([]*Term{j}, mkImp(in(j), mkAnd(in(qj), mkEq(mkSelect(na, qj), mkSelect(da, j)), mkEq(mkSelect(p, qj), j))), []*Term{mkSelect(da, j)}))
	x.setMem(st, el, slRef(s), na)
}

func (x *Exec) model(st *State, fr *frame, key string, f *ssa.Function, args []Val, in ssa.Instruction, k func(*State, Val)) bool {
	switch key {
	case "xsync.MapOf.Load", "xsync.MapOf.Store", "xsync.MapOf.Delete", "xsync.MapOf.LoadAndDelete", "xsync.MapOf.Size", "xsync.MapOf.LoadOrStore",
		"sync.Map.Load", "sync.Map.Store", "sync.Map.Delete", "sync.Map.LoadAndDelete", "sync.Map.LoadOrStore":
		mt := f.Signature.Recv().Type()
		m := x.term(st, args[0])
		x.sharedMap(st, mt, m)
		_, vt, _ := mapTypes(mt)
		x.trusted["model "+key+": atomic map operation"] = true
		switch f.Name() {
		case "Load":
			v, ok := x.mapGet(st, mt, m, x.term(st, args[1]))
			k(st, Tuple{v, ok})
		case "Store":
			x.guarantee(st, func() { x.mapSet(st, mt, m, x.term(st, args[1]), x.term(st, args[2])) })
			k(st, nil)
		case "Delete":
			x.guarantee(st, func() { x.mapDel(st, mt, m, x.term(st, args[1])) })
			k(st, nil)
		case "LoadAndDelete":
			v, ok := x.mapGet(st, mt, m, x.term(st, args[1]))
			x.guarantee(st, func() { x.mapDel(st, mt, m, x.term(st, args[1])) })
			k(st, Tuple{v, ok})
		case "LoadOrStore":
			kt := x.term(st, args[1])
			v, ok := x.mapGet(st, mt, m, kt)
			nv := mkIte(ok, v, x.term(st, args[2]))
			x.guarantee(st, func() { x.mapSet(st, mt, m, kt, nv) })
			k(st, Tuple{nv, ok})
		case "Size":
			k(st, x.mapLen(st, mt, m))
		}
		_ = vt
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Strings", "sort.Ints", "slices.Sort":
		sl := x.term(st, args[0])
		t := f.Signature.Params().At(0).Type()
		if strings.HasPrefix(key, "sort.Slice") {
			tag := mkSel(sIface, 0, sl)
			if !tag.isInt() || tagTypes[tag.bigv().Int64()] == nil {
				panic(unsup("%s of unknown slice", key))
			}
			t = tagTypes[tag.bigv().Int64()]
			sl = unbox(t, mkSel(sIface, 1, sl))
		}
		st2, ok := t.Underlying().(*types.Slice)
		if !ok {
			panic(unsup("%s of %s", key, t))
		}
		x.trusted["model "+key+": reorders the elements of the slice"] = true
		x.permute(st, st2.Elem(), sl)
		k(st, nil)
		return true
	case "xsync.MapOf.Range", "sync.Map.Range":
		mt := f.Signature.Recv().Type()
		m := x.term(st, args[0])
		c, ok := args[1].(*Clo)
		if !ok {
			panic(unsup("Range with unknown callback"))
		}
		x.trusted["model "+key+": visits keys present, each once"] = true
		x.rangeLoop(st, fr, mt, m, c, in, k)
		return true
	case "fastjson.Object.Visit":
		c, ok := args[1].(*Clo)
		if !ok || x.sp.fns["visitLen"] == nil {
			panic(unsup("Visit with unknown callback"))
		}
		x.trusted["model "+key+": visits the properties in order"] = true
		x.visitLoop(st, fr, x.term(st, args[0]), c, in, k)
		return true
	case "atomic.AddInt64", "atomic.LoadInt64", "atomic.StoreInt64", "atomic.CompareAndSwapInt64":
		el := types.Typ[types.Int64]
		x.trusted["model "+key+": atomic"] = true
		x.sharedAtomic(st, args[0])
		cur := x.term(st, x.loadPtr(st, args[0], el))
		switch f.Name() {
		case "LoadInt64":
			k(st, cur)
		case "StoreInt64":
			x.guarantee(st, func() { x.storePtr(st, args[0], el, args[1]) })
			k(st, nil)
		case "AddInt64":
			n := mkAdd(cur, x.term(st, args[1]))
			x.guarantee(st, func() { x.storePtr(st, args[0], el, n) })
			k(st, n)
		case "CompareAndSwapInt64":
			ok := mkEq(cur, x.term(st, args[1]))
			x.guarantee(st, func() { x.storePtr(st, args[0], el, mkIte(ok, x.term(st, args[2]), cur)) })
			k(st, ok)
		}
		return true
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock":
		x.lockOp(st, args[0], f.Name(), in.Pos())
		k(st, nil)
		return true
	case "xxhash.New":
		return false
	}
	return false
}

// iterate runs a closure once per element of an abstract sequence (o.Visit): see loops.go.
