package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EV is a contract-level value: Go-typed (t != nil) or of an SMT sort.
type EV struct {
	v Val
	t types.Type
	s string // sort, always set for terms
}

// SEnv evaluates contract expressions.
type SEnv struct {
	x    *Exec
	st   *State
	old  *State
	pre  *State // loop entry
	vars map[string]EV
	hook func(name string) (EV, bool)
	dep  int
}

func (e *SEnv) with(n string, v EV) *SEnv {
	m := make(map[string]EV, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	c := *e
	c.vars = m
	return &c
}

func (e *SEnv) in(st *State) *SEnv {
	c := *e
	c.st = st
	return &c
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func serr(f string, a ...any) specErr { return specErr{fmt.Sprintf(f, a...)} }

func (v EV) term(e *SEnv) *Term {
	t, ok := v.v.(*Term)
	if ok {
		return t
	}
	return e.x.term(e.st, v.v)
}

func tv(t *Term, gt types.Type) EV { return EV{v: t, t: gt, s: t.Sort} }

var (
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
	tBoolT  = types.Typ[types.Bool]
)

// GMap is the type of a ghost map, it keeps the Go type of the elements.
type GMap struct {
	elem types.Type
	srt  string
}

func (g *GMap) Underlying() types.Type { return g }
func (g *GMap) String() string         { return "gmap[]" + g.elem.String() }

var gmaps = map[string]*GMap{}

func ghostMap(elem types.Type, srt string) *GMap {
	k := srt + " " + typeKey(elem)
	if gmaps[k] == nil {
		gmaps[k] = &GMap{elem, srt}
	}
	return gmaps[k]
}

// resolveType maps a type text to a Go type or an SMT sort.
func (x *Exec) resolveType(s string) (types.Type, string) {
	switch {
	case strings.HasPrefix(s, "set["):
		t, srt := x.resolveType(s[4 : len(s)-1])
		_ = t
		return nil, arrSort(srt, sBool)
	case strings.HasPrefix(s, "gmap["):
		i := matchBr(s, 4)
		_, k := x.resolveType(s[5:i])
		vt, v := x.resolveType(s[i+1:])
		srt := arrSort(k, v)
		if vt == nil {
			return nil, srt
		}
		return ghostMap(vt, srt), srt
	case strings.HasPrefix(s, "(Array"):
		return nil, s
	case strings.HasPrefix(s, "*"):
		t, _ := x.resolveType(s[1:])
		if t == nil {
			return nil, sInt
		}
		return types.NewPointer(t), sInt
	case strings.HasPrefix(s, "[]"):
		t, _ := x.resolveType(s[2:])
		n := types.NewSlice(t)
		return n, typeSort(n)
	case strings.HasPrefix(s, "map["):
		i := matchBr(s, 3)
		k, _ := x.resolveType(s[4:i])
		v, _ := x.resolveType(s[i+1:])
		return types.NewMap(k, v), sInt
	case s == "any":
		return types.NewInterfaceType(nil, nil), sIface
	case s == "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false), sInt
	}
	if x.sp.sorts[s] {
		return nil, s
	}
	if s == "Int" || s == "Bool" || s == "String" {
		return nil, s
	}
	if b := types.Universe.Lookup(s); b != nil {
		if tn, ok := b.(*types.TypeName); ok {
			return tn.Type(), typeSort(tn.Type())
		}
	}
	pkg, name := x.pkgOf(), s
	if i := strings.Index(s, "."); i > 0 {
		p := x.P.byPkg[s[:i]]
		if p == nil {
			panic(serr("unknown package %s", s[:i]))
		}
		pkg, name = p, s[i+1:]
	}
	o := pkg.Scope().Lookup(name)
	if o == nil {
		for _, p := range x.P.pkgs {
			if o = p.Pkg.Scope().Lookup(name); o != nil {
				break
			}
		}
	}
	if o == nil && x.fn != nil {
		if t := localType(x.fn, name); t != nil {
			return t, typeSort(t)
		}
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		panic(serr("unknown type %s", s))
	}
	return tn.Type(), typeSort(tn.Type())
}

// localType finds a type declared in the function by its name.
func localType(f *ssa.Function, name string) (r types.Type) {
	var look func(t types.Type, d int)
	look = func(t types.Type, d int) {
		if r != nil || t == nil || d > 4 {
			return
		}
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Name() == name {
				r = u
			}
		case *types.Pointer:
			look(u.Elem(), d+1)
		case *types.Slice:
			look(u.Elem(), d+1)
		case *types.Array:
			look(u.Elem(), d+1)
		case *types.Map:
			look(u.Key(), d+1)
			look(u.Elem(), d+1)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				look(v.Type(), 0)
			}
		}
	}
	return r
}

func matchBr(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		if s[i] == '[' {
			d++
		}
		if s[i] == ']' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	panic(serr("bad type %s", s))
}

func (x *Exec) pkgOf() *types.Package {
	if x.fn != nil && x.fn.Pkg != nil {
		return x.fn.Pkg.Pkg
	}
	return x.P.pkgs[0].Pkg
}

func (e *SEnv) bool(x *Expr) *Term {
	t := e.eval(x).term(e)
	if t.Sort != sBool {
		panic(serr("boolean expected, got %s", t.Sort))
	}
	return t
}

func (e *SEnv) eval(x *Expr) EV {
	switch x.Op {
	case "int":
		n, _ := new(big.Int).SetString(x.Name, 10)
		return tv(mkBig(n), tInt)
	case "str":
		return tv(mkStr(x.Name), tString)
	case "true":
		return tv(tTrue, tBoolT)
	case "false":
		return tv(tFalse, tBoolT)
	case "id":
		return e.ident(x.Name)
	case "old":
		if e.old == nil {
			panic(serr("old() not available"))
		}
		return e.in(e.old).eval(x.Args[0])
	case "pre":
		if e.pre == nil {
			panic(serr("pre() not available"))
		}
		return e.in(e.pre).eval(x.Args[0])
	case "!":
		return tv(mkNot(e.bool(x.Args[0])), tBoolT)
	case "&&":
		l := e.bool(x.Args[0])
		if l.Op == "false" {
			return tv(l, tBoolT)
		}
		return tv(mkAnd(l, e.bool(x.Args[1])), tBoolT)
	case "||":
		return tv(mkOr(e.bool(x.Args[0]), e.bool(x.Args[1])), tBoolT)
	case "==>":
		l := e.bool(x.Args[0])
		if l.Op == "false" {
			return tv(tTrue, tBoolT)
		}
		return tv(mkImp(l, e.bool(x.Args[1])), tBoolT)
	case "<==>":
		return tv(mkEq(e.bool(x.Args[0]), e.bool(x.Args[1])), tBoolT)
	case "==", "!=":
		t := e.eq(e.eval(x.Args[0]), e.eval(x.Args[1]))
		if x.Op == "!=" {
			t = mkNot(t)
		}
		return tv(t, tBoolT)
	case "<", "<=", ">", ">=":
		l, r := e.eval(x.Args[0]).term(e), e.eval(x.Args[1]).term(e)
		if x.Op[0] == '>' {
			l, r = r, l
		}
		if l.Sort == sStr {
			if len(x.Op) == 1 {
				return tv(app("str.<", sBool, l, r), tBoolT)
			}
			return tv(app("str.<=", sBool, l, r), tBoolT)
		}
		if len(x.Op) == 1 {
			return tv(mkLt(l, r), tBoolT)
		}
		return tv(mkLe(l, r), tBoolT)
	case "in":
		return tv(e.member(e.eval(x.Args[0]), e.eval(x.Args[1])), tBoolT)
	case "+":
		l, r := e.eval(x.Args[0]), e.eval(x.Args[1])
		a, b := l.term(e), r.term(e)
		if a.Sort == sStr {
			return EV{v: mkCat(a, b), t: tString, s: sStr}
		}
		return tv(mkAdd(a, b), tInt)
	case "-":
		return tv(mkSub(e.eval(x.Args[0]).term(e), e.eval(x.Args[1]).term(e)), tInt)
	case "*":
		return tv(mkMul(e.eval(x.Args[0]).term(e), e.eval(x.Args[1]).term(e)), tInt)
	case "/":
		return tv(ufn("godiv", sInt, e.eval(x.Args[0]).term(e), e.eval(x.Args[1]).term(e)), tInt)
	case "%":
		return tv(ufn("gomod", sInt, e.eval(x.Args[0]).term(e), e.eval(x.Args[1]).term(e)), tInt)
	case "neg":
		return tv(mkSub(mkInt(0), e.eval(x.Args[0]).term(e)), tInt)
	case "ite":
		c := e.bool(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		at, bt := a.term(e), b.term(e)
		if at.Sort != bt.Sort {
			panic(serr("if branches differ: %s %s", at.Sort, bt.Sort))
		}
		return EV{v: mkIte(c, at, bt), t: a.t, s: at.Sort}
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "deref":
		p := e.eval(x.Args[0])
		el := deref(p.t)
		v := e.x.loadPtr(e.st, p.v, el)
		return EV{v: v, t: el, s: typeSort(el)}
	case "forall", "exists":
		return e.quant(x)
	case "sel":
		return e.sel(x)
	case "idx":
		return e.index(e.eval(x.Args[0]), e.eval(x.Args[1]))
	case "slice":
		b := e.eval(x.Args[0])
		var lo, hi *Term
		if x.Args[1] != nil {
			lo = e.eval(x.Args[1]).term(e)
		} else {
			lo = mkInt(0)
		}
		switch b.s {
		case sStr:
			t := b.term(e)
			hi = mkLen(t)
			if x.Args[2] != nil {
				hi = e.eval(x.Args[2]).term(e)
			}
			return tv(mkSubstr(t, lo, mkSub(hi, lo)), b.t)
		case sSlice:
			t := b.term(e)
			hi = slLen(t)
			if x.Args[2] != nil {
				hi = e.eval(x.Args[2]).term(e)
			}
			return EV{v: mkCtor(sSlice, slRef(t), mkAdd(slOff(t), lo), mkSub(hi, lo), mkSub(slCap(t), lo)), t: b.t, s: sSlice}
		}
		panic(serr("cannot slice %s", b.s))
	case "call":
		return e.call(x)
	case "assert":
		v := e.eval(x.Args[0])
		t, _ := e.x.resolveType(x.Name)
		return tv(unbox(t, mkSel(sIface, 1, v.term(e))), t)
	case "composite":
		t, srt := e.x.resolveType(x.Name)
		d := dts[srt]
		if d == nil {
			panic(serr("%s is not a struct", x.Name))
		}
		v := zero(t)
		for i, b := range x.Bound {
			fi, ok := fieldIndex(t, b.Name)
			if !ok {
				panic(serr("no field %s", b.Name))
			}
			v = mkUpd(srt, fi, v, e.eval(x.Args[i]).term(e))
		}
		return tv(v, t)
	case "mcall":
		// pkg.fn(...) or value method macro: treated as macro Name(value, args...)
		return e.call(&Expr{Op: "call", Name: x.Name, Args: x.Args})
	}
	panic(serr("cannot evaluate %s", x.Op))
}

func (e *SEnv) eq(a, b EV) *Term {
	if isNilEV(b) {
		return e.isNil(a)
	}
	if isNilEV(a) {
		return e.isNil(b)
	}
	at, bt := a.term(e), b.term(e)
	if at.Sort == sSlice && bt.Sort == sSlice {
		return mkEq(at, bt)
	}
	if at.Sort == sInt && bt.Sort == sInt && isCode(at, bt) {
		return codeEq(at, bt)
	}
	if at.Sort == sBS && bt.Sort == sStr {
		at = bsStr(at)
	}
	if bt.Sort == sBS && at.Sort == sStr {
		bt = bsStr(bt)
	}
	if at.Sort == sBS && bt.Sort == sBS {
		return mkEq(bsStr(at), bsStr(bt))
	}
	if at.Sort != bt.Sort {
		panic(serr("comparing %s with %s", at.Sort, bt.Sort))
	}
	return mkEq(at, bt)
}

func isNilEV(a EV) bool { return a.s == "nil" }

func (e *SEnv) isNil(a EV) *Term {
	if _, ok := a.v.(*Addr); ok {
		return tFalse
	}
	if _, ok := a.v.(*Clo); ok {
		return tFalse
	}
	t := a.term(e)
	switch t.Sort {
	case sInt:
		return mkEq(t, mkInt(0))
	case sIface:
		return mkEq(mkSel(sIface, 0, t), mkInt(0))
	case sSlice:
		return mkEq(slRef(t), mkInt(0))
	case sBS:
		return bsNil(t)
	}
	panic(serr("nil comparison with %s", t.Sort))
}

func (e *SEnv) ident(n string) EV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.hook != nil {
		if v, ok := e.hook(n); ok {
			return v
		}
	}
	if n == "nil" {
		return EV{v: mkInt(0), s: "nil"}
	}
	if g, ok := e.x.sp.ghosts[n]; ok {
		t, srt := e.x.resolveType(g.Type)
		v := e.x.heapArr(e.st, "G:"+n, srt)
		if t != nil {
			e.st.wf(t, v)
		}
		return EV{v: v, t: t, s: srt}
	}
	for _, p := range append([]*types.Package{e.x.pkgOf()}, e.x.pkgList()...) {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			return constEV(o)
		case *types.Var:
			a := &Addr{heap: "G:" + p.Name() + "." + n, typ: o.Type()}
			return EV{v: e.x.load(e.st, a), t: o.Type(), s: typeSort(o.Type())}
		}
	}
	if f := e.x.sp.fns[n]; f != nil && len(f.Params) == 0 {
		return e.call(&Expr{Op: "call", Name: n})
	}
	panic(serr("unknown name %s", n))
}

func (x *Exec) pkgList() []*types.Package {
	var out []*types.Package
	for _, p := range x.P.pkgs {
		out = append(out, p.Pkg)
	}
	return out
}

func constEV(o *types.Const) EV {
	t := o.Type()
	switch {
	case isString(t):
		return tv(mkStr(constant.StringVal(o.Val())), t)
	case isBool(t):
		return tv(mkBool(constant.BoolVal(o.Val())), t)
	case isInteger(t):
		n, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
		return tv(mkBig(n), t)
	}
	panic(serr("constant %s", o.Name()))
}

func (e *SEnv) member(k, c EV) *Term {
	if strings.HasPrefix(c.s, "(Array") {
		ks, _ := arrSorts(c.s)
		kt := k.term(e)
		if kt.Sort != ks {
			panic(serr("in: element of sort %s, set of %s", kt.Sort, ks))
		}
		return mkSelect(c.term(e), kt)
	}
	if c.t != nil {
		if _, _, ok := mapTypes(c.t); ok {
			return mkSelect(e.x.mapDom(e.st, mapT(c.t), c.term(e)), e.key(c.t, k))
		}
	}
	panic(serr("in: not a map or set"))
}

func mapT(t types.Type) types.Type {
	if _, ok := t.Underlying().(*types.Map); ok {
		return t
	}
	return t
}

func (e *SEnv) key(mt types.Type, k EV) *Term {
	kt, _, _ := mapTypes(mt)
	t := k.term(e)
	if typeSort(kt) == sIface && t.Sort != sIface {
		return mkIfaceOf(k.t, t)
	}
	if t.Sort != typeSort(kt) {
		panic(serr("map key of sort %s, map of %s", t.Sort, typeSort(kt)))
	}
	return t
}

func (e *SEnv) index(b, i EV) EV {
	if g, ok := b.t.(*GMap); ok {
		v := mkSelect(b.term(e), i.term(e))
		return EV{v: v, t: g.elem, s: v.Sort}
	}
	if b.t != nil {
		if kt, vt, ok := mapTypes(b.t); ok {
			_ = kt
			v, _ := e.x.mapGet(e.st, mapT(b.t), b.term(e), e.key(b.t, i))
			return EV{v: v, t: vt, s: v.Sort}
		}
		switch u := b.t.Underlying().(type) {
		case *types.Slice:
			if isByte(u.Elem()) {
				return tv(strAt(bsStr(b.term(e)), i.term(e)), u.Elem())
			}
			v := e.x.sliceElem(e.st, u.Elem(), b.term(e), i.term(e))
			if !hasBound(v) {
				e.st.wf(u.Elem(), v)
			}
			return tv(v, u.Elem())
		case *types.Basic:
			return tv(strAt(b.term(e), i.term(e)), types.Typ[types.Uint8])
		}
	}
	if b.s == sStr {
		return tv(strAt(b.term(e), i.term(e)), types.Typ[types.Uint8])
	}
	if strings.HasPrefix(b.s, "(Array") {
		v := mkSelect(b.term(e), i.term(e))
		return EV{v: v, s: v.Sort}
	}
	panic(serr("cannot index %s", b.s))
}

func (e *SEnv) sel(x *Expr) EV {
	// pkg.Name
	if x.Args[0].Op == "id" {
		n := x.Args[0].Name
		if _, isVar := e.vars[n]; !isVar {
			if p := e.x.P.byPkg[n]; p != nil {
				switch o := p.Scope().Lookup(x.Name).(type) {
				case *types.Const:
					return constEV(o)
				case *types.Var:
					return EV{v: e.x.load(e.st, &Addr{heap: "G:" + p.Name() + "." + x.Name, typ: o.Type()}), t: o.Type(), s: typeSort(o.Type())}
				}
			}
		}
	}
	b := e.eval(x.Args[0])
	return e.selField(b, x.Name)
}

func (e *SEnv) selField(b EV, name string) EV {
	if b.t == nil {
		// Selector of spec datatypes is not supported.
		panic(serr("field %s of sort %s", name, b.s))
	}
	st := deref(b.t)
	if g, ok := e.x.sp.gfields[typeKey(st)+"."+name]; ok {
		gt, srt := e.x.resolveType(g)
		v := mkSelect(e.x.heapArr(e.st, "F:"+typeKey(st)+"."+name, arrSort(sInt, srt)), b.term(e))
		return EV{v: v, t: gt, s: srt}
	}
	fi, ok := fieldIndex(st, name)
	if !ok {
		// Promoted field through embedded structs.
		if s, is := st.Underlying().(*types.Struct); is {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Embedded() {
					if _, ok := fieldIndex(deref(s.Field(i).Type()), name); ok {
						return e.selField(e.selField(b, s.Field(i).Name()), name)
					}
				}
			}
		}
		panic(serr("no field %s in %s", name, st))
	}
	ft := st.Underlying().(*types.Struct).Field(fi).Type()
	if _, isP := b.t.Underlying().(*types.Pointer); isP {
		a := e.x.fieldAddr(e.st, b.v, st, fi)
		v := e.x.loadSpec(e.st, a)
		return EV{v: v, t: ft, s: typeSort(ft)}
	}
	v := mkSel(b.s, fi, b.term(e))
	return EV{v: v, t: ft, s: v.Sort}
}

// loadSpec loads without adding assumptions about bound variables.
func (x *Exec) loadSpec(st *State, a *Addr) Val {
	v := x.baseLoad(st, a)
	if len(a.path) > 0 {
		t, ok := v.(*Term)
		if !ok {
			panic(serr("path into non-term"))
		}
		for _, p := range a.path {
			t = stepGet(t, p)
		}
		v = t
	}
	if t, ok := v.(*Term); ok && !hasBound(t) {
		st.wf(a.typ, t)
		if _, isF := a.typ.Underlying().(*types.Signature); isF && a.cell == 0 {
			x.prov[t.ID] = strings.TrimPrefix(strings.TrimPrefix(a.heap, "F:"), "G:")
		}
	}
	return v
}

var boundSeq int

func (e *SEnv) quant(x *Expr) EV {
	c := e
	var bs []*Term
	var guards, defPats []*Term
	sets := x.Sets
	for _, b := range x.Bound {
		if b.Type == "in" || strings.HasPrefix(b.Type, "in:") {
			sl := c.eval(sets[0])
			sets = sets[1:]
			st, ok := sl.t.Underlying().(*types.Slice)
			if !ok || isByte(st.Elem()) {
				panic(serr("quantification over %s", sl.t))
			}
			j := mkBound(fmt.Sprintf("%s!b%d", b.Name, e.dep*10+len(bs)), sInt)
			bs = append(bs, j)
			sv := sl.term(c)
			el := mkSelect(mkSelect(e.x.mem(c.st, st.Elem()), slRef(sv)), j)
			c = c.with(b.Name, EV{v: el, t: st.Elem(), s: el.Sort})
			if n := strings.TrimPrefix(b.Type, "in:"); n != b.Type {
				c = c.with(n, tv(mkSub(j, slOff(sv)), tInt))
			}
			guards = append(guards, mkLe(slOff(sv), j), mkLt(j, mkAdd(slOff(sv), slLen(sv))))
			defPats = append(defPats, el)
			continue
		}
		t, srt := e.x.resolveType(b.Type)
		v := mkBound(fmt.Sprintf("%s!b%d", b.Name, e.dep*10+len(bs)), srt)
		bs = append(bs, v)
		c = c.with(b.Name, EV{v: v, t: t, s: srt})
		if b.Type == "nat" {
			guards = append(guards, mkLe(mkInt(0), v))
		}
	}
	cc := *c
	cc.dep = e.dep + 1
	c = &cc
	body := c.bool(x.Args[0])
	var pats [][]*Term
	for _, p := range x.Pats {
		var ps []*Term
		for _, a := range p {
			ps = append(ps, c.eval(a).term(c))
		}
		pats = append(pats, ps)
	}
	if len(pats) == 0 && len(defPats) > 0 && len(defPats) == len(bs) {
		pats = [][]*Term{defPats}
	}
	if x.Op == "forall" {
		if len(guards) > 0 {
			body = mkImp(mkAnd(guards...), body)
		}
		return tv(mkForall(bs, body, pats...), tBoolT)
	}
	body = mkAnd(append(guards, body)...)
	r := mkExists(bs, body)
	if r.Op == "exists" && len(pats) > 0 {
		r = mkNot(mkForall(bs, mkNot(body), pats...))
	}
	return tv(r, tBoolT)
}

func (e *SEnv) call(x *Expr) EV {
	arg := func(i int) EV { return e.eval(x.Args[i]) }
	n := func(k int) {
		if len(x.Args) != k {
			panic(serr("%s needs %d arguments", x.Name, k))
		}
	}
	switch x.Name {
	case "len":
		n(1)
		a := arg(0)
		switch {
		case a.s == sStr:
			return tv(mkLen(a.term(e)), tInt)
		case a.s == sBS:
			return tv(mkLen(bsStr(a.term(e))), tInt)
		case a.s == sSlice:
			return tv(slLen(a.term(e)), tInt)
		case a.t != nil:
			if _, _, ok := mapTypes(a.t); ok {
				return tv(e.x.mapLen(e.st, mapT(a.t), a.term(e)), tInt)
			}
		}
		panic(serr("len of %s", a.s))
	case "cap":
		return tv(slCap(arg(0).term(e)), tInt)
	case "string":
		a := arg(0)
		if a.s == sBS {
			return tv(bsStr(a.term(e)), tString)
		}
		return tv(a.term(e), tString)
	case "hasPrefix":
		n(2)
		return tv(mkPrefixOf(e.str(arg(1)), e.str(arg(0))), tBoolT)
	case "hasSuffix":
		n(2)
		return tv(mkSuffixOf(e.str(arg(1)), e.str(arg(0))), tBoolT)
	case "contains":
		n(2)
		return tv(app("str.contains", sBool, e.str(arg(0)), e.str(arg(1))), tBoolT)
	case "indexOf":
		n(2)
		return tv(app("str.indexof", sInt, e.str(arg(0)), e.str(arg(1)), mkInt(0)), tInt)
	case "char":
		n(2)
		return tv(app("str.at", sStr, e.str(arg(0)), arg(1).term(e)), tString)
	case "dom":
		a := arg(0)
		t := e.x.mapDom(e.st, mapT(a.t), a.term(e))
		return EV{v: t, s: t.Sort}
	case "vals":
		a := arg(0)
		t := e.x.mapVal(e.st, mapT(a.t), a.term(e))
		return EV{v: t, s: t.Sort}
	case "emptyset":
		_, srt := e.x.resolveType(x.Args[0].Name)
		t := mkConstArr(arrSort(srt, sBool), tFalse)
		return EV{v: t, s: t.Sort}
	case "store":
		n(3)
		t := mkStore(arg(0).term(e), arg(1).term(e), arg(2).term(e))
		return EV{v: t, t: arg(0).t, s: t.Sort}
	case "any":
		a := arg(0)
		return EV{v: mkIfaceOf(a.t, a.term(e)), t: types.NewInterfaceType(nil, nil), s: sIface}
	case "ref":
		a := arg(0)
		if a.s == sSlice {
			return tv(slRef(a.term(e)), tInt)
		}
		return tv(a.term(e), tInt)
	case "off":
		return tv(slOff(arg(0).term(e)), tInt)
	case "fresh": // allocated after function entry
		a := arg(0)
		var r *Term
		if a.s == sSlice {
			r = slRef(a.term(e))
		} else {
			r = a.term(e)
		}
		if e.old == nil {
			panic(serr("fresh() not available"))
		}
		return tv(mkLt(e.old.topTerm(), r), tBoolT)
	case "allocated": // allocated in the current state
		a := arg(0)
		var r *Term
		if a.s == sSlice {
			r = slRef(a.term(e))
		} else {
			r = a.term(e)
		}
		return tv(mkLe(r, e.st.topTerm()), tBoolT)
	case "tag":
		return tv(mkSel(sIface, 0, arg(0).term(e)), tInt)
	case "isType": // isType(iface, T)
		t, _ := e.x.resolveType(exprType(x.Args[1]))
		return tv(mkEq(mkSel(sIface, 0, arg(0).term(e)), typeTag(t)), tBoolT)
	case "asType":
		t, _ := e.x.resolveType(exprType(x.Args[1]))
		return tv(unbox(t, mkSel(sIface, 1, arg(0).term(e))), t)
	case "float":
		return tv(ufn("f64ofint", sF64, arg(0).term(e)), types.Typ[types.Float64])
	case "toint":
		return tv(ufn("intoff64", sInt, arg(0).term(e)), tInt)
	case "feq":
		return tv(ufn("feq", sBool, arg(0).term(e), arg(1).term(e)), tBoolT)
	case "elems": // the backing array of a slice, from its offset
		a := arg(0)
		el := a.t.Underlying().(*types.Slice).Elem()
		t := mkSelect(e.x.mem(e.st, el), slRef(a.term(e)))
		return EV{v: t, s: t.Sort}
	case "update": // update(struct, field, value)
		a := arg(0)
		fi, ok := fieldIndex(deref(a.t), x.Args[1].Name)
		if !ok {
			panic(serr("no field %s", x.Args[1].Name))
		}
		return tv(mkUpd(a.s, fi, a.term(e), arg(2).term(e)), a.t)
	case "toLower":
		return tv(ufn("toLower", sStr, e.str(arg(0))), tString)
	case "replaceAll":
		n(3)
		return tv(app("str.replace_all", sStr, e.str(arg(0)), e.str(arg(1)), e.str(arg(2))), tString)
	}
	f := e.x.sp.fns[x.Name]
	if f == nil {
		panic(serr("unknown function %s", x.Name))
	}
	if len(f.Params) != len(x.Args) {
		panic(serr("%s needs %d arguments", x.Name, len(f.Params)))
	}
	if f.Body != nil {
		if e.dep > 60 {
			panic(serr("macro recursion in %s", x.Name))
		}
		m := map[string]EV{}
		for i, p := range f.Params {
			v := e.eval(x.Args[i])
			if v.t == nil || true {
				t, srt := e.x.resolveType(p.Type)
				if v.s == "nil" {
					v = EV{v: zeroSort(srt), t: t, s: srt}
				}
				if t != nil && v.t == nil {
					v.t = t
				}
				if v.s == sBS && srt == sStr {
					v = tv(bsStr(v.term(e)), tString)
				}
			}
			m[p.Name] = v
		}
		c := *e
		c.vars = m
		c.dep = e.dep + 7
		return c.eval(f.Body)
	}
	var as []*Term
	for i, p := range f.Params {
		_, srt := e.x.resolveType(p.Type)
		v := e.eval(x.Args[i])
		if v.s == "nil" {
			as = append(as, zeroSort(srt))
			continue
		}
		t := v.term(e)
		if t.Sort == sBS && srt == sStr {
			t = bsStr(t)
		}
		if t.Sort == sBool && srt == sInt {
			t = mkIte(t, mkInt(1), mkInt(0))
		}
		if t.Sort != srt {
			panic(serr("%s argument %d: %s, want %s", x.Name, i+1, t.Sort, srt))
		}
		as = append(as, t)
	}
	rt, rs := e.x.resolveType(f.Result)
	fn := "s!" + x.Name
	if rs != sBool || true {
		r := ufn(fn, rs, as...)
		return EV{v: r, t: rt, s: rs}
	}
	return EV{}
}

func exprType(x *Expr) string {
	switch x.Op {
	case "id":
		return x.Name
	case "sel":
		return exprType(x.Args[0]) + "." + x.Name
	case "deref":
		return "*" + exprType(x.Args[0])
	}
	if x.Op == "str" {
		return x.Name
	}
	panic(serr("type expected"))
}

func (e *SEnv) str(v EV) *Term {
	t := v.term(e)
	if t.Sort == sBS {
		return bsStr(t)
	}
	if t.Sort != sStr {
		panic(serr("string expected, got %s", t.Sort))
	}
	return t
}
