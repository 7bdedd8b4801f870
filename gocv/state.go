package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is *Term, *Addr, Tuple, *Clo or *mapIter.
type Val any

// Tuple is a multi-value.
type Tuple []Val

type step struct {
	field int    // struct field index, or -1
	idx   *Term  // array index
	sort  string // sort of the container stepped into
}

// Addr is an engine-level address.
type Addr struct {
	cell int    // >0: local cell
	heap string // else heap array ("F:", "M:", "P:", "G:")
	ref  *Term  // heap index (nil for G:)
	idx  *Term  // element index for M:
	path []step
	typ  types.Type // pointee
}

// Clo is a function value known to the engine.
type Clo struct {
	fn    *ssa.Function
	binds []Val
	id    int64
	impl  string // for callback contract values
}

type mapIter struct {
	cell  int // visited set
	ref   *Term
	mt    types.Type
	dom0  *Term
	str   *Term // string ranged over
	instr ssa.Value
}

type envKey struct {
	f int
	v ssa.Value
}

type deferRec struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

// State is a symbolic state of one path.
type State struct {
	heap     map[string]*Term
	cells    map[int]Val
	env      map[envKey]Val
	pc       []*Term
	pcSet    map[int]bool
	eqc      map[int]*Term // term -> constant it equals
	top      *Term
	topK     int64
	defers   map[int][]deferRec
	loops    []*loopCtx
	panicVal map[int]bool // frames currently panicking
	lastMap  map[string]int
	trace    []string
	held     map[string]bool
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.env = make(map[envKey]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcSet = make(map[int]bool, len(s.pcSet))
	for k := range s.pcSet {
		n.pcSet[k] = true
	}
	n.eqc = make(map[int]*Term, len(s.eqc))
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.defers = make(map[int][]deferRec, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.panicVal = make(map[int]bool, len(s.panicVal))
	for k, v := range s.panicVal {
		n.panicVal[k] = v
	}
	n.loops = s.loops[:len(s.loops):len(s.loops)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.held = map[string]bool{}
	for k, v := range s.held {
		n.held[k] = v
	}
	return &n
}

func newState() *State {
	return &State{heap: map[string]*Term{}, cells: map[int]Val{}, env: map[envKey]Val{}, pcSet: map[int]bool{}, eqc: map[int]*Term{},
		defers: map[int][]deferRec{}, panicVal: map[int]bool{}, held: map[string]bool{}}
}

// ---- allocation order ----

var (
	topOrd   = map[int]int{}      // top var term id -> order
	refBound = map[int][2]int64{} // term id -> (ord, k): value <= top_ord + k
)

func newTop() *Term {
	t := fresh("top", sInt)
	topOrd[t.ID] = len(topOrd) + 1
	return t
}

func (s *State) topTerm() *Term { return mkAdd(s.top, mkInt(s.topK)) }

func (s *State) newRef() *Term {
	s.topK++
	return s.topTerm()
}

// advanceTop forgets how much was allocated.
func (s *State) advanceTop() {
	nt := newTop()
	s.assume(mkLe(s.topTerm(), nt))
	s.top, s.topK = nt, 0
}

// allocOf recognises references allocated on this path: top var + k, k>=1.
func allocOf(t *Term) (ord int, k int64, ok bool) {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].isInt() {
		if o, is := topOrd[t.Args[0].ID]; is {
			n, err := strconv.ParseInt(t.Args[1].Str, 10, 64)
			if err == nil && n >= 1 {
				return o, n, true
			}
		}
	}
	return 0, 0, false
}

// refsDistinct uses allocation order.
func refsDistinct(a, b *Term) bool {
	oa, ka, fa := allocOf(a)
	ob, kb, fb := allocOf(b)
	if fa && fb {
		return oa != ob || ka != kb
	}
	if fb {
		a, b, fa, oa, ka = b, a, true, ob, kb
	}
	if fa {
		if b.isInt() && b.Str == "0" {
			return true
		}
		if bd, ok := refBound[b.ID]; ok {
			return bd[0] < int64(oa) || bd[0] == int64(oa) && bd[1] < ka
		}
	}
	return false
}

// wf adds the typing facts of a value of type t to the state.
func (s *State) wf(t types.Type, v *Term) {
	if v.Op == "int" || v.Op == "str" || isCtor(v) && v.Sort != sSlice {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if _, _, al := allocOf(v); al {
			return
		}
		bd := [2]int64{int64(topOrd[s.top.ID]), s.topK}
		if old, ok := refBound[v.ID]; !ok || bd[0] < old[0] || bd[0] == old[0] && bd[1] < old[1] {
			refBound[v.ID] = bd
		}
		s.assume(mkAnd(mkLe(mkInt(0), v), mkLe(v, s.topTerm())))
	case *types.Slice:
		if isByte(u.Elem()) {
			s.assume(mkImp(bsNil(v), mkEq(bsStr(v), mkStr(""))))
			return
		}
		r := slRef(v)
		if _, _, al := allocOf(r); !al && !r.isInt() {
			bd := [2]int64{int64(topOrd[s.top.ID]), s.topK}
			if old, ok := refBound[r.ID]; !ok || bd[0] < old[0] || bd[0] == old[0] && bd[1] < old[1] {
				refBound[r.ID] = bd
			}
		}
		s.assume(mkAnd(mkLe(mkInt(0), r), mkLe(r, s.topTerm()), mkLe(mkInt(0), slOff(v)), mkLe(mkInt(0), slLen(v)), mkLe(slLen(v), slCap(v)),
			mkImp(mkEq(r, mkInt(0)), mkAnd(mkEq(slCap(v), mkInt(0)), mkEq(slOff(v), mkInt(0))))))
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			s.assume(mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(255))))
		} else if u.Info()&types.IsUnsigned != 0 {
			s.assume(mkLe(mkInt(0), v))
		}
	case *types.Struct:
		d := dts[v.Sort]
		if d == nil {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			s.wf(u.Field(i).Type(), mkSel(v.Sort, i, v))
		}
	case *types.Interface:
		s.assume(mkAnd(mkLe(mkInt(0), mkSel(sIface, 0, v)), mkImp(mkEq(mkSel(sIface, 0, v), mkInt(0)), mkEq(mkSel(sIface, 1, v), mkInt(0)))))
	}
}

func (s *State) assume(t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.pcSet[t.ID] {
		return
	}
	s.pcSet[t.ID] = true
	s.pc = append(s.pc, t)
	if t.Op == "=" {
		if isConst(t.Args[0]) {
			s.eqc[t.Args[1].ID] = t.Args[0]
		} else if isConst(t.Args[1]) {
			s.eqc[t.Args[0].ID] = t.Args[1]
		}
	}
}

// dead reports a syntactically contradictory path.
func (s *State) dead() bool { return s.pcSet[tFalse.ID] }

// simp simplifies a condition under the path condition.
func (s *State) simp(t *Term) *Term {
	if s.pcSet[t.ID] {
		return tTrue
	}
	if t.Op != "true" && t.Op != "false" && s.pcSet[mkNot(t).ID] {
		return tFalse
	}
	switch t.Op {
	case "not":
		return mkNot(s.simp(t.Args[0]))
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, s.simp(a))
		}
		if t.Op == "and" {
			return mkAnd(as...)
		}
		return mkOr(as...)
	case "=":
		a, b := t.Args[0], t.Args[1]
		if c, ok := s.eqc[a.ID]; ok {
			a = c
		}
		if c, ok := s.eqc[b.ID]; ok {
			b = c
		}
		if a != t.Args[0] || b != t.Args[1] {
			r := mkEq(a, b)
			if isConst(r) {
				return r
			}
		}
	case "<=", "<":
		// strict/non-strict duals.
		if t.Op == "<=" && s.pcSet[mkLt(t.Args[0], t.Args[1]).ID] {
			return tTrue
		}
		if t.Op == "<=" && s.pcSet[mkLt(t.Args[1], t.Args[0]).ID] {
			return tFalse
		}
		if t.Op == "<" && s.pcSet[mkLe(t.Args[1], t.Args[0]).ID] {
			return tFalse
		}
		var as [2]*Term
		for i, a := range t.Args {
			as[i] = a
			if c, ok := s.eqc[a.ID]; ok {
				as[i] = c
			}
		}
		if as[0] != t.Args[0] || as[1] != t.Args[1] {
			var r *Term
			if t.Op == "<=" {
				r = mkLe(as[0], as[1])
			} else {
				r = mkLt(as[0], as[1])
			}
			if isConst(r) {
				return r
			}
		}
	}
	return t
}

// ---- heap access ----

func heapSort(x *Exec, name string) string { return x.heapSorts[name] }

func (x *Exec) heapArr(st *State, name, srt string) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	x.heapSorts[name] = srt
	t, ok := x.heap0[name]
	if !ok {
		t = mkVar("h0!"+name, srt)
		x.heap0[name] = t
	}
	st.heap[name] = t
	return t
}

type writeRec struct {
	heap string
	ref  *Term // nil: everything
	cell int
}

type recorder struct {
	writes []writeRec
}

func (x *Exec) record(w writeRec) {
	for _, r := range x.recs {
		r.writes = append(r.writes, w)
	}
}

func (x *Exec) setHeap(st *State, name string, ref, v *Term) {
	x.record(writeRec{heap: name, ref: ref})
	st.heap[name] = v
}

func fieldHeap(t types.Type, i int) (string, types.Type) {
	s := t.Underlying().(*types.Struct)
	return "F:" + typeKey(t) + "." + s.Field(i).Name(), s.Field(i).Type()
}

func (x *Exec) baseLoad(st *State, a *Addr) Val {
	if a.cell > 0 {
		v, ok := st.cells[a.cell]
		if !ok {
			panic(unsup("dead cell"))
		}
		return v
	}
	if a.ref == nil {
		return x.heapArr(st, a.heap, x.addrBaseSort(a))
	}
	srt := x.addrBaseSort(a)
	if a.idx != nil {
		arr := x.heapArr(st, a.heap, arrSort(sInt, arrSort(sInt, srt)))
		return mkSelect(mkSelect(arr, a.ref), a.idx)
	}
	arr := x.heapArr(st, a.heap, arrSort(sInt, srt))
	return mkSelect(arr, a.ref)
}

func (x *Exec) addrBaseSort(a *Addr) string {
	if len(a.path) > 0 {
		return a.path[0].sort
	}
	return typeSort(a.typ)
}

func (x *Exec) load(st *State, a *Addr) Val {
	v := x.baseLoad(st, a)
	if len(a.path) > 0 {
		t, ok := v.(*Term)
		if !ok {
			panic(unsup("path into non-term"))
		}
		for _, p := range a.path {
			t = stepGet(t, p)
		}
		v = t
	}
	if t, ok := v.(*Term); ok {
		st.wf(a.typ, t)
		if _, isF := a.typ.Underlying().(*types.Signature); isF && a.cell == 0 {
			x.prov[t.ID] = strings.TrimPrefix(strings.TrimPrefix(a.heap, "F:"), "G:")
		}
	}
	return v
}

func stepGet(t *Term, p step) *Term {
	if p.idx != nil {
		return mkSelect(t, p.idx)
	}
	if dts[t.Sort] == nil {
		panic(unsup("field of opaque %s", t.Sort))
	}
	return mkSel(t.Sort, p.field, t)
}

func stepSet(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	inner := stepSet(stepGet(t, p), path[1:], v)
	if p.idx != nil {
		return mkStore(t, p.idx, inner)
	}
	return mkUpd(t.Sort, p.field, t, inner)
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if len(a.path) == 0 && a.cell > 0 {
		if ad, ok := v.(*Addr); ok {
			_ = ad
		} else {
			v = x.term(st, v)
		}
		x.record(writeRec{cell: a.cell})
		st.cells[a.cell] = v
		return
	}
	t := x.term(st, v)
	if len(a.path) > 0 {
		b, ok := x.baseLoad(st, a).(*Term)
		if !ok {
			panic(unsup("path into non-term"))
		}
		t = stepSet(b, a.path, t)
	}
	if a.cell > 0 {
		x.record(writeRec{cell: a.cell})
		st.cells[a.cell] = t
		return
	}
	x.checkGuard(st, a, true)
	if a.ref == nil {
		x.heapArr(st, a.heap, x.addrBaseSort(a))
		x.setHeap(st, a.heap, nil, t)
		return
	}
	srt := x.addrBaseSort(a)
	if a.idx != nil {
		arr := x.heapArr(st, a.heap, arrSort(sInt, arrSort(sInt, srt)))
		x.setHeap(st, a.heap, a.ref, mkStore(arr, a.ref, mkStore(mkSelect(arr, a.ref), a.idx, t)))
		return
	}
	arr := x.heapArr(st, a.heap, arrSort(sInt, srt))
	x.setHeap(st, a.heap, a.ref, mkStore(arr, a.ref, t))
}

// term converts a value into an SMT term.
func (x *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Clo:
		return mkInt(v.id)
	case *Addr:
		if v.cell == 0 && v.ref != nil && v.idx == nil && len(v.path) == 0 && strings.HasPrefix(v.heap, "P:") {
			return v.ref
		}
		return x.materialize(st, v)
	}
	panic(unsup("value %T as term", v))
}

// interior pointers that leave the engine get an opaque non-nil reference.
func (x *Exec) materialize(st *State, a *Addr) *Term {
	if a.cell > 0 && len(a.path) == 0 {
		panic(unsup("address of local variable escapes"))
	}
	var args []*Term
	n := "addr!" + a.heap
	if a.ref != nil {
		args = append(args, a.ref)
	}
	if a.idx != nil {
		args = append(args, a.idx)
	}
	if a.cell > 0 {
		n = fmt.Sprintf("addr!cell%d", a.cell)
	}
	for _, p := range a.path {
		n += fmt.Sprintf(".%d", p.field)
	}
	t := ufn(n, sInt, args...)
	st.assume(mkLt(mkInt(0), t))
	return t
}

// fieldAddr computes &base.f.
func (x *Exec) fieldAddr(st *State, base Val, structT types.Type, f int) *Addr {
	s := structT.Underlying().(*types.Struct)
	ft := s.Field(f).Type()
	switch b := base.(type) {
	case *Term:
		h, _ := fieldHeap(structT, f)
		return &Addr{heap: h, ref: b, typ: ft}
	case *Addr:
		n := *b
		n.path = append(append([]step(nil), b.path...), step{field: f, sort: typeSort(structT)})
		n.typ = ft
		return &n
	}
	panic(unsup("field address of %T", base))
}

// loadStruct loads the whole struct a pointer points to.
func (x *Exec) loadPtr(st *State, p Val, elem types.Type) Val {
	switch p := p.(type) {
	case *Addr:
		return x.load(st, p)
	case *Term:
		if s, ok := elem.Underlying().(*types.Struct); ok && dts[typeSort(elem)] != nil {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, x.term(st, x.load(st, x.fieldAddr(st, p, elem, i))))
			}
			if len(fs) == 0 {
				fs = append(fs, mkInt(0))
			}
			return mkCtor(typeSort(elem), fs...)
		}
		return x.load(st, &Addr{heap: "P:" + typeKey(elem), ref: p, typ: elem})
	}
	panic(unsup("load through %T", p))
}

func (x *Exec) storePtr(st *State, p Val, elem types.Type, v Val) {
	switch p := p.(type) {
	case *Addr:
		x.store(st, p, v)
	case *Term:
		if s, ok := elem.Underlying().(*types.Struct); ok && dts[typeSort(elem)] != nil {
			t := x.term(st, v)
			for i := 0; i < s.NumFields(); i++ {
				x.store(st, x.fieldAddr(st, p, elem, i), mkSel(t.Sort, i, t))
			}
			return
		}
		x.store(st, &Addr{heap: "P:" + typeKey(elem), ref: p, typ: elem}, v)
	default:
		panic(unsup("store through %T", p))
	}
}

// ---- maps ----

// mapTypes returns key and value types for Go maps and the concurrent maps.
func mapTypes(t types.Type) (k, v types.Type, ok bool) {
	if m, is := t.Underlying().(*types.Map); is {
		return m.Key(), m.Elem(), true
	}
	n, is := deref(t).(*types.Named)
	if !is || n.Obj().Pkg() == nil {
		return nil, nil, false
	}
	switch typeName(n) {
	case "xsync.MapOf":
		return n.TypeArgs().At(0), n.TypeArgs().At(1), true
	case "sync.Map":
		a := types.NewInterfaceType(nil, nil)
		return a, a, true
	}
	return nil, nil, false
}

func typeName(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func mapHeaps(t types.Type) (dom, val, ln string, ks, vs string) {
	k, v, ok := mapTypes(t)
	if !ok {
		panic(unsup("not a map: %s", t))
	}
	n := typeKey(k) + ":" + typeKey(v)
	ks, vs = typeSort(k), typeSort(v)
	return "MD:" + n, "MV:" + n, "ML:" + n, ks, vs
}

func (x *Exec) mapArrs(st *State, t types.Type) (dom, val, ln *Term) {
	d, v, l, ks, vs := mapHeaps(t)
	return x.heapArr(st, d, arrSort(sInt, arrSort(ks, sBool))), x.heapArr(st, v, arrSort(sInt, arrSort(ks, vs))), x.heapArr(st, l, arrSort(sInt, sInt))
}

func (x *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	d, _, _ := x.mapArrs(st, t)
	_, _, _, ks, _ := mapHeaps(t)
	if m.isInt() && m.Str == "0" {
		return mkConstArr(arrSort(ks, sBool), tFalse)
	}
	r := mkSelect(d, m)
	if _, _, al := allocOf(m); !al && !hasBound(m) {
		st.assume(mkImp(mkEq(m, mkInt(0)), mkEq(r, mkConstArr(arrSort(ks, sBool), tFalse))))
	}
	return r
}

func (x *Exec) mapVal(st *State, t types.Type, m *Term) *Term {
	_, v, _ := x.mapArrs(st, t)
	return mkSelect(v, m)
}

func (x *Exec) mapLen(st *State, t types.Type, m *Term) *Term {
	_, _, l := x.mapArrs(st, t)
	if m.isInt() && m.Str == "0" {
		return mkInt(0)
	}
	n := mkSelect(l, m)
	if !hasBound(m) {
		st.assume(mkLe(mkInt(0), n))
		dom := x.mapDom(st, t, m)
		_, _, _, ks, _ := mapHeaps(t)
		if _, _, al := allocOf(m); !al {
			st.assume(mkImp(mkEq(m, mkInt(0)), mkEq(n, mkInt(0))))
		}
		// A map is empty iff it has no keys.
		k := mkBound("mlk", ks)
		w := ufn("mapwit!"+ks, ks, dom)
		st.assume(mkImp(mkEq(n, mkInt(0)), mkForall([]*Term{k}, mkNot(mkSelect(dom, k)), []*Term{mkSelect(dom, k)})))
		st.assume(mkImp(mkLt(mkInt(0), n), mkSelect(dom, w)))
	}
	return n
}

func (x *Exec) mapGet(st *State, t types.Type, m, k *Term) (v, ok *Term) {
	_, vt, _ := mapTypes(t)
	has := mkSelect(x.mapDom(st, t, m), k)
	v = mkSelect(x.mapVal(st, t, m), k)
	if !hasBound(v) {
		st.wf(vt, v)
	}
	return mkIte(has, v, zero(vt)), has
}

func (x *Exec) mapSet(st *State, t types.Type, m, k, v *Term) {
	d, va, l := x.mapArrs(st, t)
	dn, vn, ln, _, _ := mapHeaps(t)
	dom := mkSelect(d, m)
	had := mkSelect(dom, k)
	x.setHeap(st, ln, m, mkStore(l, m, mkIte(had, mkSelect(l, m), mkAdd(mkSelect(l, m), mkInt(1)))))
	x.setHeap(st, dn, m, mkStore(d, m, mkStore(dom, k, tTrue)))
	x.setHeap(st, vn, m, mkStore(va, m, mkStore(mkSelect(va, m), k, v)))
}

func (x *Exec) mapDel(st *State, t types.Type, m, k *Term) {
	d, _, l := x.mapArrs(st, t)
	dn, _, ln, _, _ := mapHeaps(t)
	dom := mkSelect(d, m)
	had := mkSelect(dom, k)
	x.setHeap(st, ln, m, mkStore(l, m, mkIte(had, mkSub(mkSelect(l, m), mkInt(1)), mkSelect(l, m))))
	x.setHeap(st, dn, m, mkStore(d, m, mkStore(dom, k, tFalse)))
}

func (x *Exec) newMap(st *State, t types.Type) *Term {
	r := st.newRef()
	d, _, l := x.mapArrs(st, t)
	dn, _, ln, ks, _ := mapHeaps(t)
	x.setHeap(st, dn, r, mkStore(d, r, mkConstArr(arrSort(ks, sBool), tFalse)))
	x.setHeap(st, ln, r, mkStore(l, r, mkInt(0)))
	return r
}

// ---- slices ----

func memHeap(elem types.Type) string { return "M:" + typeKey(elem) }

func (x *Exec) mem(st *State, elem types.Type) *Term {
	return x.heapArr(st, memHeap(elem), arrSort(sInt, arrSort(sInt, typeSort(elem))))
}

func (x *Exec) setMem(st *State, elem types.Type, ref, arr *Term) {
	m := x.mem(st, elem)
	x.setHeap(st, memHeap(elem), ref, mkStore(m, ref, arr))
}

func (x *Exec) sliceElem(st *State, elem types.Type, s, i *Term) *Term {
	return mkSelect(mkSelect(x.mem(st, elem), slRef(s)), mkAdd(slOff(s), i))
}

func (x *Exec) appendOne(st *State, elem types.Type, s, v *Term) *Term {
	nr := st.newRef()
	inPlace := mkLt(slLen(s), slCap(s))
	ref := st.named("aref", mkIte(inPlace, slRef(s), nr))
	nc := fresh("cap", sInt)
	st.assume(mkLt(slLen(s), nc))
	m := x.mem(st, elem)
	old := mkSelect(m, slRef(s))
	arr := mkStore(old, mkAdd(slOff(s), slLen(s)), v)
	x.record(writeRec{heap: memHeap(elem), ref: slRef(s)})
	x.setHeap(st, memHeap(elem), nr, mkStore(m, ref, arr))
	return mkCtor(sSlice, ref, slOff(s), mkAdd(slLen(s), mkInt(1)), st.named("acap", mkIte(inPlace, slCap(s), nc)))
}

// named gives a conditional term a name, so that it does not end up in patterns.
func (st *State) named(n string, t *Term) *Term {
	t = st.simp(t)
	if t.Op != "ite" {
		return t
	}
	v := fresh(n, t.Sort)
	st.assume(mkEq(v, t))
	return v
}

// appendSlice models append(s, t...).
func (x *Exec) appendSlice(st *State, elem types.Type, s, t *Term) *Term {
	n := slLen(t)
	if n.isInt() {
		k, _ := strconv.Atoi(n.Str)
		if k == 0 {
			return s
		}
		if k <= 4 {
			var vs []*Term
			for i := 0; i < k; i++ {
				vs = append(vs, x.sliceElem(st, elem, t, mkInt(int64(i))))
			}
			if k == 1 {
				return x.appendOne(st, elem, s, vs[0])
			}
		}
	}
	nr := st.newRef()
	newLen := mkAdd(slLen(s), n)
	inPlace := mkLe(newLen, slCap(s))
	ref := st.named("aref", mkIte(inPlace, slRef(s), nr))
	nc := fresh("cap", sInt)
	st.assume(mkLe(newLen, nc))
	m := x.mem(st, elem)
	old := mkSelect(m, slRef(s))
	tarr := mkSelect(m, slRef(t))
	na := fresh("arr", arrSort(sInt, typeSort(elem)))
	i := mkBound("i", sInt)
	st.assume(mkForall([]*Term{i}, mkEq(mkSelect(na, i),
		mkIte(mkAnd(mkLe(mkAdd(slOff(s), slLen(s)), i), mkLt(i, mkAdd(slOff(s), newLen))),
			mkSelect(tarr, mkAdd(slOff(t), mkSub(i, mkAdd(slOff(s), slLen(s))))),
			mkSelect(old, i))), []*Term{mkSelect(na, i)}))
	x.record(writeRec{heap: memHeap(elem), ref: slRef(s)})
	x.setHeap(st, memHeap(elem), nr, mkStore(m, ref, na))
	return mkCtor(sSlice, ref, slOff(s), newLen, st.named("acap", mkIte(inPlace, slCap(s), nc)))
}
