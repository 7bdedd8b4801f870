package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "int", "str", "true", "false", "var", "bound", or an SMT operator / function name
	Str  string // constant text or variable name
	Args []*Term
	Sort string
	ID   int
	// Quantifiers.
	Bound []*Term
	Pats  [][]*Term
}

var (
	termTab = map[string]*Term{}
	termSeq int
)

func intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte(0)
	sb.WriteString(t.Str)
	sb.WriteByte(0)
	sb.WriteString(t.Sort)
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	for _, a := range t.Bound {
		fmt.Fprintf(&sb, ";%d", a.ID)
	}
	for _, p := range t.Pats {
		sb.WriteString("|")
		for _, a := range p {
			fmt.Fprintf(&sb, ".%d", a.ID)
		}
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termSeq++
	x := t
	x.ID = termSeq
	termTab[k] = &x
	return &x
}

const (
	sInt  = "Int"
	sBool = "Bool"
	sStr  = "String"
)

var (
	tTrue  = intern(Term{Op: "true", Sort: sBool})
	tFalse = intern(Term{Op: "false", Sort: sBool})
)

func mkInt(n int64) *Term       { return intern(Term{Op: "int", Str: fmt.Sprint(n), Sort: sInt}) }
func mkBig(n *big.Int) *Term    { return intern(Term{Op: "int", Str: n.String(), Sort: sInt}) }
func mkStr(s string) *Term      { return intern(Term{Op: "str", Str: s, Sort: sStr}) }
func mkVar(n, s string) *Term   { return intern(Term{Op: "var", Str: n, Sort: s}) }
func mkBound(n, s string) *Term { return intern(Term{Op: "bound", Str: n, Sort: s}) }

var freshN int

func fresh(prefix, s string) *Term {
	freshN++
	prefix = strings.Map(func(r rune) rune {
		if r == '_' || r == '.' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') {
			return r
		}
		return '_'
	}, prefix)
	return mkVar(fmt.Sprintf("%s!%d", prefix, freshN), s)
}

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isStr() bool { return t.Op == "str" }
func (t *Term) bigv() *big.Int {
	n, ok := new(big.Int).SetString(t.Str, 10)
	if !ok {
		panic("bad int " + t.Str)
	}
	return n
}

func app(op, srt string, args ...*Term) *Term {
	return intern(Term{Op: op, Sort: srt, Args: args})
}

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return app("not", sBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "false" {
			return false
		}
		if a.Op == "true" || seen[a.ID] {
			return true
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a).ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("and", sBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "true" {
			return tTrue
		}
		xs := []*Term{a}
		if a.Op == "or" {
			xs = a.Args
		}
		for _, x := range xs {
			if x.Op == "false" || seen[x.ID] {
				continue
			}
			if seen[mkNot(x).ID] {
				return tTrue
			}
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("or", sBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return tTrue
	}
	if b.Op == "false" {
		return mkNot(a)
	}
	if hasBound(a) {
		if b = assuming(a, b); b.Op == "true" {
			return tTrue
		}
	}
	return app("=>", sBool, a, b)
}

// assuming resolves the conditional terms of b under a.
func assuming(a, b *Term) *Term {
	known := map[int]bool{}
	cs := []*Term{a}
	if a.Op == "and" {
		cs = a.Args
	}
	for _, c := range cs {
		if c.Op == "not" {
			known[c.Args[0].ID] = false
		} else {
			known[c.ID] = true
		}
	}
	m := map[*Term]*Term{}
	walk(b, map[int]bool{}, func(u *Term) {
		if u.Op == "ite" {
			if v, ok := known[u.Args[0].ID]; ok {
				if v {
					m[u] = u.Args[1]
				} else {
					m[u] = u.Args[2]
				}
			}
		}
	})
	if len(m) == 0 {
		return b
	}
	return subst(b, m)
}

func mkIte(c, a, b *Term) *Term {
	if c.Op == "true" || a == b {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a.Sort == sBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return mkNot(c)
		}
	}
	return app("ite", a.Sort, c, a, b)
}

// ---- linear normal form ----

type lin struct {
	c  *big.Int
	co map[int]*big.Int
	at map[int]*Term
}

func linOf(t *Term) lin {
	l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
	linAdd(&l, t, big.NewInt(1))
	return l
}

func linAdd(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.bigv()))
		return
	case "+":
		for _, a := range t.Args {
			linAdd(l, a, k)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			linAdd(l, t.Args[0], new(big.Int).Neg(k))
			return
		}
		linAdd(l, t.Args[0], k)
		for _, a := range t.Args[1:] {
			linAdd(l, a, new(big.Int).Neg(k))
		}
		return
	case "*":
		if t.Args[0].isInt() {
			linAdd(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].bigv()))
			return
		}
	}
	if l.co[t.ID] == nil {
		l.co[t.ID] = new(big.Int)
		l.at[t.ID] = t
	}
	l.co[t.ID].Add(l.co[t.ID], k)
}

func (l lin) term() *Term {
	var ids []int
	for id, c := range l.co {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var ts []*Term
	for _, id := range ids {
		c := l.co[id]
		if c.IsInt64() && c.Int64() == 1 {
			ts = append(ts, l.at[id])
		} else {
			ts = append(ts, app("*", sInt, mkBig(c), l.at[id]))
		}
	}
	if l.c.Sign() != 0 || len(ts) == 0 {
		ts = append(ts, mkBig(l.c))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return app("+", sInt, ts...)
}

func mkAdd(as ...*Term) *Term {
	l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
	for _, a := range as {
		linAdd(&l, a, big.NewInt(1))
	}
	return l.term()
}

func mkSub(a, b *Term) *Term {
	l := linOf(a)
	linAdd(&l, b, big.NewInt(-1))
	return l.term()
}

func mkMul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return mkBig(new(big.Int).Mul(a.bigv(), b.bigv()))
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{c: new(big.Int), co: map[int]*big.Int{}, at: map[int]*Term{}}
		linAdd(&l, b, a.bigv())
		return l.term()
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return app("*", sInt, a, b)
}

func mkLe(a, b *Term) *Term { // a <= b
	d := mkSub(b, a)
	if d.isInt() {
		if d.bigv().Sign() >= 0 {
			return tTrue
		}
		return tFalse
	}
	if d.Op == "str.len" {
		return tTrue
	}
	return app("<=", sBool, a, b)
}

func mkLt(a, b *Term) *Term {
	d := mkSub(b, a)
	if d.isInt() {
		if d.bigv().Sign() > 0 {
			return tTrue
		}
		return tFalse
	}
	return app("<", sBool, a, b)
}

func isCtor(t *Term) bool { return ctorSet[t.Op] }

func isConst(t *Term) bool {
	switch t.Op {
	case "int", "str", "true", "false":
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkEq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if isConst(a) && isConst(b) {
		return tFalse
	}
	if a.Sort == sBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return mkNot(b)
		}
		if b.Op == "false" {
			return mkNot(a)
		}
	}
	if a.Sort == sInt {
		d := mkSub(a, b)
		if d.isInt() {
			if d.bigv().Sign() == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if isCtor(a) && isCtor(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	if a.Op == "ite" && isConst(b) {
		if isConst(a.Args[1]) && isConst(a.Args[2]) {
			return mkIte(a.Args[0], mkEq(a.Args[1], b), mkEq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && isConst(a) {
		return mkEq(b, a)
	}
	if a.Sort == sStr {
		if r := strNe(a, b); r {
			return tFalse
		}
		if b.isStr() && b.Str == "" && a.Op == "str.++" {
			a, b = b, a
		}
		if a.isStr() && a.Str == "" && b.Op == "str.++" {
			for _, x := range b.Args {
				if x.isStr() {
					return tFalse
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return app("=", sBool, a, b)
}

// strNe detects syntactically different constant prefixes.
func strNe(a, b *Term) bool {
	ca, cb := strHead(a), strHead(b)
	n := len(ca)
	if len(cb) < n {
		n = len(cb)
	}
	return ca[:n] != cb[:n]
}

func strHead(a *Term) string {
	if a.isStr() {
		return a.Str
	}
	if a.Op == "str.++" && a.Args[0].isStr() {
		return a.Args[0].Str
	}
	return ""
}

func mkCat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		xs := []*Term{a}
		if a.Op == "str.++" {
			xs = a.Args
		}
		for _, x := range xs {
			if x.isStr() && x.Str == "" {
				continue
			}
			if x.isStr() && len(out) > 0 && out[len(out)-1].isStr() {
				out[len(out)-1] = mkStr(out[len(out)-1].Str + x.Str)
				continue
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("str.++", sStr, out...)
}

func mkLen(a *Term) *Term {
	if a.isStr() {
		return mkInt(int64(len(a.Str)))
	}
	if a.Op == "str.++" {
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, mkLen(x))
		}
		return mkAdd(xs...)
	}
	return app("str.len", sInt, a)
}

// mkSubstr is s[i:i+n].
func mkSubstr(s, i, n *Term) *Term {
	if i.isInt() && i.bigv().Sign() == 0 && n == mkLen(s) {
		return s
	}
	if n.isInt() && n.bigv().Sign() == 0 {
		return mkStr("")
	}
	if s.isStr() && i.isInt() && n.isInt() {
		a, b := i.bigv().Int64(), n.bigv().Int64()
		if a >= 0 && b >= 0 && a+b <= int64(len(s.Str)) {
			return mkStr(s.Str[a : a+b])
		}
	}
	// Drop leading parts of a concatenation / cut at part boundaries.
	if s.Op == "str.++" {
		for k := 0; k <= len(s.Args); k++ {
			if mkLen(mkCat(s.Args[:k]...)) == i {
				rest := mkCat(s.Args[k:]...)
				if k > 0 && rest.Op == "str.++" || k == 0 {
					parts := s.Args[k:]
					for j := 0; j <= len(parts); j++ {
						if mkLen(mkCat(parts[:j]...)) == n {
							return mkCat(parts[:j]...)
						}
					}
					// Cut inside a trailing constant.
					for j := 0; j < len(parts); j++ {
						if parts[j].isStr() {
							d := mkSub(n, mkLen(mkCat(parts[:j]...)))
							if d.isInt() && d.bigv().Sign() > 0 && d.bigv().Int64() < int64(len(parts[j].Str)) {
								return mkCat(mkCat(parts[:j]...), mkStr(parts[j].Str[:d.bigv().Int64()]))
							}
						}
					}
				} else if n == mkLen(rest) {
					return rest
				}
			}
		}
	}
	return app("str.substr", sStr, s, i, n)
}

func mkPrefixOf(p, s *Term) *Term {
	if p.isStr() && p.Str == "" {
		return tTrue
	}
	if p.isStr() && s.isStr() {
		return mkBool(strings.HasPrefix(s.Str, p.Str))
	}
	if p == s {
		return tTrue
	}
	if p.isStr() {
		h := strHead(s)
		if len(h) >= len(p.Str) {
			return mkBool(strings.HasPrefix(h, p.Str))
		}
		if !strings.HasPrefix(p.Str, h) {
			return tFalse
		}
	}
	return app("str.prefixof", sBool, p, s)
}

func mkSuffixOf(p, s *Term) *Term {
	if p.isStr() && s.isStr() {
		return mkBool(strings.HasSuffix(s.Str, p.Str))
	}
	return app("str.suffixof", sBool, p, s)
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- arrays ----

// distinctTerms is true if a and b are certainly different.
func distinctTerms(a, b *Term) bool {
	return mkEqSafe(a, b) == tFalse || a.Sort == sInt && refsDistinct(a, b)
}

func mkEqSafe(a, b *Term) *Term {
	if a.Sort != b.Sort {
		return nil
	}
	return mkEq(a, b)
}

func arrSorts(s string) (k, v string) {
	p := splitSort(s)
	if len(p) != 3 || p[0] != "Array" {
		panic("not an array sort: " + s)
	}
	return p[1], p[2]
}

func splitSort(s string) []string {
	if !strings.HasPrefix(s, "(") {
		return []string{s}
	}
	s = s[1 : len(s)-1]
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func mkSelect(a, i *Term) *Term {
	_, v := arrSorts(a.Sort)
	cur := a
	for cur.Op == "store" {
		if cur.Args[1] == i {
			return cur.Args[2]
		}
		if distinctTerms(cur.Args[1], i) {
			cur = cur.Args[0]
			continue
		}
		break
	}
	if cur.Op == "constarr" {
		return cur.Args[0]
	}
	if cur.Op == "ite" && (cur.Args[1].Op == "store" || cur.Args[2].Op == "store") {
		return mkIte(cur.Args[0], mkSelect(cur.Args[1], i), mkSelect(cur.Args[2], i))
	}
	return app("select", v, cur, i)
}

func mkStore(a, i, v *Term) *Term {
	if _, vs := arrSorts(a.Sort); vs != v.Sort {
		panic("store sort mismatch: " + a.Sort + " <- " + v.Sort)
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return app("store", a.Sort, a, i, v)
}

func mkConstArr(sort string, v *Term) *Term { return app("constarr", sort, v) }

// ---- datatypes ----

type dtDecl struct {
	sort   string
	ctor   string
	fields []string // selector names
	sorts  []string
}

var (
	dts     = map[string]*dtDecl{} // by sort
	dtOrder []string
	ctorSet = map[string]bool{}
	selIdx  = map[string]int{} // selector -> index
)

func declDT(d *dtDecl) {
	if dts[d.sort] != nil {
		return
	}
	dts[d.sort] = d
	dtOrder = append(dtOrder, d.sort)
	ctorSet[d.ctor] = true
	for i, f := range d.fields {
		selIdx[f] = i
	}
}

func mkCtor(srt string, args ...*Term) *Term {
	d := dts[srt]
	for i := range args {
		if args[i].Sort != d.sorts[i] {
			panic(fmt.Sprintf("ctor %s arg %d (%s): %s != %s", srt, i, d.fields[i], args[i].Sort, d.sorts[i]))
		}
	}
	// Eta: mk(sel0(x), sel1(x)...) = x.
	if len(args) > 0 && args[0].Op == d.fields[0] {
		x := args[0].Args[0]
		ok := true
		for i := range args {
			if args[i].Op != d.fields[i] || args[i].Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return app(d.ctor, srt, args...)
}

func mkSel(srt string, i int, x *Term) *Term {
	d := dts[srt]
	if x.Sort != srt {
		panic("mkSel sort mismatch " + srt + " vs " + x.Sort)
	}
	if x.Op == d.ctor {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return mkIte(x.Args[0], mkSel(srt, i, x.Args[1]), mkSel(srt, i, x.Args[2]))
	}
	return app(d.fields[i], d.sorts[i], x)
}

func mkUpd(srt string, i int, x, v *Term) *Term {
	d := dts[srt]
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = mkSel(srt, j, x)
		}
	}
	return mkCtor(srt, args...)
}

// ---- quantifiers ----

// altPats adds patterns on the arrays below a store: solvers do not make a term of the
// updated array for every term of the original one.
func altPats(pats [][]*Term) [][]*Term {
	out := pats
	for _, p := range pats {
		for j, t := range p {
			for _, a := range below(t, 4) {
				if len(out) >= len(pats)+4 {
					return out
				}
				q := append([]*Term(nil), p...)
				q[j] = a
				out = append(out[:len(out):len(out)], q)
			}
		}
	}
	return out
}

// below lists variants of a select from an updated array.
func below(t *Term, n int) (out []*Term) {
	if t.Op != "select" || n == 0 {
		return nil
	}
	var bases func(a *Term, n int) []*Term
	bases = func(a *Term, n int) (bs []*Term) {
		if n == 0 {
			return nil
		}
		switch {
		case a.Op == "store":
			bs = append(bs, a.Args[0])
			bs = append(bs, bases(a.Args[0], n-1)...)
		case a.Op == "select" && a.Args[0].Op == "store":
			st := a.Args[0]
			row, rest := st.Args[2], mkSelect(st.Args[0], a.Args[1])
			for _, b := range []*Term{row, rest} {
				bs = append(bs, b)
				bs = append(bs, bases(b, n-1)...)
			}
		}
		return bs
	}
	for _, b := range bases(t.Args[0], n) {
		if strings.HasPrefix(b.Sort, "(Array") && b.Op != "ite" && !strings.HasPrefix(b.Op, "(as const") && b.Op != "const" {
			if u := mkSelect(b, t.Args[1]); u.Op == "select" && u != t {
				out = append(out, u)
			}
		}
	}
	return out
}

func mkForall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	if isConst(body) {
		return body
	}
	for i, p := range pats {
		for j, t := range p {
			if n := noIte(t); n != t {
				if len(p) > 0 {
					p = append([]*Term(nil), p...)
				}
				p[j] = n
				pats = append([][]*Term(nil), pats...)
				pats[i] = p
			}
		}
	}
	bound, body, pats = absolute(bound, body, pats)
	pats = altPats(pats)
	return intern(Term{Op: "forall", Sort: sBool, Args: []*Term{body}, Bound: bound, Pats: pats})
}

// absolute replaces an index that is relative to the offset of a slice with an index in the backing array,
// so that patterns have no arithmetic.
func absolute(bound []*Term, body *Term, pats [][]*Term) ([]*Term, *Term, [][]*Term) {
	for bi, b := range bound {
		if b.Sort != sInt {
			continue
		}
		var sum *Term
		bare := false
		for _, p := range pats {
			for _, t := range p {
				walk(t, map[int]bool{}, func(u *Term) {
					if u.Op != "select" {
						return
					}
					i := u.Args[1]
					if i == b {
						bare = true
					}
					if i.Op == "+" && sum == nil {
						for _, a := range i.Args {
							if a == b {
								sum = i
							}
						}
					}
				})
			}
		}
		if sum == nil || bare {
			continue
		}
		rest := mkSub(sum, b)
		own := false
		walk(rest, map[int]bool{}, func(u *Term) {
			own = own || u == b
		})
		if own {
			continue
		}
		k := mkBound(b.Str+"k", sInt)
		m := map[*Term]*Term{sum: k, b: mkSub(k, rest)}
		body = subst(body, m)
		np := make([][]*Term, len(pats))
		for i, p := range pats {
			for _, t := range p {
				np[i] = append(np[i], subst(t, m))
			}
		}
		pats = np
		bound = append([]*Term(nil), bound...)
		bound[bi] = k
	}
	return bound, body, pats
}

// noIte replaces conditional terms of a pattern with their first branch: values of absent map keys are no use to match.
func noIte(t *Term) *Term {
	for n := 0; n < 20; n++ {
		var f *Term
		walk(t, map[int]bool{}, func(u *Term) {
			if u.Op == "ite" && f == nil {
				f = u
			}
		})
		if f == nil {
			break
		}
		t = subst(t, map[*Term]*Term{f: f.Args[1]})
	}
	return t
}

func mkExists(bound []*Term, body *Term) *Term {
	if isConst(body) {
		return body
	}
	return intern(Term{Op: "exists", Sort: sBool, Args: []*Term{body}, Bound: bound})
}

// subst replaces terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if x, ok := m[t]; ok {
			return x
		}
		if len(t.Args) == 0 {
			return t
		}
		if x, ok := memo[t.ID]; ok {
			return x
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "+":
		return mkAdd(args...)
	case "*":
		return mkMul(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "=":
		return mkEq(args[0], args[1])
	case "str.++":
		return mkCat(args...)
	case "str.len":
		return mkLen(args[0])
	case "str.substr":
		return mkSubstr(args[0], args[1], args[2])
	case "str.prefixof":
		return mkPrefixOf(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "forall", "exists":
		x := *t
		x.Args = args
		x.Pats = nil
		for _, p := range t.Pats {
			var q []*Term
			for _, a := range p {
				q = append(q, rec(a))
			}
			x.Pats = append(x.Pats, q)
		}
		if isConst(args[0]) {
			return args[0]
		}
		return intern(x)
	}
	if d := dts[t.Sort]; d != nil && d.ctor == t.Op {
		return mkCtor(t.Sort, args...)
	}
	if len(args) == 1 {
		if d := dts[args[0].Sort]; d != nil {
			if i, ok := selIdx[t.Op]; ok {
				return mkSel(args[0].Sort, i, args[0])
			}
		}
	}
	return app(t.Op, t.Sort, args...)
}

// ---- printing ----

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, `\u{%x}`, c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func symName(n string) string {
	for _, c := range n {
		if !(c == '_' || c == '.' || c == '!' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) {
			return "|" + n + "|"
		}
	}
	return n
}

func (t *Term) String() string {
	s := t.print(func(*Term) (string, bool) { return "", false })
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (t *Term) print(name func(*Term) (string, bool)) string {
	var sb strings.Builder
	t.write(&sb, name, true)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, name func(*Term) (string, bool), top bool) {
	if !top {
		if n, ok := name(t); ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		if t.Str[0] == '-' {
			sb.WriteString("(- " + t.Str[1:] + ")")
		} else {
			sb.WriteString(t.Str)
		}
	case "str":
		sb.WriteString(smtStr(t.Str))
	case "true", "false":
		sb.WriteString(t.Op)
	case "var", "bound":
		sb.WriteString(symName(t.Str))
	case "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		// Values are printed in full: cvc5 wants no defined name here.
		plain := true
		walk(t.Args[0], map[int]bool{}, func(u *Term) { plain = plain && u.Op != "var" && u.Op != "bound" })
		if plain {
			t.Args[0].write(sb, func(*Term) (string, bool) { return "", false }, true)
		} else {
			t.Args[0].write(sb, name, false)
		}
		sb.WriteString(")")
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + symName(b.Str) + " " + b.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, name, false)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, a := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					a.write(sb, name, false)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.Args) == 0 {
			sb.WriteString(symName(t.Op))
			return
		}
		sb.WriteString("(" + symOp(t.Op))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, name, false)
		}
		sb.WriteString(")")
	}
}

func symOp(op string) string {
	switch op {
	case "=", "<", "<=", "=>", "+", "-", "*", "str.++", "str.<", "str.<=":
		return op
	}
	return symName(op)
}

// hasBound reports whether t contains bound variables (cached).
var hbMemo = map[int]bool{}

func hasBound(t *Term) bool {
	if b, ok := hbMemo[t.ID]; ok {
		return b
	}
	r := t.Op == "bound"
	for _, a := range t.Args {
		r = r || hasBound(a)
	}
	hbMemo[t.ID] = r
	return r
}

// walk visits subterms once.
func walk(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.ID] {
		return
	}
	seen[t.ID] = true
	f(t)
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, a := range p {
			walk(a, seen, f)
		}
	}
}
