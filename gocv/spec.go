package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Expr is a contract expression.
type Expr struct {
	Op    string // lit ops, "id", "call", "sel", "idx", "slice", binary/unary operators, "forall", "exists", "old", "let", "ite", "composite"
	Name  string
	Args  []*Expr
	Bound []Param
	Pats  [][]*Expr
	Sets  []*Expr // slices of the bound variables of type "in"
}

// Param is a typed name.
type Param struct{ Name, Type string }

// Clause is one requires/ensures/inv/... clause.
type Clause struct {
	Kind   string
	Props  []string // empty: all properties using the contract
	Name   string
	E      *Expr
	Meta   []Param // pattern variables of inv clauses
	Mods   []*Expr
	File   string
	Line   int
	Text   string
	Impl   string // for implements clauses: callback contract name
	Scoped string // for inv: restrict to loops of this function key
}

// Contract is the contract of one function, callback, extern or interface method.
type Contract struct {
	Kind     string // func, extern, iface, callback
	Key      string
	Params   []Param // including receiver first
	Results  []Param
	Clauses  []*Clause
	File     string
	Line     int
	Props    []string
	Inline   bool
	NoFrame  bool
	Pure     bool
	MayPanic bool
	NoSafe   bool
	Used     bool
	Also     []string
}

// SpecFn is an uninterpreted function or a macro.
type SpecFn struct {
	Name   string
	Params []Param
	Result string
	Body   *Expr // nil: uninterpreted
}

// Specs is the set of all contract files.
type Specs struct {
	groups    map[string][]*Expr
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	axioms    []*Clause
	ghosts    map[string]Param // ghost variable: type
	gfields   map[string]string
	sorts     map[string]bool
	text      string
}

type tok struct {
	k string // id, int, str, op, eof
	s string
}

var tokRe = regexp.MustCompile(`^(?:(\s+)|(//[^\n]*)|("(?:[^"\\]|\\.)*"|` + "`[^`]*`" + `)|('(?:[^'\\]|\\.)')|(\d+)|([A-Za-z_$?][A-Za-z0-9_$!]*)|(<==>|==>|:=|::|==|!=|<=|>=|&&|\|\||[-+*/%<>!()\[\]{}.,:;&|=]))`)

func lex(s string) []tok {
	var out []tok
	for len(s) > 0 {
		m := tokRe.FindStringSubmatch(s)
		if m == nil {
			panic(fmt.Errorf("lex error at %.30q", s))
		}
		switch {
		case m[3] != "":
			out = append(out, tok{"str", unq(m[3])})
		case m[4] != "":
			out = append(out, tok{"int", fmt.Sprint(int(unq(`"` + strings.Trim(m[4], "'") + `"`)[0]))})
		case m[5] != "":
			out = append(out, tok{"int", m[5]})
		case m[6] != "":
			out = append(out, tok{"id", m[6]})
		case m[7] != "":
			out = append(out, tok{"op", m[7]})
		}
		s = s[len(m[0]):]
	}
	return append(out, tok{"eof", ""})
}

func unq(s string) string {
	if s[0] == '`' {
		return s[1 : len(s)-1]
	}
	s = s[1 : len(s)-1]
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				sb.WriteByte('\n')
			case 't':
				sb.WriteByte('\t')
			default:
				sb.WriteByte(s[i])
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { p.i++; return p.t[p.i-1] }
func (p *parser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s
}
func (p *parser) isID(s string) bool { return p.t[p.i].k == "id" && p.t[p.i].s == s }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		var ctx []string
		for j := p.i; j < len(p.t) && j < p.i+8; j++ {
			ctx = append(ctx, p.t[j].s)
		}
		panic(fmt.Errorf("expected %q, found %q near %q", s, p.peek().s, strings.Join(ctx, " ")))
	}
}

// typ parses a type and returns its text.
func (p *parser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	case p.isID("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case p.is("("): // SMT sort
		d := 0
		var ss []string
		for {
			t := p.next()
			if t.s == "(" {
				d++
			}
			if t.s == ")" {
				d--
			}
			ss = append(ss, t.s)
			if d == 0 {
				break
			}
		}
		return strings.ReplaceAll(strings.ReplaceAll(strings.Join(ss, " "), "( ", "("), " )", ")")
	}
	t := p.next()
	if t.k != "id" {
		panic(fmt.Errorf("type expected, found %q", t.s))
	}
	if t.s == "func" {
		return "func"
	}
	if t.s == "set" && p.is("[") {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "set[" + k + "]"
	}
	if t.s == "gmap" && p.is("[") {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "gmap[" + k + "]" + p.typ()
	}
	if p.accept(".") {
		return t.s + "." + p.next().s
	}
	return t.s
}

func (p *parser) params(end string) []Param {
	var ps []Param
	var pend []string
	for !p.is(end) {
		n := p.next()
		if n.k != "id" {
			panic(fmt.Errorf("parameter name expected, found %q", n.s))
		}
		if p.accept(",") {
			pend = append(pend, n.s)
			continue
		}
		t := p.typ()
		for _, x := range pend {
			ps = append(ps, Param{x, t})
		}
		pend = nil
		ps = append(ps, Param{n.s, t})
		if !p.accept(",") {
			break
		}
	}
	p.expect(end)
	if len(pend) > 0 {
		panic(fmt.Errorf("untyped parameter %v", pend))
	}
	return ps
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr() *Expr { return p.bin(1) }

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || t.k == "str" || t.k == "int" || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{Op: t.s, Args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return &Expr{Op: "!", Args: []*Expr{p.unary()}}
	case p.accept("-"):
		return &Expr{Op: "neg", Args: []*Expr{p.unary()}}
	case p.accept("*"):
		return &Expr{Op: "deref", Args: []*Expr{p.unary()}}
	case p.isID("forall") || p.isID("exists"):
		q := &Expr{Op: p.next().s}
		var pend []string
		for {
			n := p.next().s
			if p.isID("in") || p.is(":") { // quantification over the elements of a slice
				b := Param{n, "in"}
				if p.accept(":") {
					b.Name, b.Type = p.next().s, "in:"+n
				}
				p.next()
				q.Sets = append(q.Sets, p.expr())
				q.Bound = append(q.Bound, b)
				if !p.accept(",") {
					break
				}
				continue
			}
			if p.accept(",") {
				pend = append(pend, n)
				continue
			}
			t := p.typ()
			for _, x := range pend {
				q.Bound = append(q.Bound, Param{x, t})
			}
			pend = nil
			q.Bound = append(q.Bound, Param{n, t})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var pat []*Expr
			for {
				pat = append(pat, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			q.Pats = append(q.Pats, pat)
		}
		p.expect("::")
		q.Args = []*Expr{p.expr()}
		return q
	case p.isID("let"):
		p.next()
		n := p.next().s
		p.expect(":=")
		v := p.expr()
		p.expect("::")
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, p.expr()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			if p.accept("(") {
				t := p.typ()
				p.expect(")")
				e = &Expr{Op: "assert", Name: t, Args: []*Expr{e}}
				continue
			}
			e = &Expr{Op: "sel", Name: p.next().s, Args: []*Expr{e}}
		case p.accept("["):
			var lo, hi *Expr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "idx", Args: []*Expr{e, lo}}
		case p.is("(") && (e.Op == "id" || e.Op == "sel"):
			p.next()
			c := &Expr{Op: "call", Name: e.Name}
			if e.Op == "sel" {
				c.Op = "mcall"
				c.Args = append(c.Args, e.Args[0])
			}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.is("{") && e.Op == "id" && e.Name != "" && e.Name[0] >= 'A' && e.Name[0] <= 'Z' || p.is("{") && e.Op == "id" && compositeOK[e.Name]:
			p.next()
			c := &Expr{Op: "composite", Name: e.Name}
			for !p.is("}") {
				n := p.next().s
				p.expect(":")
				c.Bound = append(c.Bound, Param{Name: n})
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e = c
		default:
			return e
		}
	}
}

var compositeOK = map[string]bool{"flKey": true, "intOrString": true, "idxKey": true, "csvCopier": true}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Name: t.s}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{Op: t.s}
		case "old", "pre":
			p.expect("(")
			e := p.expr()
			p.expect(")")
			return &Expr{Op: t.s, Args: []*Expr{e}}
		case "if":
			c := p.expr()
			if !p.isID("then") {
				panic(fmt.Errorf("then expected"))
			}
			p.next()
			a := p.expr()
			if !p.isID("else") {
				panic(fmt.Errorf("else expected"))
			}
			p.next()
			return &Expr{Op: "ite", Args: []*Expr{c, a, p.expr()}}
		}
		return &Expr{Op: "id", Name: t.s}
	}
	if t.s == "(" {
		e := p.expr()
		p.expect(")")
		return e
	}
	panic(fmt.Errorf("unexpected %q", t.s))
}

var (
	clauseKw = regexp.MustCompile(`^(requires|ensures|modifies|inv|implements|inline|noframe|pure|maypanic|nosafe|props)\b`)
	topKw    = regexp.MustCompile(`^(func|extern|iface|callback|spec|define|axiom|lemma|hint|ghost|sort|group)\b`)
	labelRe  = regexp.MustCompile(`^\s*\[([A-Z0-9, ]*)\]`)
	nameRe   = regexp.MustCompile(`^\s*([A-Za-z][A-Za-z0-9_-]*):([^:=])`)
)

// loadSpecs reads all contract files.
func loadSpecs(dir string) (sp *Specs, err error) {
	sp = &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, ghosts: map[string]Param{}, gfields: map[string]string{}, sorts: map[string]bool{}, groups: map[string][]*Expr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gv"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.text += string(b)
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

type chunk struct {
	kw, text string
	line     int
}

func (sp *Specs) parseFile(fn, src string) (err error) {
	var chunks []chunk
	for i, l := range strings.Split(src, "\n") {
		s := strings.TrimSpace(l)
		if j := strings.Index(s, "//"); j == 0 || j > 0 && !strings.Contains(s[:j], `"`) {
			s = strings.TrimSpace(s[:j])
		}
		if s == "" {
			continue
		}
		if m := clauseKw.FindString(s); m != "" {
			chunks = append(chunks, chunk{m, s[len(m):], i + 1})
		} else if m := topKw.FindString(s); m != "" && l[0] != ' ' && l[0] != '\t' {
			chunks = append(chunks, chunk{m, s[len(m):], i + 1})
		} else {
			if len(chunks) == 0 {
				return fmt.Errorf("%s:%d: stray text", fn, i+1)
			}
			chunks[len(chunks)-1].text += "\n" + s
		}
	}
	var cur *Contract
	for _, c := range chunks {
		if err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%s:%d: %v", fn, c.line, r)
				}
			}()
			cur = sp.parseChunk(fn, c, cur)
			return nil
		}(); err != nil {
			return err
		}
	}
	return nil
}

func (sp *Specs) parseChunk(fn string, c chunk, cur *Contract) *Contract {
	text := c.text
	var props []string
	if clauseKw.MatchString(c.kw) || c.kw == "axiom" || c.kw == "lemma" || c.kw == "hint" {
		if m := labelRe.FindStringSubmatch(text); m != nil {
			for _, x := range strings.Split(m[1], ",") {
				if x = strings.TrimSpace(x); x != "" {
					props = append(props, x)
				}
			}
			text = text[len(m[0]):]
		}
	}
	switch c.kw {
	case "sort":
		for _, s := range strings.Fields(text) {
			sp.sorts[s] = true
			usorts[s] = true
		}
		return nil
	case "ghost":
		p := &parser{t: lex(text)}
		n := p.next().s
		if p.accept(".") { // ghost field: pkg.Type.field type
			n2 := p.next().s
			if p.accept(".") {
				sp.gfields[n+"."+n2+"."+p.next().s] = p.typ()
			} else {
				panic("ghost field must be pkg.Type.field")
			}
			return nil
		}
		sp.ghosts[n] = Param{n, p.typ()}
		return nil
	case "group": // group NAME = target, target: locations named together in modifies clauses
		p := &parser{t: lex(text)}
		n := p.next().s
		p.expect("=")
		for {
			m := p.expr()
			if g := sp.groups[m.Name]; m.Op == "id" && g != nil {
				sp.groups[n] = append(sp.groups[n], g...)
			} else {
				sp.groups[n] = append(sp.groups[n], m)
			}
			if !p.accept(",") {
				break
			}
		}
		if p.peek().k != "eof" {
			panic(fmt.Errorf("trailing text %q", p.peek().s))
		}
		return nil
	case "spec", "define":
		p := &parser{t: lex(text)}
		f := &SpecFn{Name: p.next().s}
		p.expect("(")
		f.Params = p.params(")")
		f.Result = p.typ()
		if c.kw == "define" {
			p.expect("=")
			f.Body = p.expr()
		}
		if p.peek().k != "eof" {
			panic(fmt.Errorf("trailing text %q", p.peek().s))
		}
		if sp.fns[f.Name] != nil {
			panic("duplicate " + f.Name)
		}
		sp.fns[f.Name] = f
		return nil
	case "axiom", "lemma", "hint":
		// lemma: proved from the axioms, the hints and the lemmas before it. hint: a definition used for lemmas only.
		cl := &Clause{Kind: c.kw, Props: props, File: fn, Line: c.line, Text: strings.TrimSpace(text)}
		if m := nameRe.FindStringSubmatch(text); m != nil {
			cl.Name = m[1]
			text = text[strings.Index(text, ":")+1:]
		}
		p := &parser{t: lex(text)}
		cl.E = p.expr()
		if p.peek().k != "eof" {
			panic(fmt.Errorf("trailing text %q", p.peek().s))
		}
		sp.axioms = append(sp.axioms, cl)
		return nil
	case "func", "extern", "iface", "callback":
		p := &parser{t: lex(text)}
		k := &Contract{Kind: c.kw, File: fn, Line: c.line}
		if p.accept("(") { // receiver
			k.Params = p.params(")")
		}
		var key string
		if p.peek().k == "str" {
			key = p.next().s
		} else {
			key = p.next().s
			for p.accept(".") {
				key += "." + p.next().s
			}
		}
		if c.kw == "func" && !strings.Contains(key, ".") {
			key = "flatjsonl." + key
			if len(k.Params) > 0 {
				key = "flatjsonl." + strings.TrimPrefix(k.Params[0].Type, "*") + strings.TrimPrefix(key, "flatjsonl")
			}
		}
		if (c.kw == "iface" || c.kw == "callback") && strings.Count(key, ".") == 1 {
			key = "flatjsonl." + key
		}
		k.Key = key
		p.expect("(")
		k.Params = append(k.Params, p.params(")")...)
		if p.accept("(") {
			k.Results = p.params(")")
		}
		if p.peek().k != "eof" {
			panic(fmt.Errorf("trailing text %q", p.peek().s))
		}
		ck := c.kw + " " + key
		if c.kw == "iface" || c.kw == "callback" {
			ck = "cb " + key
		}
		if sp.contracts[ck] != nil {
			panic("duplicate contract " + key)
		}
		sp.contracts[ck] = k
		return k
	}
	if cur == nil {
		panic("clause outside contract")
	}
	switch c.kw {
	case "inline":
		cur.Inline = true
		return cur
	case "noframe":
		cur.NoFrame = true
		return cur
	case "pure":
		cur.Pure = true
		return cur
	case "maypanic":
		cur.MayPanic = true
		return cur
	case "nosafe":
		cur.NoSafe = true
		return cur
	case "props":
		cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(text, ",", " "))...)
		return cur
	}
	cl := &Clause{Kind: c.kw, Props: props, File: fn, Line: c.line}
	if c.kw == "implements" {
		// implements NAME: expr : callback key
		p := &parser{t: lex(text)}
		cl.E = p.expr()
		p.expect(":")
		k := p.next().s
		for p.accept(".") {
			k += "." + p.next().s
		}
		cl.Impl = k
		cl.Name = "implements-" + k
		cur.Clauses = append(cur.Clauses, cl)
		return cur
	}
	if c.kw == "inv" {
		if m := regexp.MustCompile(`^\s*\(([^)]*)\)`).FindStringSubmatch(text); m != nil && strings.Contains(m[1], "?") {
			p := &parser{t: lex(m[1] + ")")}
			cl.Meta = p.params(")")
			text = text[len(m[0]):]
		}
	}
	if m := nameRe.FindStringSubmatch(text); m != nil {
		cl.Name = m[1]
		text = text[strings.Index(text, ":")+1:]
	} else {
		n := 0
		for _, x := range cur.Clauses {
			if x.Kind == c.kw {
				n++
			}
		}
		cl.Name = fmt.Sprintf("%s%d", c.kw, n+1)
	}
	cl.Text = strings.Join(strings.Fields(text), " ")
	p := &parser{t: lex(text)}
	if c.kw == "modifies" {
		for {
			m := p.expr()
			if g := sp.groups[m.Name]; m.Op == "id" && g != nil {
				cl.Mods = append(cl.Mods, g...)
			} else {
				cl.Mods = append(cl.Mods, m)
			}
			if !p.accept(",") {
				break
			}
		}
	} else {
		cl.E = p.expr()
	}
	if p.peek().k != "eof" {
		panic(fmt.Errorf("trailing text %q", p.peek().s))
	}
	cur.Clauses = append(cur.Clauses, cl)
	return cur
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
