package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// The string abstraction of a query: strings become an uninterpreted sort and
// string operations uninterpreted functions with a few true facts about them.
// Every model of the query is a model of its abstraction, so that an "unsat" of
// the abstraction counts and a "sat" does not.

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) ([]*sx, bool) {
	var stack [][]*sx
	cur := []*sx{}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '(':
			stack = append(stack, cur)
			cur = []*sx{}
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, false
			}
			l := &sx{list: cur}
			cur = append(stack[len(stack)-1], l)
			stack = stack[:len(stack)-1]
			i++
		case c == '"':
			j := i + 1
			for j < len(s) {
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(s) {
				return nil, false
			}
			cur = append(cur, &sx{atom: s[i : j+1]})
			i = j + 1
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return nil, false
			}
			cur = append(cur, &sx{atom: s[i : i+j+2]})
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()\"|;", rune(s[j])) {
				j++
			}
			cur = append(cur, &sx{atom: s[i:j]})
			i = j
		}
	}
	return cur, len(stack) == 0
}

func (x *sx) print(sb *strings.Builder) {
	if x.list == nil && x.atom != "" {
		sb.WriteString(x.atom)
		return
	}
	sb.WriteByte('(')
	for i, y := range x.list {
		if i > 0 {
			sb.WriteByte(' ')
		}
		y.print(sb)
	}
	sb.WriteByte(')')
}

var strSigs = map[string][2]string{
	"str.len": {"USTR", "Int"}, "str.at": {"USTR Int", "USTR"}, "str.substr": {"USTR Int Int", "USTR"},
	"str.prefixof": {"USTR USTR", "Bool"}, "str.suffixof": {"USTR USTR", "Bool"}, "str.contains": {"USTR USTR", "Bool"},
	"str.indexof": {"USTR USTR Int", "Int"}, "str.replace": {"USTR USTR USTR", "USTR"}, "str.replace_all": {"USTR USTR USTR", "USTR"},
	"str.to_code": {"USTR", "Int"}, "str.from_code": {"Int", "USTR"}, "str.<": {"USTR USTR", "Bool"}, "str.<=": {"USTR USTR", "Bool"},
	"str.from_int": {"Int", "USTR"}, "str.to_int": {"USTR", "Int"}, "str.is_digit": {"USTR", "Bool"},
}

// abstractStrings is the string abstraction of a query text.
func abstractStrings(text string) (string, bool) {
	xs, ok := parseSx(text)
	if !ok {
		return "", false
	}
	lits := map[string]int{}
	var order []string
	ops := map[string]bool{}
	bad, used := false, false
	var tr func(x *sx) *sx
	tr = func(x *sx) *sx {
		if x.list == nil {
			a := x.atom
			switch {
			case a == "":
				return x
			case a == "String":
				used = true
				return &sx{atom: "USTR"}
			case a[0] == '"':
				n, ok := lits[a]
				if !ok {
					n = len(order)
					lits[a] = n
					order = append(order, a)
				}
				return &sx{atom: fmt.Sprintf("lit!%d", n)}
			case strings.HasPrefix(a, "re.") || a == "RegLan":
				bad = true
			case strings.HasPrefix(a, "str."):
				if _, ok := strSigs[a]; !ok && a != "str.++" {
					bad = true
				}
				ops[a] = true
				return &sx{atom: "us" + a[3:]}
			}
			return x
		}
		if len(x.list) > 2 && x.list[0].atom == "str.++" {
			ops["str.++"] = true
			l := tr(x.list[len(x.list)-1])
			for i := len(x.list) - 2; i >= 1; i-- {
				l = &sx{list: []*sx{{atom: "us.++"}, tr(x.list[i]), l}}
			}
			return l
		}
		y := &sx{list: make([]*sx, 0, len(x.list))}
		for _, z := range x.list {
			y.list = append(y.list, tr(z))
		}
		return y
	}
	var body strings.Builder
	for _, x := range xs {
		tr(x).print(&body)
		body.WriteByte('\n')
	}
	if bad || !used && len(order) == 0 {
		return "", false
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort USTR 0)\n")
	for i := range order {
		fmt.Fprintf(&sb, "(declare-const lit!%d USTR)\n", i)
	}
	if len(order) > 1 {
		sb.WriteString("(assert (distinct")
		for i := range order {
			fmt.Fprintf(&sb, " lit!%d", i)
		}
		sb.WriteString("))\n")
	}
	if ops["str.++"] || ops["str.substr"] || ops["str.at"] {
		ops["str.len"] = true
	}
	var os []string
	for o := range ops {
		os = append(os, o)
	}
	sort.Strings(os)
	for _, o := range os {
		if o == "str.++" {
			sb.WriteString("(declare-fun us.++ (USTR USTR) USTR)\n")
			continue
		}
		g := strSigs[o]
		fmt.Fprintf(&sb, "(declare-fun us%s (%s) %s)\n", o[3:], g[0], g[1])
	}
	if ops["str.len"] {
		sb.WriteString("(assert (forall ((x USTR)) (! (>= (us.len x) 0) :pattern ((us.len x)))))\n")
		for i, l := range order {
			if n, ok := litLen(l); ok {
				fmt.Fprintf(&sb, "(assert (= (us.len lit!%d) %d))\n", i, n)
				if n == 0 {
					fmt.Fprintf(&sb, "(assert (forall ((x USTR)) (! (=> (= (us.len x) 0) (= x lit!%d)) :pattern ((us.len x)))))\n", i)
				}
			}
		}
		if ops["str.++"] {
			sb.WriteString("(assert (forall ((x USTR) (y USTR)) (! (= (us.len (us.++ x y)) (+ (us.len x) (us.len y))) :pattern ((us.++ x y)))))\n")
		}
	}
	if ops["str.++"] {
		sb.WriteString("(assert (forall ((x USTR) (y USTR) (z USTR)) (! (= (us.++ (us.++ x y) z) (us.++ x (us.++ y z))) :pattern ((us.++ (us.++ x y) z)))))\n")
	}
	if ops["str.contains"] {
		sb.WriteString("(assert (forall ((x USTR)) (! (us.contains x x) :pattern ((us.contains x x)))))\n")
		if ops["str.++"] {
			sb.WriteString("(assert (forall ((x USTR) (y USTR) (z USTR)) (! (=> (or (= x z) (= y z) (us.contains x z) (us.contains y z)) (us.contains (us.++ x y) z)) :pattern ((us.contains (us.++ x y) z)))))\n")
		}
	}
	if ops["str.prefixof"] && ops["str.++"] {
		sb.WriteString("(assert (forall ((x USTR) (y USTR) (z USTR)) (! (=> (or (= x z) (us.prefixof z x)) (us.prefixof z (us.++ x y))) :pattern ((us.prefixof z (us.++ x y))))))\n")
	}
	sb.WriteString(body.String())
	return sb.String(), true
}

func litLen(l string) (int, bool) {
	l = strings.ReplaceAll(l[1:len(l)-1], `""`, `"`)
	if strings.Contains(l, `\u`) {
		return 0, false
	}
	return utf8.RuneCountInString(l), true
}
