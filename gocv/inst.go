package main

import "strconv"

// Ground instantiation: an extra query, implied by the original one, in which the
// quantified facts are replaced by finitely many of their instances. Only "unsat"
// answers of such a query count, so it never accepts anything the facts do not imply.

type instantiator struct {
	facts   []*Term
	known   map[int]bool
	skolems map[string][]*Term // by sort
	skDone  map[[2]int]bool
	insts   map[int]map[string]bool
	total   int
}

const (
	maxInst    = 800
	maxPerSort = 24
)

func (in *instantiator) add(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			in.add(a)
		}
		return
	}
	switch {
	case t.Op == "not" && t.Args[0].Op == "=>":
		in.add(t.Args[0].Args[0])
		in.add(mkNot(t.Args[0].Args[1]))
		return
	case t.Op == "not" && t.Args[0].Op == "or":
		for _, a := range t.Args[0].Args {
			in.add(mkNot(a))
		}
		return
	case t.Op == "=>":
		c, b := t.Args[0], t.Args[1]
		switch {
		case b.Op == "and":
			for _, a := range b.Args {
				in.add(mkImp(c, a))
			}
			return
		case b.Op == "not" && b.Args[0].Op == "=>":
			in.add(mkImp(c, b.Args[0].Args[0]))
			in.add(mkImp(c, mkNot(b.Args[0].Args[1])))
			return
		case b.Op == "not" && b.Args[0].Op == "or":
			for _, a := range b.Args[0].Args {
				in.add(mkImp(c, mkNot(a)))
			}
			return
		}
	}
	if t.Op == "true" || in.known[t.ID] {
		return
	}
	in.known[t.ID] = true
	in.facts = append(in.facts, t)
}

func hasQuant(t *Term) bool {
	found := false
	walk(t, map[int]bool{}, func(u *Term) {
		if u.Op == "forall" || u.Op == "exists" {
			found = true
		}
	})
	return found
}

type quantAt struct {
	cond *Term
	q    *Term
}

// positives finds the quantifiers that are, under a condition, asserted: universal ones
// in univ, existential ones in exis (a negated universal is an existential).
func positives(t *Term, neg bool, cond *Term, univ, exis *[]quantAt) {
	if len(t.Args) == 0 {
		return
	}
	switch t.Op {
	case "not":
		positives(t.Args[0], !neg, cond, univ, exis)
	case "forall", "exists":
		if (t.Op == "forall") != neg {
			*univ = append(*univ, quantAt{cond, t})
		} else {
			*exis = append(*exis, quantAt{cond, t})
		}
	case "and":
		if !neg {
			for _, a := range t.Args {
				positives(a, false, cond, univ, exis)
			}
			return
		}
		for i, a := range t.Args {
			positives(a, true, mkAnd(append([]*Term{cond}, others(t.Args, i, false)...)...), univ, exis)
		}
	case "or":
		if neg {
			for _, a := range t.Args {
				positives(a, true, cond, univ, exis)
			}
			return
		}
		for i, a := range t.Args {
			positives(a, false, mkAnd(append([]*Term{cond}, others(t.Args, i, true)...)...), univ, exis)
		}
	case "=>":
		if neg { // A and not B
			positives(t.Args[0], false, cond, univ, exis)
			positives(t.Args[1], true, cond, univ, exis)
			return
		}
		positives(t.Args[0], true, mkAnd(cond, mkNot(t.Args[1])), univ, exis)
		positives(t.Args[1], false, mkAnd(cond, t.Args[0]), univ, exis)
	case "ite":
		if t.Sort != sBool {
			return
		}
		positives(t.Args[1], neg, mkAnd(cond, t.Args[0]), univ, exis)
		positives(t.Args[2], neg, mkAnd(cond, mkNot(t.Args[0])), univ, exis)
	case "=":
		if t.Args[0].Sort != sBool || !hasQuant(t) {
			return
		}
		a, b := t.Args[0], t.Args[1]
		if neg {
			a = mkNot(a)
		}
		positives(b, false, mkAnd(cond, a), univ, exis)
		positives(b, true, mkAnd(cond, mkNot(a)), univ, exis)
		positives(a, false, mkAnd(cond, b), univ, exis)
		positives(a, true, mkAnd(cond, mkNot(b)), univ, exis)
	}
}

func others(as []*Term, i int, neg bool) []*Term {
	var out []*Term
	for j, a := range as {
		if j == i {
			continue
		}
		if neg {
			a = mkNot(a)
		}
		out = append(out, a)
	}
	return out
}

// match extends the bindings so that pattern p equals ground term t.
func match(p, t *Term, b map[*Term]*Term, vars map[*Term]bool) bool {
	if p == t {
		return true
	}
	if vars[p] {
		if x, ok := b[p]; ok {
			return x == t
		}
		if p.Sort != t.Sort {
			return false
		}
		b[p] = t
		return true
	}
	if p.Op == "bound" || p.Op == "var" || p.Op != t.Op || p.Str != t.Str || len(p.Args) != len(t.Args) || len(p.Args) == 0 || p.Sort != t.Sort {
		// x + c against a ground integer
		if p.Op == "+" && p.Sort == sInt && t.Sort == sInt {
			for i, a := range p.Args {
				if vars[a] && b[a] == nil {
					ok := true
					rest := t
					for j, o := range p.Args {
						if j != i {
							if hasBound(o) {
								ok = false
								break
							}
							rest = mkSub(rest, o)
						}
					}
					if ok {
						b[a] = rest
						return true
					}
				}
			}
		}
		return false
	}
	for i := range p.Args {
		if !match(p.Args[i], t.Args[i], b, vars) {
			return false
		}
	}
	return true
}

// enhance returns ground facts implied by (pc, axioms, not goal) up to skolem constants.
func (s *Solver) enhance(pc []*Term, goal *Term) (facts []*Term, useful bool) {
	in := &instantiator{known: map[int]bool{}, skolems: map[string][]*Term{}, skDone: map[[2]int]bool{}, insts: map[int]map[string]bool{}}
	for _, p := range pc {
		in.add(p)
	}
	if goal != nil {
		in.add(mkNot(goal))
	}
	seenF := map[int]bool{}
	quants := 0
	axUsed := map[int]bool{}
	for round := 0; round < 5; round++ {
		// Axioms about the symbols in use.
		syms := map[string]bool{}
		{
			seen, so, va, ops := map[int]bool{}, map[string]bool{}, map[string]string{}, map[string]bool{}
			for _, f := range in.facts {
				collectSyms(f, seen, syms, so, va, ops)
			}
		}
		for i, ax := range s.axioms {
			if axUsed[i] {
				continue
			}
			for _, y := range ax.syms {
				if syms[y] {
					axUsed[i] = true
					in.add(ax.t)
					break
				}
			}
		}
		var univ, exis []quantAt
		for _, f := range in.facts {
			if !hasQuant(f) {
				continue
			}
			positives(f, false, tTrue, &univ, &exis)
		}
		quants += len(univ) + len(exis)
		before := len(in.facts)
		for _, q := range exis {
			if hasBound2(q.cond) {
				continue
			}
			k := [2]int{q.cond.ID, q.q.ID}
			if in.skDone[k] {
				continue
			}
			in.skDone[k] = true
			m := map[*Term]*Term{}
			for _, b := range q.q.Bound {
				v := fresh("sk", b.Sort)
				m[b] = v
				in.skolems[b.Sort] = append(in.skolems[b.Sort], v)
			}
			body := subst(q.q.Args[0], m)
			if q.q.Op == "forall" {
				body = mkNot(body)
			}
			in.add(mkImp(q.cond, body))
		}
		// Ground terms by head.
		pool := map[string][]*Term{}
		idx := map[string][]*Term{} // index terms by array sort
		idxSeen := map[string]map[int]bool{}
		seen := map[int]bool{}
		for _, f := range in.facts {
			walk(f, seen, func(u *Term) {
				if len(u.Args) == 0 || hasBound(u) {
					return
				}
				pool[u.Op+"/"+u.Str] = append(pool[u.Op+"/"+u.Str], u)
				if u.Op == "select" || u.Op == "store" {
					a := u.Args[0].Sort
					if idxSeen[a] == nil {
						idxSeen[a] = map[int]bool{}
					}
					if !idxSeen[a][u.Args[1].ID] {
						idxSeen[a][u.Args[1].ID] = true
						idx[a] = append(idx[a], u.Args[1])
					}
				}
			})
		}
		_ = seenF
		for _, q := range univ {
			if hasBound2(q.cond) {
				continue
			}
			vars := map[*Term]bool{}
			for _, b := range q.q.Bound {
				vars[b] = true
			}
			emit := func(m map[*Term]*Term) {
				if in.total > maxInst {
					return
				}
				key := ""
				for _, b := range q.q.Bound {
					t := m[b]
					if t == nil || hasBound(t) {
						return
					}
					key += "," + strconv.Itoa(t.ID)
				}
				id := q.q.ID
				if in.insts[id] == nil {
					in.insts[id] = map[string]bool{}
				}
				key += "|" + strconv.Itoa(q.cond.ID)
				if in.insts[id][key] || len(in.insts[id]) > 80 {
					return
				}
				in.insts[id][key] = true
				in.total++
				body := subst(q.q.Args[0], m)
				if q.q.Op == "exists" {
					body = mkNot(body)
				}
				in.add(mkImp(q.cond, body))
			}
			// Skolem constants (and index terms of the arrays it reads).
			cands := func(b *Term) (r []*Term) {
				var out []*Term
				ids := map[int]bool{}
				isIdx := false
				defer func() {
					if !isIdx {
						r = append(r, in.skolems[b.Sort]...)
					}
					if len(r) > maxPerSort {
						r = append(r[:maxPerSort/2:maxPerSort/2], r[len(r)-maxPerSort/2:]...)
					}
				}()
				walk(q.q.Args[0], map[int]bool{}, func(u *Term) {
					if (u.Op == "select" || u.Op == "store") && mentionsVar(u.Args[1], b) {
						isIdx = true
						for _, i := range idx[u.Args[0].Sort] {
							c := i
							if u.Args[1] != b {
								m := map[*Term]*Term{}
								if !match(u.Args[1], i, m, map[*Term]bool{b: true}) || m[b] == nil {
									continue
								}
								c = m[b]
							}
							if !ids[c.ID] && c.Sort == b.Sort {
								ids[c.ID] = true
								out = append(out, c)
							}
						}
					}
				})
				return out
			}
			// Pattern matches.
			for _, p := range q.q.Pats {
				var rec func(i int, m map[*Term]*Term)
				rec = func(i int, m map[*Term]*Term) {
					if in.total > maxInst {
						return
					}
					if i == len(p) {
						emit(m)
						return
					}
					for _, t := range pool[p[i].Op+"/"+p[i].Str] {
						m2 := map[*Term]*Term{}
						for k, v := range m {
							m2[k] = v
						}
						if match(p[i], t, m2, vars) {
							rec(i+1, m2)
						}
					}
				}
				rec(0, map[*Term]*Term{})
			}
			if len(q.q.Bound) == 1 {
				b := q.q.Bound[0]
				for _, c := range cands(b) {
					emit(map[*Term]*Term{b: c})
				}
			} else if len(q.q.Bound) == 2 {
				b0, b1 := q.q.Bound[0], q.q.Bound[1]
				for _, c := range cands(b0) {
					for _, d := range cands(b1) {
						emit(map[*Term]*Term{b0: c, b1: d})
					}
				}
			}
		}
		if len(in.facts) == before {
			break
		}
	}
	if quants == 0 {
		return nil, false
	}
	for _, f := range in.facts {
		if !hasQuant(f) {
			facts = append(facts, f)
		}
	}
	return facts, true
}

func hasBound2(t *Term) bool { return hasBound(t) }

func mentionsVar(t, b *Term) bool {
	f := false
	walk(t, map[int]bool{}, func(u *Term) { f = f || u == b })
	return f
}
