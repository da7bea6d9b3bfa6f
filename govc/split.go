package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// Case splitting: an obligation the back ends leave undecided is divided along
// the conditions at which execution paths were joined (disjunctions of the path,
// conditions of if-then-else terms) and every case is proved by itself.

type goalCase struct {
	hyps []*Term
	neg  []*Term // conjuncts of the negated goal
	core []*Term // literals of the case
	n    int     // depth
}

var ufMemo = map[*Term]map[string]bool{}

// ufsOf: the uninterpreted functions of a term (quantified bodies included)
func ufsOf(t *Term) map[string]bool {
	if m, ok := ufMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	if t.op == OApp {
		m[t.name] = true
	}
	for _, a := range t.args {
		for k := range ufsOf(a) {
			m[k] = true
		}
	}
	ufMemo[t] = m
	return m
}

// prune keeps the hypotheses that speak only about what the goal speaks about.
func prune(hyps, goal []*Term) []*Term {
	rel := map[string]bool{}
	for _, g := range goal {
		for k := range ufsOf(g) {
			rel[k] = true
		}
	}
	var out []*Term
	for _, h := range hyps {
		ok := true
		for k := range ufsOf(h) {
			if !rel[k] {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, h)
		}
	}
	return out
}

func litMap(c *Term, v bool, m map[*Term]*Term) {
	if isC(c) {
		return
	}
	switch {
	case c.op == ONot:
		litMap(c.args[0], !v, m)
		return
	case c.op == OAnd && v:
		for _, a := range c.args {
			litMap(a, true, m)
		}
	case c.op == OOr && !v:
		for _, a := range c.args {
			litMap(a, false, m)
		}
	}
	m[c] = CB(v)
}

// assumeCase adds literal c=v to the case, simplifying everything with it.
// It returns nil if the case is contradictory.
func assumeCase(g *goalCase, c *Term, v bool) *goalCase {
	if !v {
		c = Not(c)
	}
	return assumeLits(g, []*Term{c})
}

// orient: an equality used as a rewrite rule, larger side to simpler side
func orient(l *Term, m map[*Term]*Term) {
	if l.op != OEq || l.open {
		return
	}
	a, b := l.args[0], l.args[1]
	rank := func(t *Term) int {
		switch t.op {
		case OConst:
			return 0
		case OVar:
			return 1
		case OApp:
			return 2
		}
		return 9
	}
	if rank(a) < rank(b) {
		a, b = b, a
	}
	if rank(a) > 2 && b.op == OVar && m[b] == nil && !occurs(b, a) {
		// a variable that is just a name for a term
		if r, ok := m[a]; ok && r == TT {
			return
		}
		m[b] = a
		return
	}
	if rank(a) > 2 || rank(b) > 1 || a == b {
		return
	}
	if _, dup := m[a]; dup {
		return
	}
	if b.op == OVar && m[b] != nil {
		return
	}
	for _, r := range m {
		if r == a {
			return
		}
	}
	m[a] = b
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// simplify: the obligation with its path condition assumed, equalities between
// names applied and the goal skolemized.  nil: nothing is left to prove.
func simplify(o *Obligation) *goalCase {
	g := &goalCase{hyps: append([]*Term{}, o.hyps[:o.nhyp]...), neg: skolem(conj(Not(o.goal)))}
	var lits []*Term
	for _, h := range g.hyps {
		if h.op == OEq && !h.open {
			lits = append(lits, h)
		}
	}
	for _, h := range g.neg {
		if h.open || h.op == OForall || h.op == OExists {
			continue
		}
		switch h.op {
		case OVar, ONot, OEq, OULt, OULe, OSLt, OSLe, OOr:
			lits = append(lits, h)
		}
	}
	return assumeLits(g, lits)
}

var iteMemo = map[*Term]bool{}

func hasIte(t *Term) bool {
	if r, ok := iteMemo[t]; ok {
		return r
	}
	r := t.op == OIte
	for _, a := range t.args {
		r = r || hasIte(a)
	}
	iteMemo[t] = r
	return r
}

func assumeLits(g *goalCase, lits []*Term) *goalCase {
	hyps, neg := g.hyps, g.neg
	var units []*Term
	for round := 0; round < 3 && len(lits) > 0; round++ {
		m := map[*Term]*Term{}
		for _, l := range lits {
			litMap(l, true, m)
		}
		for _, l := range lits {
			orient(l, m)
		}
		units = append(units, lits...)
		lits = nil
		memo := map[*Term]*Term{}
		seen := map[*Term]bool{}
		for _, u := range units {
			seen[u] = true
		}
		do := func(in []*Term) ([]*Term, bool) {
			var out []*Term
			for _, h := range in {
				r := subst(h, m, memo)
				if r == TT {
					continue
				}
				if r == FF {
					return nil, false
				}
				if r != h {
					for _, k := range conj(r) {
						if !seen[k] && !k.open && (k.op == OVar || k.op == ONot || k.op == OOr && false || k.op == OEq || k.op == OULt || k.op == OULe) && len(lits) < 60 && !hasIte(k) {
							seen[k] = true
							lits = append(lits, k)
						}
						out = append(out, k)
					}
					continue
				}
				out = append(out, r)
			}
			return out, true
		}
		var ok bool
		if hyps, ok = do(hyps); !ok {
			return nil
		}
		if neg, ok = do(neg); !ok {
			return nil
		}
	}
	neg = skolem(neg)
	nh := append(append([]*Term{}, units...), hyps...)
	return &goalCase{nh, neg, append(append([]*Term{}, g.core...), units...), g.n + 1}
}

// pick chooses the literals to split on: cases[i] are alternatives that cover everything.
func (g *goalCase) pick() []*Term {
	for _, k := range g.neg {
		if k.op == OOr && !k.open && len(k.args) <= 8 {
			quant := false
			for _, a := range k.args {
				if a.op == OForall || a.op == OExists {
					quant = true
				}
			}
			_ = quant
			return k.args
		}
	}
	count := map[*Term]int{}
	first := map[*Term]int{}
	seen := map[*Term]bool{}
	n := 0
	var walk func(t *Term, w int)
	walk = func(t *Term, w int) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte && !t.args[0].open && !isC(t.args[0]) {
			c := t.args[0]
			if c.op == ONot {
				c = c.args[0]
			}
			count[c] += w
			if _, ok := first[c]; !ok {
				n++
				first[c] = n
			}
		}
		for _, a := range t.args {
			walk(a, w)
		}
	}
	for _, k := range g.neg {
		walk(k, 1)
	}
	if len(count) == 0 {
		for _, k := range g.core {
			walk(k, 1)
		}
	}
	if len(count) == 0 {
		for _, k := range g.hyps {
			walk(k, 1)
		}
	}
	var cs []*Term
	for c := range count {
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		return nil
	}
	sort.Slice(cs, func(i, j int) bool {
		if count[cs[i]] != count[cs[j]] {
			return count[cs[i]] > count[cs[j]]
		}
		return first[cs[i]] < first[cs[j]]
	})
	return []*Term{cs[0], Not(cs[0])}
}

// splitProve tries to prove the undecided obligations case by case.
func (s *Solver) splitProve(o *Obligation, tmo int, maxCases int) bool {
	g := &goalCase{hyps: append([]*Term{}, o.hyps[:o.nhyp]...), neg: skolem(conj(Not(o.goal)))}
	var eqs []*Term
	for _, h := range g.hyps {
		if h.op == OEq {
			eqs = append(eqs, h)
		}
	}
	if g = assumeLits(g, eqs); g == nil {
		o.result, o.backend = "proved", "simplifier/case split"
		return true
	}
	g.n, g.core = 0, nil
	work := []*goalCase{g}
	total := 0
	first := true
	for len(work) > 0 {
		// divide every open case once more
		var next []*goalCase
		for _, w := range work {
			alts := w.pick()
			if alts == nil {
				return false
			}
			for _, a := range alts {
				if c := assumeCase(w, a, true); c != nil {
					next = append(next, c)
				}
			}
		}
		total += len(next)
		if total > maxCases {
			return false
		}
		_ = first
		texts := make([]string, len(next))
		small := make([]string, len(next))
		for i, c := range next {
			texts[i] = script(c.hyps, Not(And(c.neg...)), false)
			if p := prune(c.hyps, append(append([]*Term{}, g.neg...), c.neg...)); len(p) < len(c.hyps) {
				small[i] = script(p, Not(And(c.neg...)), false)
			}
		}
		res := make([]string, len(next))
		var wg sync.WaitGroup
		for i := range next {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, sec := "", 0.0
				if small[i] != "" {
					r, _, sec = s.prove(small[i], tmo, true)
				}
				if r != "proved" {
					var sec2 float64
					r, _, sec2 = s.prove(texts[i], tmo, true)
					sec += sec2
				}
				s.mu.Lock()
				o.secs += sec
				s.mu.Unlock()
				res[i] = r
			}()
		}
		wg.Wait()
		work = nil
		for i, r := range res {
			if r != "proved" {
				if d := os.Getenv("GOVC_SPLITDUMP"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%s.%d.%d.%d.smt2", d, o.contract, o.nhyp, next[i].n, i), []byte("(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n"+texts[i]+"(check-sat)\n"), 0o644)
				}
				if next[i].n > 8 {
					return false
				}
				work = append(work, next[i])
			}
		}
		first = false
	}
	o.result, o.backend = "proved", "z3-new/case split"
	return true
}

// skolem replaces negated universal conjuncts by instances with new constants.
func skolem(in []*Term) []*Term {
	var out []*Term
	for _, k := range in {
		var q *Term
		neg := false
		if k.op == ONot && k.args[0].op == OForall {
			q, neg = k.args[0], true
		} else if k.op == OExists {
			q = k
		}
		if q == nil || q.open {
			out = append(out, k)
			continue
		}
		m := map[*Term]*Term{}
		for _, b := range q.bound {
			m[b] = Fresh("sk."+b.name, b.sort)
		}
		b := subst(q.args[0], m, map[*Term]*Term{})
		if neg {
			b = Not(b)
		}
		out = append(out, skolem(conj(b))...)
	}
	return out
}
