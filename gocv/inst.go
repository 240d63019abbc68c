package main

import "sort"

// Quantified facts, used through their instances. A query is first asked
// without quantifiers: the quantified facts of the path are replaced by their
// instances at the indexes and arguments that occur in the query. If that is
// unsatisfiable, so is the query itself.

type instKey struct {
	op   string
	name string
	pos  int
}

// occurrences of ground terms where a bound variable could stand
func groundIndex(t *Term, seen map[*Term]bool, idx map[instKey]map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	put := func(k instKey, g *Term) {
		if g.hasBound {
			return
		}
		m := idx[k]
		if m == nil {
			m = map[*Term]bool{}
			idx[k] = m
		}
		m[g] = true
	}
	switch t.Op {
	case "select", "store":
		put(instKey{"sel", string(t.Args[0].S), 0}, t.Args[1])
	case "app":
		for i, a := range t.Args {
			put(instKey{"app", t.Name, i}, a)
		}
	}
	for _, a := range t.Args {
		groundIndex(a, seen, idx)
	}
}

// boundKeys: where a bound variable stands in a body
func boundKeys(t, v *Term, seen map[*Term]bool, out map[instKey]bool) {
	if !t.hasBound || seen[t] {
		return
	}
	seen[t] = true
	switch t.Op {
	case "select", "store":
		if t.Args[1] == v {
			out[instKey{"sel", string(t.Args[0].S), 0}] = true
		}
	case "app":
		for i, a := range t.Args {
			if a == v {
				out[instKey{"app", t.Name, i}] = true
			}
		}
	case "forall":
		boundKeys(t.Args[0], v, seen, out)
		return
	}
	for _, a := range t.Args {
		boundKeys(a, v, seen, out)
	}
}

func forallParts(t *Term) (body *Term, vars []*Term) {
	vars = t.Args[1:]
	if t.Name == "trig" {
		vars = t.Args[2:]
	}
	return t.Args[0], vars
}

// skolem replaces the universal quantifiers of a goal by fresh constants
func skolem(t *Term, memo map[*Term]*Term) *Term {
	if !t.hasForall {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "forall":
		body, vars := forallParts(t)
		m := map[*Term]*Term{}
		for _, v := range vars {
			m[v] = Fresh("any", v.S)
		}
		r = skolem(Subst(body, m), memo)
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, skolem(a, memo))
		}
		if t.Op == "and" {
			r = And(as...)
		} else {
			r = Or(as...)
		}
	case "=>":
		r = Imp(t.Args[0], skolem(t.Args[1], memo))
	}
	memo[t] = r
	return r
}

// groundFacts gives a quantifier-free weakening of the facts; lossy says that
// something was left out
func groundFacts(assume []*Term, goal *Term) (facts []*Term, g *Term, lossy bool) {
	var quant []*Term
	add := func(t *Term) {}
	add = func(t *Term) {
		if !t.hasForall {
			facts = append(facts, t)
			return
		}
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				add(a)
			}
		case "forall":
			quant = append(quant, t)
		}
		lossy = true
	}
	for _, t := range assume {
		add(t)
	}
	g = goal
	if goal != nil {
		g = skolem(goal, map[*Term]*Term{})
		if g.hasForall {
			lossy = true
			g = nil
		}
	}
	if len(quant) == 0 {
		return
	}
	seen := map[*Term]bool{}
	idx := map[instKey]map[*Term]bool{}
	for _, f := range facts {
		groundIndex(f, seen, idx)
	}
	if g != nil {
		groundIndex(g, seen, idx)
	}
	have := map[*Term]bool{}
	for _, f := range facts {
		have[f] = true
	}
	total := 0
	for round := 0; round < 2; round++ {
		var fresh []*Term
		for qi := 0; qi < len(quant); qi++ {
			body, vars := forallParts(quant[qi])
			if len(vars) > 2 {
				continue
			}
			choices := make([][]*Term, len(vars))
			for i, v := range vars {
				ks := map[instKey]bool{}
				boundKeys(body, v, map[*Term]bool{}, ks)
				set := map[*Term]bool{}
				for k := range ks {
					for t := range idx[k] {
						if t.S == v.S {
							set[t] = true
						}
					}
				}
				for t := range set {
					choices[i] = append(choices[i], t)
				}
				sortTerms(choices[i])
				if len(choices[i]) > 24 {
					choices[i] = choices[i][:24]
				}
			}
			inst := func(m map[*Term]*Term) {
				t := Subst(body, m)
				if t == True || have[t] || total > 1500 {
					return
				}
				have[t] = true
				total++
				if t.Op == "forall" {
					quant = append(quant, t)
					return
				}
				if !t.hasForall {
					fresh = append(fresh, t)
				}
			}
			for _, a := range choices[0] {
				if len(vars) == 1 {
					inst(map[*Term]*Term{vars[0]: a})
					continue
				}
				for _, b := range choices[1] {
					inst(map[*Term]*Term{vars[0]: a, vars[1]: b})
				}
			}
		}
		for _, f := range fresh {
			facts = append(facts, f)
			groundIndex(f, seen, idx)
		}
		if len(fresh) == 0 {
			break
		}
	}
	return
}

func hasQuant(pc []*Term, goal *Term) bool {
	if goal != nil && goal.hasForall {
		return true
	}
	for _, t := range pc {
		if t.hasForall {
			return true
		}
	}
	return false
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }
