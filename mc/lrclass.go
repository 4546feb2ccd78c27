package main

// Classification of a grammar's left recursion.

// firstRefs collects the rules e may invoke at its own start position
// (left), and those it may invoke at a later position (later). It returns
// whether e can succeed without consuming input (conservatively: true when
// unsure).
func (g *G) firstRefs(e *E, nullable map[string]bool, left, later map[string]bool) bool {
	sub := func(k *E, l, la map[string]bool) bool { return g.firstRefs(k, nullable, l, la) }
	switch e.Op {
	case OStr:
		return e.S == ""
	case OClass:
		return false
	case ORegex:
		return e.mayMatchEmpty()
	case ORef:
		left[e.S] = true
		return nullable[e.S]
	case OSeq:
		null := true
		for _, k := range e.K {
			if null {
				// may still be at the start; a nullable prefix that did consume
				// something puts k at a later position as well
				all := true
				l := map[string]bool{}
				n := sub(k, l, later)
				for r := range l {
					left[r] = true
					if k != e.K[0] {
						later[r] = true
					}
				}
				all = n
				null = all
			} else {
				l := map[string]bool{}
				sub(k, l, later)
				for r := range l {
					later[r] = true
				}
			}
		}
		return null
	case OChoice:
		null := false
		for _, k := range e.K {
			if sub(k, left, later) {
				null = true
			}
		}
		return null
	case OOpt, ONot, OLook:
		sub(e.K[0], left, later)
		return true
	case OPat:
		l := map[string]bool{}
		n := sub(e.K[0], l, later)
		for r := range l {
			left[r] = true
			later[r] = true
		}
		if len(e.K) > 1 {
			l := map[string]bool{}
			sub(e.K[1], l, later)
			for r := range l {
				later[r] = true
				if n {
					left[r] = true
				}
			}
		}
		return n || e.Min <= 0
	}
	return true
}

func (g *G) allRules() []*Rule {
	var out []*Rule
	var add func(r *Rule)
	add = func(r *Rule) {
		out = append(out, r)
		for _, k := range r.Rank {
			add(k)
		}
	}
	for _, r := range g.Rules {
		add(r)
	}
	return out
}

// leftGraph returns the left-call graph over rule pointers plus the set of
// rules that may be invoked at a later position than their caller's start.
func (g *G) leftGraph() (edges map[*Rule]map[*Rule]bool, later map[*Rule]bool) {
	nullable := map[string]bool{}
	for {
		ch := false
		for _, r := range g.allRules() {
			n := g.ruleNullable(r, nullable)
			if n && r.Name != "" && !nullable[r.Name] {
				nullable[r.Name] = true
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	edges = map[*Rule]map[*Rule]bool{}
	later = map[*Rule]bool{}
	for _, r := range g.allRules() {
		edges[r] = map[*Rule]bool{}
		if r.Rank != nil {
			for _, k := range r.Rank {
				edges[r][k] = true
			}
			continue
		}
		l, la := map[string]bool{}, map[string]bool{}
		g.firstRefs(r.Body, nullable, l, la)
		for n := range l {
			if x := g.byN[n]; x != nil {
				edges[r][x] = true
			}
		}
		for n := range la {
			if x := g.byN[n]; x != nil {
				later[x] = true
			}
		}
	}
	return
}

func (g *G) ruleNullable(r *Rule, nullable map[string]bool) bool {
	if r.Rank != nil {
		for _, k := range r.Rank {
			if g.ruleNullable(k, nullable) {
				return true
			}
		}
		return false
	}
	return g.firstRefs(r.Body, nullable, map[string]bool{}, map[string]bool{})
}

// LeftRecursive reports whether some rule can reach itself without consuming.
func (g *G) LeftRecursive() bool {
	edges, _ := g.leftGraph()
	for r := range edges {
		seen := map[*Rule]bool{}
		var dfs func(x *Rule) bool
		dfs = func(x *Rule) bool {
			for y := range edges[x] {
				if y == r {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		if dfs(r) {
			return true
		}
	}
	return false
}

// SingleEntry reports whether every left-recursive cycle is entered through
// one rule only: the left-call graph, with a virtual root calling the entry
// rule and every rule invoked at a later position, is reducible (T1/T2).
func (g *G) SingleEntry() bool {
	edges, later := g.leftGraph()
	root := &Rule{Name: "<root>"}
	succ := map[*Rule]map[*Rule]bool{root: {}}
	for r, es := range edges {
		succ[r] = map[*Rule]bool{}
		for x := range es {
			succ[r][x] = true
		}
	}
	succ[root][g.Rules[0]] = true
	for r := range later {
		succ[root][r] = true
	}
	// restrict to reachable nodes
	reach := map[*Rule]bool{}
	var dfs func(x *Rule)
	dfs = func(x *Rule) {
		if reach[x] {
			return
		}
		reach[x] = true
		for y := range succ[x] {
			dfs(y)
		}
	}
	dfs(root)
	for x := range succ {
		if !reach[x] {
			delete(succ, x)
		}
	}
	for {
		changed := false
		for x := range succ { // T1
			if succ[x][x] {
				delete(succ[x], x)
				changed = true
			}
		}
		for y := range succ { // T2
			if y == root {
				continue
			}
			var pred *Rule
			n := 0
			for x := range succ {
				if succ[x][y] {
					pred = x
					n++
				}
			}
			if n == 1 && pred != y {
				for z := range succ[y] {
					succ[pred][z] = true
				}
				delete(succ[pred], y)
				delete(succ, y)
				changed = true
				break
			}
		}
		if !changed {
			return len(succ) == 1
		}
	}
}
