package main

import (
	"fmt"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P05", p05, "cache transparency and evaluation counts on the stated grammars and inputs; evaluation counts are observed through uncached probe rules with a callback")
}

// counted is a node that remembers which rule made it.
type counted struct {
	*j.Attr
	rule *Rule
	it   j.Ast
	told bool
	from int // where its rule started; rules passing it on say otherwise later
}

func (n *counted) SetOrigin(o j.Origin) {
	if !n.told {
		n.told, n.from = true, o.Start
	}
	n.Attr.SetOrigin(o)
}

func (n *counted) String() string { return "<" + n.rule.Name + " " + n.it.String() + ">" }

func p05(w *W) {
	ins := strs(chars("ab"), 4)
	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	step := w.Pick(5, 1)
	w.Suite("skipcache", fmt.Sprintf("S, A, B over %d bodies (every %dth triple), each of the 8 subsets of rules without cache, a third of them made of prebuilt parsers; inputs {a,b}^<=4", len(bodies), step))
	c := 0
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step != 0 || !w.Unit() {
					continue
				}
				g := NewG(&Rule{Name: "S", Body: s}, &Rule{Name: "A", Body: a, Node: true}, &Rule{Name: "B", Body: b})
				if g.LeftRecursive() {
					w.Outcome("left-recursive, not here")
					continue
				}
				if c%3 == 0 {
					for _, r := range g.Rules {
						r.Pre = true
					}
				}
				skipAll(w, g, ins)
			}
		}
	}
	w.Suite("skipcache-ranks", "ranks with uncached lines, subranks and entry; all subsets of 5 rules")
	alts := []*E{Str("a"), Str("ab"), Star(Ref("X")), Seq(Not(Str("b")), Ref("X")), Lab("l", Ref("X"))}
	tuples(len(alts), 3, func(ix []int) {
		if !w.Unit() {
			return
		}
		g := NewG(&Rule{Name: "S", Body: Seq(Ref("R"), Opt(Ref("R")))},
			&Rule{Name: "R", Rank: []*Rule{{Name: "M", Body: alts[ix[0]]}, {Name: "Q", Rank: []*Rule{{Name: "N", Body: alts[ix[1]], Node: true}, {Name: "", Body: alts[ix[2]]}}}}},
			&Rule{Name: "X", Body: Cls("ab"), Node: true})
		skipAll(w, g, ins)
	})

	w.Suite("once", "callbacks at most once per rule and start position, and rule bodies evaluated at most once per position (uncached probe in front of every body); same grammars, and half of them made of prebuilt parsers")
	c = 0
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step != 1%step || !w.Unit() {
					continue
				}
				g := NewG(&Rule{Name: "S", Body: s, Node: true}, &Rule{Name: "A", Body: a, Node: true}, &Rule{Name: "B", Body: b, Node: true})
				if g.LeftRecursive() {
					continue
				}
				countOnce(w, g, ins)
				// the same without callbacks: strings, arrays, undefined values
				for _, r := range g.allRules() {
					r.Node = false
					r.Pre = c%2 == 0
				}
				countOnce(w, g, ins)
			}
		}
	}
	p05kinds(w)
	flatOnce := func(g *G, ins []string) {
		g = g.flat()
		countOnce(w, g, ins)
		for _, r := range g.Rules {
			r.Node = false
		}
		countOnce(w, g, ins)
	}
	namesSuite(w, 4, func(g *G, ins []string) {
		if g.Rules[0].Name == "START" { // the others are left-recursive
			flatOnce(g, ins)
		}
	})
	hugeSuite(w, w.Pick(17, 18), deepKinds, flatOnce)
	sizesSuite(w, plainKernels(), [3]int{w.Pick(11, 12), w.Pick(11, 13), w.Pick(16, 17)}, flatOnce)
	top := w.Pick(13, 16)
	w.Suite("far-back", fmt.Sprintf("backtracking over 2^k-1, 2^k, 2^k+1 characters up to 2^%d: everything is remembered, however far behind", top))
	for _, n := range append(around(5, top, 1), 100, 1000, 5000) {
		if !w.Unit() {
			continue
		}
		g := NewG(&Rule{Name: "S", Body: Alt(Seq(Plus(Ref("C")), Str("!")), Seq(Plus(Ref("C")), Str("?")), Seq(Look(Seq(Star(Ref("C")), Str("."))), Star(Ref("C")), Ref("D")), Not(Ref("C")))}, &Rule{Name: "C", Body: Cls("a-z"), Node: true}, &Rule{Name: "D", Body: Str(".")})
		countOnce(w, g, []string{rep("a", n) + "?", rep("a", n) + ".", rep("a", n), rep("a", n) + "!!"})
	}
	N := w.Pick(60, 150)
	w.Suite("blowup", fmt.Sprintf("families that are exponential without memoisation, sizes 1..%d: evaluation counts, and termination", N))
	for n := 1; n <= N; n++ {
		// nested alternatives sharing a prefix, failing late
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: Alt(Seq(Str("("), Ref("S"), Str(")"), Str("+")), Seq(Str("("), Ref("S"), Str(")"), Str("-")), Seq(Str("("), Ref("S"), Str(")")), Str("x")), Node: true})
			countOnce(w, g, []string{rep("(", n) + "x" + rep(")", n), rep("(", n) + "x" + rep(")", n-1), rep("(", n) + "x" + rep(")+", n), rep("(", n) + "x" + rep(")-", n), rep("(", n)})
		}
		// tower of rules, each trying the next three times
		if w.Unit() {
			var rs []*Rule
			for i := 0; i < n; i++ {
				nx := Ref(fmt.Sprintf("T%d", i+1))
				rs = append(rs, &Rule{Name: fmt.Sprintf("T%d", i), Body: Alt(Seq(nx, Str("!")), Seq(nx, Str("?")), Seq(Not(Seq(nx, Str("."))), nx)), Node: true})
			}
			rs = append(rs, &Rule{Name: fmt.Sprintf("T%d", n), Body: Rgx("[a-z]+"), Node: true})
			countOnce(w, NewG(rs...), []string{"a", "abc", "a!", "a?", "a" + rep("!", n), "a" + rep("?", n), "1", ""})
		}
		// failing towers: negative results are memoised too
		if w.Unit() {
			var rs []*Rule
			for i := 0; i < n; i++ {
				nx := Ref(fmt.Sprintf("F%d", i+1))
				rs = append(rs, &Rule{Name: fmt.Sprintf("F%d", i), Body: Alt(Seq(nx, Str("!")), Seq(Opt(nx), nx), Seq(Look(nx), Str("z"))), Node: true})
			}
			rs = append(rs, &Rule{Name: fmt.Sprintf("F%d", n), Body: Seq(Str("a"), Str("b")), Node: true})
			countOnce(w, NewG(rs...), []string{"ac", "a", "", "b", "aab"})
		}
		// the same rule referenced from many alternatives, long input
		if w.Unit() {
			var k []*E
			for i := 0; i < 6; i++ {
				k = append(k, Seq(Ref("I"), Str(string("+-*/=;"[i]))))
			}
			k = append(k, Ref("I"))
			g := NewG(&Rule{Name: "S", Body: Star(Ref("T")), Node: true}, &Rule{Name: "T", Body: Alt(k...), Node: true}, &Rule{Name: "I", Body: Seq(Ref("L"), Opt(Ref("I"))), Node: true}, &Rule{Name: "L", Body: Cls("a-z"), Node: true})
			countOnce(w, g, []string{rep("a", n), rep("ab;", n), rep("abc+d", n), rep("a", n) + "?"})
		}
	}
}

func skipAll(w *W, g *G, ins []string) {
	rs := g.allRules()
	gt := g.Text()
	w.About(gt)
	wants := make([]want, len(ins))
	for i, in := range ins {
		wants[i] = w.model(g, in)
	}
	for mask := 0; mask < 1<<len(rs); mask++ {
		skip := map[*Rule]bool{}
		names := ""
		for i, r := range rs {
			if mask>>i&1 == 1 {
				skip[r] = true
				names += " " + r.Name
			}
		}
		gm, e := g.Compile(func(r *Rule) []any {
			if skip[r] {
				return []any{j.SkipCache{Bool: true}}
			}
			return nil
		})
		if e != "" {
			w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e})
			return
		}
		for i, in := range ins {
			if wants[i].over {
				w.cur.Skipped++
				continue
			}
			w.Case(in)
			o := parse(gm, in)
			if what, exp, got := agree(wants[i], o, in, aAccept|aTree); what != "" {
				w.Fail(Failure{What: "without the cache of" + names + ": " + what, Key: "skipcache/" + what, Grammar: gt, Input: in, Expected: exp, Got: got})
				return
			}
			if wants[i].accept {
				w.Outcome("accepted")
			} else {
				w.Outcome("refused")
			}
		}
	}
	w.Sample(gt + ", 2^" + fmt.Sprint(len(rs)) + " subsets without cache")
}

// p05kinds: one rule of every kind of production, tried from several places
// at the same position.
func p05kinds(w *W) {
	xs := []*E{Str("a"), Str(""), Cls("ab"), Rgx("a*"), Rgx("[ab]"), Ref("L"), Ref("_L"), Seq(Str("a"), Str("b")), Seq(Ref("_L"), Str("b")), Seq(Str("a"), Cls("b")), Seq(Ref("L"), Cls("b")), Opt(Str("a")), Opt(Ref("L")), Opt(Str("c")),
		Star(Str("a")), Star(Ref("L")), Plus(Cls("a")), Star(Str("c")), StarJ(Cls("ab"), Str(",")), Rep(Str("a"), -1, 1), Look(Str("a")), Look(Ref("L")), Not(Str("b")), Not(Ref("L")), Seq(Not(Str("b")), Str("a")), Seq(Lab("x", Str("a")), Lab("y", Opt(Str("b")))), Lab("x", Opt(Str("c"))), Lab("x", Str("a")),
		Alt(Str("ab"), Str("a")), Alt(Seq(Str("a"), Str("b")), Seq(Str("a"), Not(Str("b")))), Alt(Ref("L"), Ref("_L")), Seq(Str("c"), Str("d")), Seq(Opt(Str("c")), Opt(Str("d")))}
	ctx := []*E{
		Alt(Seq(Ref("X"), Str("!")), Seq(Ref("X"), Str("?")), Seq(Ref("X"), Star(Cls("ab,")))),
		Seq(Look(Ref("X")), Not(Seq(Ref("X"), Str("!"))), Ref("X"), Rgx("[ab,!]*")),
		Seq(Opt(Seq(Ref("X"), Str("!"))), Lab("x", Ref("X")), Opt(Seq(Ref("Y"), Ref("X"), Str("!"))), Opt(Ref("Y"))),
		Seq(StarJ(Alt(Seq(Ref("Y"), Ref("X"), Str("!")), Seq(Ref("Y"), Ref("X"))), Str(",")), Rgx("[ab,!]*")),
		Alt(Seq(Star(Ref("Y")), Str("!")), Seq(Star(Ref("Y")), Ref("X")), Star(Alt(Ref("Y"), Cls("ab,")))),
	}
	ins := strs(chars("ab"), 3)
	ins = append(ins, "a!", "ab!", "a,a", "ab,ab!", "aa!", "a,", "!", "?", "a?", "ba!", "ab?", "abab")
	w.Suite("kinds", fmt.Sprintf("a rule X of %d kinds of bodies, tried several times at one position in %d contexts, directly and through a rule Y, with and without callbacks: evaluated once, and without any subset of the caches the same tree; %d inputs", len(xs), len(ctx), len(ins)))
	for _, x := range xs {
		for _, s := range ctx {
			for _, y := range []*E{Cls("ab"), Ref("X"), Alt(Seq(Ref("X"), Str(",")), Seq(Ref("X"), Cls("ab")))} {
				if !w.Unit() {
					continue
				}
				for v := 0; v < 2; v++ {
					g := NewG(&Rule{Name: "S", Body: s}, &Rule{Name: "X", Body: x, Node: v == 1}, &Rule{Name: "Y", Body: y, Node: v == 1}, &Rule{Name: "L", Body: Str("a"), Node: v == 1}, &Rule{Name: "_L", Body: Cls("a")})
					countOnce(w, g, ins)
					if v == 0 {
						skipAll(w, g, ins)
					}
				}
			}
		}
	}
}

// countOnce checks the number of evaluations and callback calls.
func countOnce(w *W, g *G, ins []string) {
	type at struct {
		r   string
		pos int
	}
	evals := map[at]int{}
	var made []*counted
	var lines []j.Line
	for i, r := range g.allRules() {
		r := r
		var args []any
		var body any = "_p" + r.Name + " (" + r.Body.Text() + ")"
		if r.Pre {
			body = jo().Get().ParseString(body.(string)).(j.Parser)
		}
		args = append(args, j.Named(r.Name, body))
		if r.Node {
			args = append(args, func(it j.Ast) j.Ast {
				n := &counted{Attr: j.NewAttr(), rule: r, it: it}
				made = append(made, n)
				return n
			})
		}
		if i == 0 {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
	}
	for _, r := range g.allRules() {
		r := r
		lines = append(lines, j.I(j.Named("_p"+r.Name, "''"), func(it j.Ast, ctx *j.ParseContext) j.Ast {
			evals[at{r.Name, ctx.Code.Pos()}]++
			return it
		}, j.SkipCache{Bool: true}))
	}
	gt := g.Text()
	w.About(gt)
	gm := j.GrammarWithOptionsFromLines("g", opts(), lines)
	for _, in := range ins {
		w.Case(in)
		clear(evals)
		made = made[:0]
		o := runParse(func() j.Ast {
			a := gm.ParseString(in)
			return a
		})
		if o.Kind == "panic" {
			w.Fail(Failure{What: "the parse panics", Grammar: gt, Input: in, Got: o.Err})
			return
		}
		total := 0
		for k, n := range evals {
			total += n
			if n > 1 {
				w.Fail(Failure{What: "a rule is evaluated several times at the same position in one parse", Grammar: gt, Input: in,
					Expected: "at most one evaluation of " + k.r + fmt.Sprintf(" at %d", k.pos), Got: fmt.Sprint(n)})
				return
			}
		}
		if m := len(g.Rules) * (len(in) + 1); total > m {
			w.Fail(Failure{What: "more rule evaluations than rules x positions", Grammar: gt, Input: in, Expected: fmt.Sprint("<= ", m), Got: fmt.Sprint(total)})
			return
		}
		calls := map[at]int{}
		for _, n := range made {
			k := at{n.rule.Name, n.from}
			calls[k]++
			if calls[k] > 1 {
				w.Fail(Failure{What: "a parse callback runs twice for one rule and position", Grammar: gt, Input: in, Expected: "once", Got: fmt.Sprintf("rule %s at %d", k.r, k.pos)})
				return
			}
		}
		w.cur.States += len(evals)
		w.cur.Transitions += total
		w.Outcome(fmt.Sprintf("evaluations<=rules*positions"))
	}
	w.Sample(gt)
}
