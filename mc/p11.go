package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P11", p11, "every rule builds a fresh node; inputs up to the stated length over {a, b, newline, é}; token streams with the stated tokenizations")
}

func p11(w *W) {
	nl := strs([]string{"a", "b", "\n"}, w.Pick(3, 4))
	n4 := strs([]string{"a", "b", "\n"}, 4)
	ue := strs([]string{"a", "\n", "é"}, w.Pick(4, 5))
	nodes := func(rs ...*Rule) *G {
		var all func(rs []*Rule)
		all = func(rs []*Rule) {
			for _, r := range rs {
				if r.Name != "" {
					r.Node = true
				}
				all(r.Rank)
			}
		}
		all(rs)
		return NewG(rs...)
	}
	atoms := []*E{Str("a"), Cls(`ab`), Rgx(`[a\n]+`), Str("\n"), Ref("X"), Lab("l", Ref("Y"))}
	l1 := grow(atoms, unaries, binaries)
	w.Suite("depth2", fmt.Sprintf("entry bodies: expressions of depth<=2 over %d atoms; the rules S, X, Y build nodes; %d inputs over {a,b,newline}", len(atoms), len(nl)))
	n := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		n++
		if !w.Thorough() && n%3 != 0 {
			return
		}
		if w.Unit() {
			w.cmpOrigin(nodes(&Rule{Name: "S", Body: mk()}, &Rule{Name: "X", Body: Seq(Opt(Str("b")), Ref("Y"))}, &Rule{Name: "Y", Body: Cls(`ab\n`)}), nl)
		}
	})
	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	step := w.Pick(4, 1)
	w.Suite("rules3", fmt.Sprintf("all rules build nodes; S over lines of A, B: every %dth pair of %d bodies twice, left recursion included; inputs {a,b,newline}^<=4", step, len(bodies)))
	c := 0
	for _, a := range bodies {
		for _, b := range bodies {
			for _, s := range bodies {
				c++
				if c%step != 0 || !w.Unit() {
					continue
				}
				g := nodes(&Rule{Name: "S", Body: Seq(Star(Str("\n")), Ref("Z"), Star(Seq(Plus(Str("\n")), Opt(Ref("Z")))))}, &Rule{Name: "Z", Body: s}, &Rule{Name: "A", Body: a}, &Rule{Name: "B", Body: b})
				if g.LeftRecursive() {
					w.Outcome("left-recursive, not here")
					continue
				}
				w.cmpOrigin(g, n4)
			}
		}
	}
	w.Suite("ranks", "nested ranks whose named lines build nodes, under repetitions, lookaheads and labels; inputs over {a, newline, é}")
	alts := []*E{Str("a"), Str("é\n"), Seq(Str("a"), Ref("X")), Star(Ref("Y")), Opt(Str("\n")), Seq(Not(Str("a")), Ref("Y"), Lab("y", Ref("Y")))}
	tuples(len(alts), 3, func(ix []int) {
		for v := 0; v < 4; v++ {
			if !w.Unit() {
				continue
			}
			r := []*Rule{{Name: "K", Body: alts[ix[0]]}, {Name: "N", Body: alts[ix[1]]}, {Name: "R", Rank: []*Rule{{Name: "", Body: Seq(Str("b"), alts[ix[2]])}, {Name: "M", Body: alts[ix[2]]}}}}
			var rs []*Rule
			switch v {
			case 0:
				rs = []*Rule{{Name: "S", Rank: r}}
			case 1:
				rs = []*Rule{{Name: "S", Body: Star(Ref("T"))}, {Name: "T", Rank: r}}
			case 2:
				rs = []*Rule{{Name: "S", Body: Seq(Look(Ref("T")), Lab("r", Ref("R")), Not(Ref("N")), Lab("t", Opt(Ref("T"))))}, {Name: "T", Rank: r}}
			case 3:
				rs = []*Rule{{Name: "S", Body: StarJ(Ref("T"), Str("\n"))}, {Name: "T", Rank: r}}
			}
			w.cmpOrigin(nodes(append(rs, &Rule{Name: "X", Body: Seq(Opt(Str("é")), Ref("Y"))}, &Rule{Name: "Y", Body: Cls(`aé\n`)})...), ue)
		}
	})
	w.Suite("left-recursive", "E: E op T | T, direct, indirect, as a rank, nested and with suffixes; every rule builds nodes; multi-line inputs of up to 6 of {a, +, newline}")
	in6 := strs([]string{"a", "+", "\n"}, w.Pick(6, 7))
	for v := 0; v < 5; v++ {
		for _, op := range []*E{Str("+"), Str("\n"), Seq(Star(Str("\n")), Str("+"), Star(Str("\n"))), Opt(Str("+"))} {
			if !w.Unit() {
				continue
			}
			T := &Rule{Name: "T", Body: Cls("a")}
			var rs []*Rule
			switch v {
			case 0:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), op, Ref("T")), Ref("T"))}}
			case 1:
				rs = []*Rule{{Name: "S", Body: Alt(Ref("B"), Ref("T"))}, {Name: "B", Body: Seq(Ref("S"), op, Ref("T"))}}
			case 2:
				rs = []*Rule{{Name: "Z", Body: Seq(Ref("S"), Star(Str("\n")))}, {Name: "S", Rank: []*Rule{{Name: "B", Body: Seq(Lab("l", Ref("S")), op, Lab("r", Ref("T")))}, {Name: "U", Body: Ref("T")}}}}
			case 3:
				rs = []*Rule{{Name: "Z", Body: StarJ(Ref("S"), Str("\n\n"))}, {Name: "S", Body: Alt(Seq(Ref("S"), op, Ref("T")), Seq(Ref("S"), Str("+")), Ref("T"))}}
			case 4:
				rs = []*Rule{{Name: "Z", Body: Star(Seq(Ref("S"), Str("\n")))}, {Name: "S", Body: Alt(Seq(Ref("S"), op, Ref("M")), Ref("M"))}, {Name: "M", Body: Alt(Seq(Ref("M"), Str("++"), Ref("T")), Ref("T"))}}
			}
			w.cmpOrigin(nodes(append(rs, T)...), in6)
		}
	}
	// shared nodes: alternatives with a common prefix reuse the memoised node
	N := w.Pick(40, 100)
	w.Suite("scale", fmt.Sprintf("5 families of nested and repeated nodes, sizes 1..%d", N))
	for n := 1; n <= N; n++ {
		if w.Unit() {
			w.cmpOrigin(nodes(&Rule{Name: "S", Body: Alt(Seq(Ref("P"), Str("!")), Seq(Ref("P"), Str("\n?")), Ref("P"))}, &Rule{Name: "P", Body: Alt(Seq(Str("("), Ref("P"), Str(")")), Seq(Str("(\n"), Ref("P"), Str("\n)")), Str("é"))}),
				[]string{rep("(", n) + "é" + rep(")", n), rep("(\n", n) + "é" + rep("\n)", n), rep("(\n(", n) + "é" + rep(")\n)", n) + "!", rep("(\n", n) + "é" + rep("\n)", n) + "\n?"})
		}
		if w.Unit() {
			w.cmpOrigin(nodes(&Rule{Name: "S", Body: Seq(Lab("ls", StarJ(Ref("L"), Str("\n"))), Lab("e", Opt(Ref("E"))))}, &Rule{Name: "L", Body: Plus(Ref("W"))}, &Rule{Name: "W", Body: Rgx("[a-z世]+ *")}, &Rule{Name: "E", Body: Str("\n")}),
				[]string{rep("ab cd\n世 x\n", n), rep("a ", n), rep("a\n", n) + "b", rep("世\n", n)})
		}
		if w.Unit() {
			w.cmpOrigin(nodes(&Rule{Name: "S", Body: Alt(Seq(Lab("l", Ref("S")), Seq(Star(Str("\n")), Str("+")), Lab("r", Ref("T"))), Ref("T"))}, &Rule{Name: "T", Body: Alt(Seq(Str("("), Ref("S"), Str(")")), Ref("I"))}, &Rule{Name: "I", Body: Cls("a-z")}),
				[]string{rep("a\n+", n) + "b", rep("(", n) + "a" + rep("+b)", n), rep("(a+", n) + "a" + rep("\n+b)", n)})
		}
		if w.Unit() {
			var rs []*Rule
			for i := 0; i < n; i++ {
				rs = append(rs, &Rule{Name: fmt.Sprintf("C%d", i), Body: Seq(Opt(Str("\n")), Ref(fmt.Sprintf("C%d", i+1)), Opt(Str("x")))})
			}
			rs = append(rs, &Rule{Name: fmt.Sprintf("C%d", n), Body: Str("é")})
			w.cmpOrigin(nodes(rs...), []string{rep("\n", n) + "é" + rep("x", n), "é", "é" + rep("x", n), rep("\n", n/2) + "é"})
		}
		if w.Unit() {
			w.cmpOrigin(nodes(&Rule{Name: "S", Body: Star(Seq(Look(Seq(Ref("A"), Opt(Str("\n")), Ref("A"))), Ref("A"), Opt(Ref("B"))))}, &Rule{Name: "A", Body: Seq(Str("a"), Opt(Str("b\n")))}, &Rule{Name: "B", Body: Str("\n")}), []string{rep("a\n", n), rep("ab\na", n), rep("aa", n)})
		}
	}
	namesSuite(w, 4, func(g *G, ins []string) { w.cmpOrigin(g.allNodes(), ins) })
	hugeSuite(w, w.Pick(16, 18), allKinds, func(g *G, ins []string) { w.cmpOrigin(g.allNodes(), ins) })
	sizesSuite(w, append(plainKernels(), recursiveKernels()...), [3]int{w.Pick(10, 12), w.Pick(9, 11), w.Pick(16, 17)}, func(g *G, ins []string) { w.cmpOrigin(g.allNodes(), ins) })
	tokenOrigins(w, nodes)
	attributes(w)
}

// attributes: what a user node is told is what it tells.
func attributes(w *W) {
	var ops []func(a *j.Attr, m *j.Origin) string
	for i, o := range []j.Origin{{}, {Code: "a\nb", Line: 1, Start: 2, End: 3, RuleName: "R"}, {Code: "é", Line: 0, Start: 0, End: 2}, {Code: "x", Line: 7, Start: 5, End: 5, RuleName: "S"}} {
		o, i := o, i
		ops = append(ops, func(a *j.Attr, m *j.Origin) string {
			a.SetOrigin(o)
			*m = o
			return fmt.Sprint("SetOrigin ", i)
		})
	}
	for _, n := range []int{0, 1, 42} {
		n := n
		ops = append(ops, func(a *j.Attr, m *j.Origin) string {
			a.SetLine(n)
			m.Line, m.Start = n, -1 // the line alone is told
			return fmt.Sprint("SetLine ", n)
		})
	}
	D := w.Pick(4, 6)
	w.Suite("attributes", fmt.Sprintf("all sequences of <=%d of 4 origins and 3 lines told to two nodes", D))
	for d := 0; d <= D; d++ {
		tuples(len(ops), d, func(ix []int) {
			if !w.Unit() {
				return
			}
			a, b := j.NewAttr(), j.NewAttr()
			var m, other j.Origin
			desc := ""
			for k, i := range ix {
				if k%2 == 1 {
					desc += ops[i](b, &other) + " of another; "
				} else {
					desc += ops[i](a, &m) + "; "
				}
			}
			w.Case(desc)
			w.cur.Transitions += d
			for _, x := range []struct {
				a *j.Attr
				m j.Origin
			}{{a, m}, {b, other}} {
				o := x.a.GetOrigin()
				o.RuleName = x.m.RuleName // not kept
				if x.m.Start < 0 {
					o = j.Origin{Line: o.Line}
					x.m = j.Origin{Line: x.m.Line}
				}
				if o != x.m || x.a.GetLine() != x.m.Line {
					w.Fail(Failure{What: "a node does not tell the origin it was given", Grammar: desc, Expected: fmt.Sprintf("%+v", x.m), Got: fmt.Sprintf("%+v, line %d", o, x.a.GetLine())})
					return
				}
			}
		})
	}
}

// cmpOrigin compares trees and origins, for strings.
func (w *W) cmpOrigin(g *G, inputs []string) bool { return w.cmp(g, inputs, aTree|aOrigin) }

// tokenOrigins: over token streams, offsets are those of the tokenized text,
// and the code is the user's.
func tokenOrigins(w *W, nodes func(rs ...*Rule) *G) {
	texts := strs([]string{"a", "\n", " "}, w.Pick(5, 6))
	gs := []*G{
		nodes(&Rule{Name: "S", Body: Star(Ref("A"))}, &Rule{Name: "A", Body: Cls(`a\n`)}),
		nodes(&Rule{Name: "S", Body: Seq(Lab("p", Star(Ref("A"))), Lab("q", Star(Ref("B"))))}, &Rule{Name: "A", Body: Seq(Str("a"), Opt(Ref("B")))}, &Rule{Name: "B", Body: Str("\n")}),
		nodes(&Rule{Name: "S", Body: Alt(Seq(Ref("S"), Ref("A")), Ref("A"))}, &Rule{Name: "A", Body: Alt(Str("aa"), Cls(`a\n`))}),
	}
	var gms []*j.Grammar
	for _, g := range gs {
		gm, _ := g.Compile()
		gms = append(gms, gm)
	}
	w.Suite("tokens", fmt.Sprintf("%d grammars on streams of one-character tokens skipping the blanks of all texts over {a, newline, blank}^<=%d: code and offsets of the nodes", len(gs), w.Pick(5, 6)))
	for _, t := range texts {
		if !w.Unit() {
			continue
		}
		work := ""
		var toks []j.Token
		for i, r := range t {
			if r != ' ' {
				toks = append(toks, j.Token{Repr: string(r), OriginalOffset: i, WorkOffset: len(work)})
				work += string(r)
			}
		}
		for gi, g := range gs {
			x := w.model(g, work)
			if !x.accept || len(toks) == 0 {
				continue
			}
			// the line where the match ends: that of the end of its last token, or of the start of the next one
			lineOK := func(end, line int) bool {
				lo, hi := 0, strings.Count(t, "\n")
				for _, k := range toks {
					l, _ := lineCol(t, k.OriginalOffset)
					if k.WorkOffset < end {
						lo = l
					} else {
						hi = l
						break
					}
				}
				return lo <= line && line <= hi
			}
			w.About(g.Text())
			w.Case(t)
			o := runParse(func() j.Ast { return gms[gi].ParseTokens(j.NewTokenStream(t, toks)) })
			if !o.Accept() || o.Val != x.val {
				w.Fail(Failure{What: "wrong parse of tokens", Grammar: g.Text(), Input: t, Expected: x.String(), Got: o.String()})
				return
			}
			if d := originsL(x.tree, o.Ast, t, lineOK); d != "" {
				w.Fail(Failure{What: "wrong origin", Grammar: g.Text(), Input: t, Expected: x.val, Got: d})
				return
			}
			w.Outcome("accepted")
		}
	}
}
