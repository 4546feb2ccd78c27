package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P10", p10, "inputs up to the stated length over {a, b, newline} and several-byte characters; the exact offset is decided for grammars without left recursion, for left-recursive ones the bounds and the line and column are")
}

func p10(w *W) {
	nl := strs([]string{"a", "b", "\n"}, w.Pick(3, 4))
	atoms := []*E{Str("a"), Cls("ab"), Cls(`a\n`), Str("\n"), Ref("X"), Ref("_N")}
	l1 := grow(atoms, unaries, binaries)
	rules := func(i int) []*Rule {
		x := &Rule{Name: "X", Body: Str("b")}
		if i%2 == 1 {
			x = &Rule{Name: "X", Body: Seq(Opt(Str("b")), Ref("Y")), Node: true}
		}
		return []*Rule{x, {Name: "_N", Body: Rgx(`\n*`)}, {Name: "Y", Body: Cls(`ab\n`)}}
	}
	w.Suite("depth2", fmt.Sprintf("entry bodies: all expressions of depth<=2 over %d atoms, 7 unary and 4 binary operators; %d inputs over {a,b,newline}", len(atoms), len(nl)))
	n := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		n++
		if !w.Thorough() && n%3 != 0 {
			return
		}
		if w.Unit() {
			w.cmp(NewG(append([]*Rule{{Name: "S", Body: mk()}}, rules(n/2)...)...), nl, aError)
		}
	})

	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	step := w.Pick(5, 1)
	w.Suite("rules3", fmt.Sprintf("S, A, B: triples (every %dth) of %d bodies; inputs {a,b,newline}^<=4, behind 0 or 1 lines skipped by a line rule", step, len(bodies)))
	c := 0
	n4 := strs([]string{"a", "b", "\n"}, 4)
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step != 0 || !w.Unit() {
					continue
				}
				g := NewG(&Rule{Name: "S", Body: Seq(Star(Str("\n")), Ref("Z"), Opt(Seq(Str("\n"), Opt(Ref("Z")))))}, &Rule{Name: "Z", Body: s}, &Rule{Name: "A", Body: a, Node: true}, &Rule{Name: "B", Body: b})
				if g.LeftRecursive() {
					errBounds(w, g, n4)
				} else {
					w.cmp(g, n4, aError)
				}
			}
		}
	}

	w.Suite("ranks", "entry = a rank, or a sequence over a rank, of nested ranks; inputs {a,b,newline}^<=4")
	alts := []*E{Str("a"), Str("a\n"), Seq(Str("a"), Ref("X")), Star(Ref("Y")), Opt(Str("\n")), Seq(Not(Str("b")), Ref("Y"), Ref("Y"))}
	tuples(len(alts), 3, func(ix []int) {
		for v := 0; v < 3; v++ {
			if !w.Unit() {
				continue
			}
			r := []*Rule{{Name: "", Body: alts[ix[0]]}, {Name: "N", Body: alts[ix[1]], Node: true}, {Name: "R", Rank: []*Rule{{Name: "", Body: Seq(Str("b"), alts[ix[2]])}, {Name: "M", Body: alts[ix[2]]}}}}
			rs := []*Rule{{Name: "S", Rank: r}}
			if v > 0 {
				e := Star(Ref("T"))
				if v == 2 {
					e = Seq(Look(Ref("T")), Ref("R"), Not(Ref("N")), Opt(Ref("T")))
				}
				rs = []*Rule{{Name: "S", Body: e}, {Name: "T", Rank: r}}
			}
			w.cmp(NewG(append(rs, rules(ix[0])...)...), n4, aError)
		}
	})

	w.Suite("left-recursive", "E: E op T | T, with and without indirection and callbacks, over multi-line inputs of up to 6 of {a, +, newline}: the offset lies between the end of the entry and the end of input, line and column agree with it")
	for v := 0; v < 6; v++ {
		for _, op := range []*E{Str("+"), Str("\n"), Seq(Star(Str("\n")), Str("+"), Star(Str("\n")))} {
			if !w.Unit() {
				continue
			}
			var rs []*Rule
			switch v / 2 {
			case 0:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), op, Ref("T")), Ref("T")), Node: v%2 == 1}}
			case 1:
				rs = []*Rule{{Name: "S", Body: Alt(Ref("B"), Ref("T"))}, {Name: "B", Body: Seq(Ref("S"), op, Ref("T")), Node: v%2 == 1}}
			case 2:
				rs = []*Rule{{Name: "Z", Body: Seq(Ref("S"), Opt(Str("\n")))}, {Name: "S", Rank: []*Rule{{Name: "B", Body: Seq(Lab("l", Ref("S")), op, Lab("r", Ref("T"))), Node: v%2 == 1}, {Name: "", Body: Ref("T")}}}}
			}
			errBounds(w, NewG(append(rs, &Rule{Name: "T", Body: Cls("a")})...), strs([]string{"a", "+", "\n"}, w.Pick(6, 7)))
		}
	}

	regexSuite(w, aError)
	bytesSuite(w, aError)
	bigSuite(w, aError)
	widthSuite(w, aError, w.Pick(24, 60), w.Pick(8, 10))
	namesSuite(w, 4, w.cmpWith(aError))
	hugeSuite(w, w.Pick(17, 18), allKinds, w.cmpWith(aError))
	sizesSuite(w, plainKernels(), [3]int{w.Pick(11, 12), w.Pick(11, 13), w.Pick(16, 18)}, w.cmpWith(aError))
	sizesSuite(w, recursiveKernels(), [3]int{w.Pick(10, 11), w.Pick(8, 10), w.Pick(10, 12)}, func(g *G, ins []string) { errBounds(w, g, ins) })

	N := w.Pick(60, 150)
	w.Suite("far", fmt.Sprintf("one error placed at every position of texts of 1..%d lines of several-byte characters", N))
	g := NewG(&Rule{Name: "S", Body: StarJ(Ref("L"), Str("\n"))}, &Rule{Name: "L", Body: Star(Ref("W"))}, &Rule{Name: "W", Body: Seq(Cls("aé世"), Opt(Ref("P")))}, &Rule{Name: "P", Body: Seq(Str("("), Ref("L"), Str(")")), Node: true})
	for n := 1; n <= N; n++ {
		if !w.Unit() {
			continue
		}
		t := rep("aé(世)\n", n)
		var ins []string
		for i := max(0, len(t)-24); i <= len(t); i++ {
			ins = append(ins, t[:i]+"!"+t[i:])
			if i < len(t) {
				ins = append(ins, t[:i]+"!"+t[i+1:])
			}
		}
		w.cmp(g, ins, aError)
	}
}

// errBounds checks what the property says of any failed parse.
func errBounds(w *W, g *G, ins []string) {
	gt := g.Text()
	w.About(gt)
	gm, e := g.Compile()
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return
	}
	single := g.SingleEntry()
	for _, in := range ins {
		x := w.model(g, in)
		w.Case(in)
		o := parse(gm, in)
		f := func(what, exp string) {
			w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: o.String()})
		}
		if o.Kind == "panic" {
			f("the parse panics", x.String())
			return
		}
		if o.Accept() || (single && !x.over && x.accept) {
			if single && !x.over && o.Accept() != x.accept {
				f("wrong acceptance", x.String())
				return
			}
			w.Outcome("accepted")
			continue
		}
		w.Outcome("refused")
		if in == "" {
			if o.Kind != "nil" {
				f("a failed parse of the empty input must return nil", "nil")
				return
			}
			continue
		}
		if o.Kind != "err" {
			f("an incomplete parse must return a ParseError", "ParseError")
			return
		}
		end := 0
		if single && !x.over {
			end = x.end
		}
		if o.Off < end || o.Off > len(in) {
			f("the error offset is out of bounds", fmt.Sprintf("an offset between %d and %d", end, len(in)))
			return
		}
		if l, c := lineCol(in, o.Off); l != o.Line || c != o.Col {
			f("line and column of the error are not those of its offset", fmt.Sprintf("(line:%d,col:%d)", l, c))
			return
		}
		pe, ok := o.Ast.(j.ParseError)
		if !ok || !strings.Contains(pe.ErrorString, "Error parsing") || !j.IsParseError(o.Ast) {
			f("not a ParseError", "a ParseError")
			return
		}
	}
}
