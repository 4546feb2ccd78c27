package main

import (
	"fmt"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P14", p14, "grammars, texts and tokenizations as stated per suite", "line and column of an error are decided when it is located inside a token")
}

func p14(w *W) {
	n4 := strs([]string{"a", "b", "\n"}, w.Pick(3, 4))
	atoms := []*E{Str("a"), Cls("ab"), Rgx(`a*`), Str("\n"), Ref("X"), Str("a\n")}
	l1 := dedup(grow(atoms, unaries, binaries))
	w.Suite("grammars", fmt.Sprintf("entry bodies: %d expressions of depth<=1 over %d atoms, alone, followed by a rest, and repeated; all tokenizations (with gaps) of all texts over {a,b,newline}^<=%d", len(l1), len(atoms), w.Pick(3, 4)))
	for _, e := range l1 {
		for f := 0; f < 3; f++ {
			if !w.Unit() {
				continue
			}
			b := e
			switch f {
			case 1:
				b = Seq(e, Lab("r", Star(Ref("Y"))))
			case 2:
				b = StarJ(e, Ref("_B"))
			}
			w.tokens(NewG(&Rule{Name: "S", Body: b, Node: f == 1}, &Rule{Name: "X", Body: Seq(Opt(Str("b")), Ref("Y")), Node: true}, &Rule{Name: "Y", Body: Cls(`ab\n`)}, &Rule{Name: "_B", Body: Opt(Str("b"))}), n4)
		}
	}
	step := w.Pick(53, 3)
	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	w.Suite("rules3", fmt.Sprintf("S, A, B: triples (every %dth) of %d bodies, left recursion included; tokenizations of texts over {a,b,newline}^<=%d", step, len(bodies), w.Pick(3, 4)))
	c := 0
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step == 0 && w.Unit() {
					w.tokens(NewG(&Rule{Name: "S", Body: Seq(Star(Str("\n")), Ref("Z"), Star(Seq(Str("\n"), Opt(Ref("Z")))))}, &Rule{Name: "Z", Body: s}, &Rule{Name: "A", Body: a, Node: true}, &Rule{Name: "B", Body: b}), n4)
				}
			}
		}
	}
	w.Suite("ranks", "ranks of lines, with labels, lookaheads, repetitions and several-byte characters; tokenizations of texts over {a,newline,é}^<=4")
	ue := strs([]string{"a", "\n", "é"}, 4)
	alts := []*E{Str("a"), Str("é\n"), Seq(Str("a"), Ref("Y")), Star(Ref("Y")), Opt(Str("\n")), Seq(Not(Str("a")), Ref("Y"), Lab("y", Ref("Y")))}
	tuples(len(alts), 2, func(ix []int) {
		for v := 0; v < 3; v++ {
			if !w.Unit() {
				continue
			}
			r := []*Rule{{Name: "K", Body: alts[ix[0]], Node: true}, {Name: "R", Rank: []*Rule{{Name: "", Body: alts[ix[1]]}, {Name: "M", Body: Str("aé")}}}}
			rs := []*Rule{{Name: "S", Rank: r}}
			if v == 1 {
				rs = []*Rule{{Name: "S", Body: Star(Ref("T"))}, {Name: "T", Rank: r}}
			} else if v == 2 {
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Lab("s", Ref("S")), Str("\n"), Lab("t", Ref("T"))), Ref("T"))}, {Name: "T", Rank: r}}
			}
			w.tokens(NewG(append(rs, &Rule{Name: "Y", Body: Cls(`aé\n`)})...), ue)
		}
	})
	w.Suite("regex", "character-level elements across token boundaries; tokenizations of texts over {a,b,newline}^<=4 and odd texts")
	odd := append(strs([]string{"a", "b", "\n"}, 4), "é\n", "世a", "a\xffb", "\r\na", "ab\xc3")
	for _, e := range []*E{Rgx("a*b"), Rgx("(a|b)+"), Rgx("a|ab"), Rgx("."), Rgx(`[\s\S]`), Rgx("a$"), Rgx("^b"), Rgx("$"), Rgx(`\bab`), Rgx("(?s).+"), Rgx("(?m)a$"), Cls("^a"), Cls("é世"), Str("ab"), Str("b\n"), Str("é")} {
		for f := 0; f < 4; f++ {
			if !w.Unit() {
				continue
			}
			b := []*E{e, Star(e), Seq(Opt(e), Rgx("(?s).*")), Seq(Star(Seq(Not(e), Rgx("(?s)."))), Opt(e))}[f]
			w.tokens(NewG(&Rule{Name: "S", Body: b}), odd)
		}
	}
	w.Suite("empty-tokens", "empty tokens inserted at every subset of the places between tokens; texts over {a,b,newline}^<=3")
	for _, e := range l1 {
		if len(e.K) > 1 && !w.Thorough() || !w.Unit() {
			continue
		}
		g := NewG(&Rule{Name: "S", Body: StarJ(e, Ref("_B")), Node: true}, &Rule{Name: "X", Body: Seq(Opt(Str("b")), Ref("Y")), Node: true}, &Rule{Name: "Y", Body: Cls(`ab\n`)}, &Rule{Name: "_B", Body: Opt(Str("b"))})
		gm := w.compileOr(g)
		if gm == nil {
			continue
		}
		bad := false
		for _, t := range strs([]string{"a", "b", "\n"}, 3) {
			tokenizations(t, func(ps []piece) {
				withEmpties(len(t), ps, func(ps []piece) {
					if !bad && !w.tokenCase(gm, g, t, ps, false) {
						bad = true
					}
				})
			})
		}
	}
	w.Suite("characters", fmt.Sprintf("each of %d characters as literal, in classes and between others; all tokenizations of all texts of <=%d of it and another one", len(everyChar()), w.Pick(4, 5)))
	for _, c := range everyChar() {
		x, ts := charTexts(c, w.Pick(4, 5))
		if c == x {
			continue
		}
		cls := Rgx(fmt.Sprintf(`[\x{%x}]`, []rune(c)[0]))
		for f := 0; f < 5; f++ {
			if !w.Unit() {
				continue
			}
			b := []*E{
				Seq(Opt(Str(c)), Lab("l", Opt(Ref("C"))), Opt(Str(x)), Star(Ref("C"))),
				Star(Alt(Seq(Ref("C"), Str(x)), Str(c), Ref("X"))),
				Seq(Star(Seq(Not(Str(c+x)), Rgx("(?s)."))), Opt(Str(c+x+c)), Star(cls)),
				Seq(Str(c), Str(c), Star(Alt(cls, Ref("X")))),
				StarJ(Seq(cls, Opt(cls)), Ref("X")),
			}[f]
			w.tokens(NewG(&Rule{Name: "S", Body: b}, &Rule{Name: "C", Body: Str(c), Node: true}, &Rule{Name: "X", Body: Str(x), Node: true}), ts)
		}
	}
	w.Suite("big", fmt.Sprintf("streams of 2^k-1, 2^k, 2^k+1 tokens, and tokens of that length, up to 2^%d", w.Pick(12, 14)))
	for _, n := range around(5, w.Pick(12, 14), 1) {
		if !w.Unit() {
			continue
		}
		g := NewG(&Rule{Name: "S", Body: Seq(Ref("L"), Opt(Str("!")), Rgx("[ab]*"), Opt(Str("?")), Star(Ref("L")))}, &Rule{Name: "L", Body: Seq(Star(Ref("A")), Str("b"))}, &Rule{Name: "A", Body: Str("a"), Node: true})
		gm := w.compileOr(g)
		for _, t := range []string{rep("a", n) + "b", rep("a", n), rep("a \n", n) + "b ! a", rep("a", n) + "b" + rep("a", n) + "b?\n" + rep("a ", n) + "b" + rep(" a", n)} {
			var ps, qs []piece
			for i, r := range t {
				if r == ' ' || r == '\n' {
					continue
				}
				ps = append(ps, piece{i, i + 1})
				if len(qs) > 0 && qs[len(qs)-1].to == i {
					qs[len(qs)-1].to++
				} else {
					qs = append(qs, piece{i, i + 1})
				}
			}
			w.tokenCase(gm, g, t, ps, false)
			w.tokenCase(gm, g, t, qs, false)
		}
	}
	sizesSuite(w, append(plainKernels(), recursiveKernels()...), [3]int{w.Pick(9, 11), w.Pick(9, 11), w.Pick(12, 14)}, func(g *G, ins []string) {
		gm := w.compileOr(g)
		if gm == nil {
			return
		}
		for _, in := range ins {
			// the same work text: characters apart from each other, halves, and all but blanks
			t := ""
			var ps []piece
			for i, r := range in {
				t += []string{"", " ", "\n", "é"}[i*7%11%4]
				ps = append(ps, piece{len(t), len(t) + len(string(r))})
				t += string(r)
			}
			h := len(in) / 2
			if !w.tokenCase(gm, g, t, ps, false) || !w.tokenCase(gm, g, in[:h]+"  \n"+in[h:], []piece{{0, h}, {h + 3, len(in) + 3}}, false) || !w.tokenCase(gm, g, in, []piece{{0, len(in)}}, false) {
				return
			}
		}
	})
	hugeSuite(w, w.Pick(16, 17), allKinds, func(g *G, ins []string) {
		gm := w.compileOr(g)
		if gm == nil {
			return
		}
		for _, in := range ins {
			h := len(in) / 3
			for h > 0 && in[h]&0xc0 == 0x80 {
				h--
			}
			if !w.tokenCase(gm, g, in[:h]+"\n \n"+in[h:]+"\n", []piece{{0, h}, {h + 3, len(in) + 3}}, false) || !w.tokenCase(gm, g, "\n"+in, []piece{{1, len(in) + 1}}, false) {
				return
			}
		}
	})
	N := w.Pick(30, 80)
	w.Suite("scale", fmt.Sprintf("words of 1..%d lines, correct and with an error at each of the last places", N))
	g := NewG(&Rule{Name: "S", Body: Star(Ref("L"))}, &Rule{Name: "L", Body: Seq(Lab("n", Rgx("[a-z]+")), Str("="), Lab("v", Ref("E")), Str(";"))}, &Rule{Name: "E", Body: Alt(Seq(Ref("E"), Str("+"), Ref("T")), Ref("T")), Node: true}, &Rule{Name: "T", Body: Cls("a-zé"), Node: true})
	for n := 1; n <= N; n++ {
		if !w.Unit() {
			continue
		}
		t := rep("ab = c + é\n+ d ;\n", n)
		gm := w.compileOr(g)
		try := func(t string) {
			var ps []piece
			for i, r := range t {
				if r != ' ' && r != '\n' {
					ps = append(ps, piece{i, i + len(string(r))})
				}
			}
			w.tokenCase(gm, g, t, ps, false)
		}
		try(t)
		for i := max(0, len(t)-20); i < len(t); i++ {
			try(t[:i] + "!" + t[i:])
		}
	}
}

func (w *W) compileOr(g *G) *j.Grammar {
	w.About(g.Text())
	gm, e := g.Compile()
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: g.Text(), Got: e, Expected: "a compiled grammar"})
	}
	return gm
}

// tokens: every tokenization of every text, compared with the parse of the
// concatenation of the tokens.
func (w *W) tokens(g *G, texts []string) {
	gm := w.compileOr(g)
	if gm == nil {
		return
	}
	lr := g.LeftRecursive()
	bad := false
	for _, t := range texts {
		tokenizations(t, func(ps []piece) {
			if !bad && !w.tokenCase(gm, g, t, ps, lr) {
				bad = true
			}
		})
	}
}

func (w *W) tokenCase(gm *j.Grammar, g *G, t string, ps []piece, lr bool) bool {
	toks, work := pieceStream(t, ps)
	w.Case(t)
	w.cur.States++
	w.cur.Transitions += 3
	ref := parse(gm, work)
	s := j.NewTokenStream(t, toks)
	for round := 0; round < 2; round++ {
		if round == 1 {
			s.SetPos(0)
		}
		o := runParse(func() j.Ast { return gm.ParseTokens(s) })
		bad := func(what string) bool {
			w.Fail(Failure{What: what, Grammar: g.Text(), Input: fmt.Sprintf("%q as %s (parse %d)", t, tokNames(toks), round+1), Expected: ref.String(), Got: o.String()})
			return false
		}
		if o.Kind != ref.Kind || o.Val != ref.Val {
			return bad("the parse of the tokens differs from that of their concatenation")
		}
		if o.Kind == "err" {
			if o.Off != ref.Off {
				return bad("the error is at another offset")
			}
			for i, k := range toks {
				if o.Off >= k.WorkOffset && o.Off < k.WorkOffset+len(k.Repr) {
					l, c := lineCol(t, ps[i].from+o.Off-k.WorkOffset)
					if l != o.Line || c != o.Col {
						return bad(fmt.Sprintf("the error is at line %d, column %d of the original text", l, c))
					}
				}
			}
		}
	}
	w.Outcome(ref.Kind)
	if ref.Kind == "ok" && len(ps) > 1 {
		w.Sample(fmt.Sprintf("%s on %q as %s => %s", g.Text(), t, tokNames(toks), ref.Val))
	}
	return true
}
