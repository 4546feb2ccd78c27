package main

// P25: what the message of a ParseError quotes.

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P25", p25, "grammars without left recursion; inputs up to the stated lengths over {a, b, newline} and several-byte characters")
}

// linesAround quotes the lines from the given number of lines before (after)
// the one holding pos.
func linesAround(in string, pos, before, after int) string {
	l, _ := lineCol(in, pos)
	lines := strings.Split(in, "\n")
	return strings.Join(lines[max(0, l-before):min(len(lines), l+after+1)], "\n")
}

// message is the whole message for the parse x of the text.
func message(x want, in string) string {
	l, c := lineCol(in, x.max)
	return fmt.Sprintf("Error parsing at char:%d=(line:%d,col:%d).\n", x.max, l, c) +
		"Code at offset " + j.BoldYellow(fmt.Sprint(x.end)) + "/" + j.BoldYellow(fmt.Sprint(len(in))) + ": '" +
		j.Cyan(in[max(0, x.end-20):x.end]) + j.BoldCyan("|") + j.BoldWhite(in[x.end:min(len(in), x.end+40)]) + "'" +
		"\nDetails:\n" + j.Green("OK") + "/" + j.Yellow("Parsing") + "/" + j.Red("Suspect") + "/" + j.White("Unknown") + "\n\n" +
		j.Green(linesAround(in, x.end, 2, 0)) + j.Yellow(in[x.end:x.max]) + j.Red(in[x.max:x.try]) + "/" + j.White(linesAround(in, x.try, 0, 2)) + "\n"
}

func messages(w *W, g *G, ins []string) bool {
	gt := g.Text()
	w.About(gt)
	gm, e := g.Compile()
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "compiled"})
		return false
	}
	for _, in := range ins {
		x := w.model(g, in)
		if x.over || x.accept || in == "" {
			continue
		}
		exp := message(x, in)
		for v := 0; v < 2; v++ {
			w.Case(in)
			var o Out
			if v == 0 {
				o = parse(gm, in)
			} else {
				toks := []j.Token{}
				for i := range in {
					k := i + 1
					for k < len(in) && in[k]&0xc0 == 0x80 {
						k++
					}
					toks = append(toks, j.Token{Repr: in[i:k], OriginalOffset: i, WorkOffset: i})
				}
				o = runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(in, toks)) })
			}
			if o.Kind != "err" {
				w.Fail(Failure{What: "an incomplete parse must return a ParseError", Grammar: gt, Input: in, Expected: exp, Got: o.String()})
				return false
			}
			pe := o.Ast.(j.ParseError)
			if pe.ErrorString != exp || pe.String() != "ERROR "+exp {
				w.Fail(Failure{What: "the message does not quote the text as it should", Grammar: gt, Input: in, Expected: exp, Got: pe.String(), Extra: []string{"", "over tokens"}[v]})
				return false
			}
		}
		w.Outcome(fmt.Sprintf("parsed %v, suspect %v", x.max > x.end, x.try > x.max))
		if x.max > x.end && x.try > x.max && len(w.cur.Samples) < 3 {
			w.Sample(fmt.Sprintf("%s on %q: %q", gt, in, plainText(exp)))
		}
	}
	return true
}

func p25(w *W) {
	nl := strs([]string{"a", "b", "\n", "é"}, w.Pick(3, 4))
	atoms := []*E{Str("a"), Cls(`a\n`), Str("é"), Ref("X"), Ref("_N"), Ref("Y")}
	l1 := grow(atoms, unaries, binaries)
	rules := func(i int) []*Rule {
		x := &Rule{Name: "X", Body: Str("b")}
		if i%2 == 1 {
			x = &Rule{Name: "X", Body: Seq(Opt(Str("b")), Ref("Y")), Node: true}
		}
		return []*Rule{x, {Name: "_N", Body: Rgx(`\n*`)}, {Name: "Y", Body: Cls(`abé\n`)}}
	}
	step := w.Pick(16, 1)
	w.Suite("grammars", fmt.Sprintf("entry bodies: expressions of depth<=2 (every %dth) over %d atoms, 7 unary and 4 binary operators; %d inputs over {a,b,newline,é}; texts and streams of tokens", step, len(atoms), len(nl)))
	n := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		n++
		if n > len(l1) && n%step != 0 {
			return
		}
		if w.Unit() {
			messages(w, NewG(append([]*Rule{{Name: "S", Body: mk()}}, rules(n/2)...)...), nl)
		}
	})

	namesSuite(w, 4, func(g *G, ins []string) { messages(w, g, ins) })
	// long: long texts in front, behind, and in between
	top := w.Pick(17, 18)
	w.Suite("long", fmt.Sprintf("the entry, the furthest rule and the furthest attempt separated, preceded and followed by 2^k-1, 2^k, 2^k+1 characters or lines, k up to %d", top))
	for _, n := range append(around(3, top, 1), 20, 21, 39, 40, 41, 80, 100, 120) {
		for how := 0; how < 3; how++ {
			if !w.Unit() {
				continue
			}
			fill := []string{"#", "\n", "#é\n#"}[how]
			g := NewG(&Rule{Name: "S", Body: Seq(Ref("F"), Opt(Seq(Str("a"), Ref("F"), Ref("B"), Ref("F"), Str("c"), Ref("D"))))}, &Rule{Name: "F", Body: Rgx(`[#é\n]*`)}, &Rule{Name: "B", Body: Str("b")}, &Rule{Name: "D", Body: Str("d")})
			f := rep(fill, n)
			messages(w, g, []string{f + "a", f + "x", "a" + f + "bc", "a" + f + "b" + f + "c", f + "a" + "b" + "c" + f, f + "ab" + f + "c" + f, "abx" + f, "a" + f, f + "a#\n#b\n#c\n" + f, f + "abc" + fill + f + "y" + f})
		}
	}

	cs := append(everyChar(), shortTexts()...)
	w.Suite("characters", fmt.Sprintf("%d characters and short texts, once, twice, three or 45 times, before, between and after the places where the entry, the furthest rule and the furthest attempt stop", len(cs)))
	for _, ch := range cs {
		if !w.Unit() {
			continue
		}
		g := NewG(&Rule{Name: "S", Body: Seq(Ref("F"), Opt(Seq(Str("A"), Ref("F"), Ref("B"), Ref("F"), Str("C"), Ref("D"))))}, &Rule{Name: "F", Body: Star(Str(ch))}, &Rule{Name: "B", Body: Str("B")}, &Rule{Name: "D", Body: Str("D")})
		for _, n := range []int{1, 2, 3, 45} {
			f := rep(ch, n)
			if !messages(w, g, []string{f + "A", f + "x", "A" + f + "BC", "A" + f + "B" + f + "C", f + "A" + "B" + "C" + f, f + "AB" + f + "C" + f, "ABx" + f, "A" + f, f + "x\n" + f + "\ny", "\n" + f + "\n" + f + "A" + f + "BC" + f + "\n" + f, f + "x" + f}) {
				return
			}
		}
	}

	// lines: the place is anywhere in texts of several long lines
	K := w.Pick(6, 9)
	w.Suite("lines", fmt.Sprintf("texts of 1..%d lines of 0, 1, 9, 45 characters of 1..3 bytes: the entry, the furthest rule and the furthest attempt stop at every triple of characters in order (0, 1 or 2 characters, a line, 30 characters apart)", K))
	for k := 1; k <= K; k++ {
		for _, ch := range []string{"x", "é", "世"} {
			for _, n := range []int{0, 1, 9, 45} {
				if !w.Unit() {
					continue
				}
				text := strings.Repeat(strings.Repeat(ch, n)+"\n", k)
				r := []rune(text)
				for i := 0; i <= len(r); i++ {
					for _, d := range []int{0, 1, 2, n + 1, 30} {
						for _, f := range []int{0, 1, n + 1, 30} {
							if i+d+f > len(r) {
								continue
							}
							// S = i characters, then a lookahead: D (d characters) then f characters then a failing rule
							any := func(n int) *E { return Rgx(fmt.Sprintf(`[^!]{%d}`, n)) }
							g := NewG(
								&Rule{Name: "S", Body: Seq(any(i), Opt(Seq(any(d), Ref("OK"), any(f), Ref("BAD"))))},
								&Rule{Name: "OK", Body: Str("")},
								&Rule{Name: "BAD", Body: Str("!")})
							if i == len(r) {
								continue
							}
							if !messages(w, g, []string{text, text + "yy"}) {
								return
							}
						}
					}
				}
			}
		}
	}
}
