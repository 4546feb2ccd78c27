package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P08", p08, "rule texts up to the stated number of tokens over the stated token alphabets; two texts have the same structure when they parse the stated inputs alike (acceptance, productions)",
		"not claimed: references to undefined rules, parametrised references, the labels & and @, `-> {code}`")
}

// the rules that can be referenced by a text made of the letters a and b
func leafRules() []*Rule {
	mk := func(n, lit string, node bool) *Rule { return &Rule{Name: n, Body: Cls(lit), Node: node} }
	return []*Rule{mk("a", "x", true), mk("b", "y", false), mk("ab", "z", true), mk("ba", "1", true), mk("aa", "2", true), mk("bb", "3", true), mk("_a", "x", true)}
}

func p08(w *W) {
	run := func(name string, toks []string, n int, ins []string) {
		w.Suite(name, fmt.Sprintf("all texts of <=%d tokens out of %q; %d inputs each", n, toks, len(ins)))
		chunk := 0
		var batch []string
		flush := func() {
			if len(batch) > 0 {
				if w.Unit() {
					for _, t := range batch {
						if ruleText(w, t, ins) {
							break
						}
					}
				}
				batch = batch[:0]
			}
			chunk++
		}
		for k := 0; k <= n; k++ {
			tuples(len(toks), k, func(ix []int) {
				if k == 0 && len(batch) > 0 {
					return
				}
				var b strings.Builder
				for _, i := range ix {
					b.WriteString(toks[i])
				}
				batch = append(batch, b.String())
				if len(batch) == 64 {
					flush()
				}
			})
		}
		flush()
	}
	xyz := strs(chars("xyz"), 3)
	run("structure", []string{"a", "b", "'x'", " ", "|", "(", ")", "*", "+", "?", "!", "l:", "{1,2}"}, w.Pick(5, 6), xyz)
	run("suffixes", []string{"a", "'x'", "b", " ", "*", "+", "?", "{1,}", "{,2}", "{ 0 , 1 }", "(", ")"}, w.Pick(4, 5), append(xyz, strs(chars("xy"), 5)...))
	run("labels", []string{"a", "b", ":", "l:", "m:", "(", ")", " ", "|", "?", "*", "n: "}, w.Pick(5, 6), xyz)
	run("deep", []string{"(a", "(b ", ")", "|", ")*", ")? ", "!(", "(?", " b", "l:(", "a|"}, w.Pick(5, 6), xyz)
	run("long", []string{"a ", "'y' ", "l:b ", "| ", "(a | b)* ", "!b ", "[xz]+'y' ", "(l:a m:b)? "}, w.Pick(5, 6), append(xyz, "xyxy", "xyx", "xxyy", "yxyx", "xzxz", "zyzyz"))
	chs := strs(chars("ab'\\]/x"), 2)
	run("literal", []string{"a", "'", "\\", "]", "/", "x", "n", "\n", " "}, w.Pick(5, 6), append(chs, "\n", "\\n", "n"))
	run("quoted", []string{"'", "\\", "a", "'a'", "]", "é", "\n", "\"", "("}, w.Pick(5, 6), append(chs, "\n", "é", "\"", "(", "aé", "'a'", "\\'"))
	run("class", []string{"[", "]", "\\", "a", "^", "-", "]]", "'", "/"}, w.Pick(5, 6), append(chs, "^", "-", "[", "b", "aa"))
	w.Suite("any-char", "every insertion and substitution of each of the 256 bytes and of 14 longer strings at every place of 12 texts")
	for _, t := range []string{"a b", "a|b", "l:a 'x'", "a*'y'{1,2}", "(a b)*", "!a b", "(?a) b", "?a b", "'x'+", "[xy]? a", "/x|y/", "'\\''"} {
		for i := 0; i <= len(t); i++ {
			if w.Unit() {
				anyCharsAt(t, i, func(t string) bool { return ruleText(w, t, anyIns) })
			}
		}
	}
	cs := pairChars()
	w.Suite("pairs", fmt.Sprintf("all pairs of %d special characters and bytes, and %d odd texts, as literal, class, regular expression, around a literal, and in a rule after another one; the text itself, its characters, halves and variants as inputs", len(cs), len(shortTexts())))
	for _, a := range cs {
		if !w.Unit() {
			continue
		}
		for _, b := range cs {
			pairTexts(w, a+b, a, b)
		}
	}
	for _, t := range shortTexts() {
		if w.Unit() {
			pairTexts(w, t, t[:1], t[1:])
		}
	}
	run("regex", []string{"/", "\\", "a", "*", "(", ")", "|", "b", "."}, w.Pick(5, 6), append(chs, "aab", "(", ")", ".", "*", "aaa", "bb"))
	w.Suite("long-texts", fmt.Sprintf("34 kinds of rules with a name, label, literal, class, regular expression, blank, number, bound, sequence or choice of size n = 1..40 and around powers of two up to 2^%d", w.Pick(9, 11)))
	for _, n := range widths(40, w.Pick(9, 11)) {
		longTexts(n, func(t string, ins []string) {
			if w.Unit() {
				ruleText(w, t, ins)
			}
		})
	}
}

// pairChars: characters and bytes that some language, format or library treats
// specially.
func pairChars() []string {
	return []string{"a", "x", "\r", "\n", "\t", " ", "\x00", "\v", "\x1b", "\x7f", "\x85", "\xff", "\xc3", "\xed\xa0\x80", "\u0085", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\u200d", "\u0301", "é", "世", "𝘧", "\U0010ffff", "\"", "'", "`", "\\", "%", "$", "&", "#", "/", "[", "]", "^", "-", "{", "1"}
}

// pairTexts: t, made of a and b, in every kind of quotes.
func pairTexts(w *W, t, a, b string) {
	ins := []string{"", t, a, b, b + a, t + t, t + a, "x" + t, t + "x", "\n", "\r\n", "\\" + t, "\ufffd", "\ufffd\ufffd", "?", "x", "y", strings.ToUpper(t), strings.TrimSpace(t), " " + t, t + "\n"}
	for _, q := range []string{"'" + t + "'", "[" + t + "]", "[^" + t + "]", "/" + t + "/", "'" + t + "'* a?", "a*'" + t + "'*", "[" + t + "]+ | a b", "l:'" + t + "' b?", "a" + t + "b", t + "'x'", "'x'" + t} {
		ruleText(w, q, ins)
	}
}

// anyCharsAt: every single insertion and substitution of every byte and of some
// longer characters, at one place of a text.
func anyCharsAt(text string, i int, f func(t string) (stop bool)) bool {
	var cs []string
	for c := 0; c < 256; c++ {
		cs = append(cs, string([]byte{byte(c)}))
	}
	cs = append(cs, "é", "\u00a0", "\u2028", "\ufeff", "\ufffd", "λ", "𝘧", "\r\n", "->", "'x'", "{,}", "(?", "//", "[]")
	for _, c := range cs {
		if f(text[:i]+c+text[i:]) || i < len(text) && f(text[:i]+c+text[i+1:]) {
			return true
		}
	}
	return false
}

var anyIns = append(strs(chars("xy"), 3), "xyxy", "xyx", "'", "z", "zy", "\t", "xz", "\x00", "\xff", "é", "(", "\\")

// ruleText compares the library's reading of one rule text with the reference.
func ruleText(w *W, t string, ins []string) bool {
	e, quirk := readRule(t)
	var gm *j.Grammar
	err := ""
	w.Case(t)
	w.cur.States++
	w.cur.Transitions += len(t)
	func() {
		defer func() {
			if x := recover(); x != nil {
				gm, err = nil, firstLine(fmt.Sprint(x))
			}
		}()
		gm = compileText(t)
	}()
	if e == nil {
		if err == "" {
			w.Fail(Failure{What: "a text that is not a rule is accepted", Input: t, Expected: "refused", Got: gm.String()})
			return true
		}
		w.Outcome("refused")
		return false
	}
	if err != "" && quirk && e.anyRef(")") {
		w.Outcome("refused, behaviour not claimed") // the parameter of a reference may itself be invalid
		return false
	}
	if err != "" {
		w.Fail(Failure{What: "a rule is refused", Input: t, Expected: e.Text(), Got: err})
		return true
	}
	g := NewG(append([]*Rule{{Name: "S_", Body: e}}, leafRules()...)...)
	if quirk || g.undefined(e) {
		w.Outcome("accepted, behaviour not claimed")
		return false
	}
	w.Outcome("accepted")
	for _, in := range ins {
		x := w.model(g, in)
		if x.over {
			w.cur.Skipped++
			continue
		}
		w.Case(t + "   on   " + in)
		o := parse(gm, in)
		if what, exp, got := agree(x, o, in, aAccept|aTree); what != "" {
			w.Fail(Failure{What: "the rule is read as something else: " + what, Grammar: t + "   read as   " + e.Text(), Input: in, Expected: exp, Got: got})
			return true
		}
	}
	if len(t) > 4 {
		w.Sample(fmt.Sprintf("%q reads as %s", t, e.Text()))
	}
	return false
}

// anyRef: whether e has a reference ending with suffix.
func (e *E) anyRef(suffix string) bool {
	if e.Op == ORef && strings.HasSuffix(e.S, suffix) {
		return true
	}
	for _, k := range e.K {
		if k.anyRef(suffix) {
			return true
		}
	}
	return false
}

func compileText(t string) *j.Grammar {
	lines := []j.Line{j.O(j.Named("S_", t))}
	for _, r := range leafRules() {
		lines = append(lines, j.I(lineArgs(r)...))
	}
	return j.GrammarWithOptionsFromLines("g", opts(), lines)
}

func (g *G) undefined(e *E) bool {
	if e.Op == ORef && g.byN[e.S] == nil {
		return true
	}
	for _, k := range e.K {
		if g.undefined(k) {
			return true
		}
	}
	return false
}
