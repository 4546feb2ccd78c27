package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

func init() {
	register("P09", p09, "rule texts up to the stated number of tokens over the stated token alphabets; parsers are compared by their printed structure")
}

func p09(w *W) {
	hand := j.NewJoesonWithOptions(j.Mute())
	lazy := func(g *j.Grammar) j.GrammarOptions {
		return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(g)}
	}
	second := j.GrammarWithOptionsFromLines("intention", lazy(hand), j.IntentionRules())
	third := j.GrammarWithOptionsFromLines("intention2", lazy(second), j.IntentionRules())
	fourth := j.GrammarWithOptionsFromLines("intention3", lazy(third), j.IntentionRules())
	gms := []*j.Grammar{hand, second, third, fourth}
	names := []string{"hand-compiled", "2nd generation", "3rd generation", "4th generation"}

	w.Suite("rules", "number of rules and printed rules of the four generations")
	if w.Unit() {
		w.Case("count")
		for i, g := range gms[1:] {
			if g.CountRules() != hand.CountRules() {
				w.Fail(Failure{What: "the generations do not have the same rules", Expected: fmt.Sprint(hand.CountRules()), Got: fmt.Sprint(g.CountRules(), " in the ", names[i+1])})
			}
		}
		w.Outcome("same")
	}
	cmp := func(t string) bool {
		w.Case(t)
		w.cur.States++
		w.cur.Transitions += len(gms)
		ref := grammarSays(hand, t)
		for i, g := range gms[1:] {
			if got := grammarSays(g, t); got != ref {
				w.Fail(Failure{What: "the " + names[i+1] + " grammar disagrees with the hand-compiled one", Input: t, Expected: ref, Got: got})
				return true
			}
		}
		if strings.HasPrefix(ref, "parser ") {
			w.Outcome("accepted")
			if len(t) > 5 {
				w.Sample(fmt.Sprintf("%q => %s", t, helpers.StripAnsi(ref)))
			}
		} else {
			w.Outcome("refused")
		}
		return false
	}
	run := func(name string, toks []string, n int) {
		w.Suite(name, fmt.Sprintf("all texts of <=%d tokens out of %q", n, toks))
		var batch []string
		flush := func() {
			if len(batch) > 0 && w.Unit() {
				for _, t := range batch {
					if cmp(t) {
						break
					}
				}
			}
			batch = batch[:0]
		}
		for k := 0; k <= n; k++ {
			tuples(len(toks), k, func(ix []int) {
				var b strings.Builder
				for _, i := range ix {
					b.WriteString(toks[i])
				}
				batch = append(batch, b.String())
				if len(batch) == 64 {
					flush()
				}
			})
		}
		flush()
	}
	run("structure", []string{"a", "'x'", " ", "|", "(", ")", "*", "+", "?", "!", "l:", "{1,2}"}, w.Pick(5, 6))
	run("chars", []string{"a", "'", "\\", "[", "]", "/", "(", ")", "|", "*", "{", "}", ",", "1", ":", " ", "\n", "&", "@", "-", ">", "é", "."}, 4)
	run("labels", []string{"a", "&", "@", ":", "(", ")", " ", "_", "b: ", "'x'", "-> {a}"}, 5)
	run("ranges", []string{"a", "*", "+", "b", "{", "}", ",", " ", "2", "11"}, w.Pick(5, 7))
	run("quoted", []string{"'", "/", "[", "]", "\\", "a", "]'", "\n", "''"}, w.Pick(5, 6))
	compiled := func(name string, toks []string, n int, inputs []string) {
		w.Suite(name, fmt.Sprintf("all rule texts of <=%d tokens out of %q, compiled with each of the four generations into a grammar of five rules: its table of rules (capture, labels, structure), and its parses of %q", n, toks, inputs))
		c := startCapture()
		defer c.stop()
		for k := 1; k <= n; k++ {
			tuples(len(toks), k, func(ix []int) {
				if !w.Unit() {
					return
				}
				var b strings.Builder
				for _, i := range ix {
					b.WriteString(toks[i])
				}
				t := b.String()
				w.Case(t)
				if grammarSays(hand, t) == "refused" {
					w.Outcome("refused") // by all, see the other suites
					return
				}
				w.cur.States++
				w.cur.Transitions += len(gms) * len(inputs)
				ref := compiledSays(c, hand, t, inputs)
				for i, g := range gms[1:] {
					if got := compiledSays(c, g, t, inputs); got != ref {
						w.Fail(Failure{What: "the rule compiled with the " + names[i+1] + " grammar differs from that compiled with the hand-compiled one", Input: t, Expected: ref, Got: got})
						return
					}
				}
				w.Outcome("same grammar")
			})
		}
	}
	compiled("compiled", []string{"a", "'x'", "_", "b", " | ", " ", "(", ")", "*", "?", "!", "l:", "@:"}, w.Pick(4, 5), []string{"", "x", "xx", "y", "xy", "zz"})
	// the rules of the joeson grammar itself, and everything one edit away
	w.Suite("own-rules", "the rules of the joeson grammar, with every single deletion, duplication and substitution by one of 12 characters")
	for _, t := range intentionTexts {
		for i := 0; i <= len(t); i++ {
			if !w.Unit() {
				continue
			}
			bad := cmp(t[:i])
			if i < len(t) {
				bad = bad || cmp(t[:i]+t[i+1:]) || cmp(t[:i+1]+t[i:])
				for _, c := range "a '|()*?!:\\," {
					if !bad {
						bad = cmp(t[:i] + string(c) + t[i+1:])
					}
				}
			}
		}
	}
	w.Suite("any-char", "every insertion and substitution of each of the 256 bytes and of 14 longer strings at every place of 14 texts")
	for _, t := range []string{"a b", "a|b", "l:a 'x'", "a*'y'{1,2}", "(a b)*", "!a b", "(?a) b", "?a b", "'x'+", "[xy]? a", "/x|y/", "'\\''", "(l: a) -> {b}", "a_.b(c)"} {
		for i := 0; i <= len(t); i++ {
			if w.Unit() {
				anyCharsAt(t, i, cmp)
			}
		}
	}
	w.Suite("long-texts", fmt.Sprintf("34 kinds of rules with a name, label, literal, class, regular expression, blank, number, bound, sequence or choice of size n = 1..40 and around powers of two up to 2^%d", w.Pick(9, 11)))
	for _, n := range widths(40, w.Pick(9, 11)) {
		longTexts(n, func(t string, _ []string) {
			if w.Unit() {
				cmp(t)
			}
		})
	}
	N := w.Pick(60, 150)
	w.Suite("scale", fmt.Sprintf("deep and long rules, sizes 1..%d", N))
	for n := 1; n <= N; n++ {
		if !w.Unit() {
			continue
		}
		for _, t := range []string{
			rep("(", n) + "a" + rep(")", n), rep("(", n) + "a" + rep(")", n-1), rep("(a | ", n) + "b" + rep(")", n), rep("a ", n), rep("a | ", n) + "a", rep("(a b)* ", n), rep("!(", n) + "a" + rep(")", n),
			rep("l:(a ", n) + "b" + rep(")", n), "'" + rep("\\'", n) + "'", "[" + rep("\\]", n) + "]", rep("'a'*'b'{1,2} ", n), rep(" ", n) + "a" + rep(" ", n), rep("|", n) + "a|b" + rep("|", n), rep("(?", n) + "a" + rep(")", n), rep("? ", n) + "a",
		} {
			if cmp(t) {
				break
			}
		}
	}
}

// grammarSays: what a grammar of grammars makes of a text: refused, or a parser
// of some structure.
func grammarSays(g *j.Grammar, t string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "refused"
		}
	}()
	a := g.ParseString(t)
	if a == nil || j.IsParseError(a) {
		return "refused"
	}
	return "parser " + fmt.Sprintf("%T ", a) + j.String(a)
}

// compiledSays: what a rule of this text becomes in a grammar compiled with g
// (capture, labels, structure) and what that grammar makes of the inputs.
func compiledSays(c *capture, g *j.Grammar, t string, inputs []string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s += "refused"
		}
	}()
	gm := j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(g)},
		[]j.Line{j.O(j.Named("S", t)), j.O(j.Named("T", "'zz'")), j.I(j.Named("a", "'x'")), j.I(j.Named("_", "' '*")), j.I(j.Named("b", "m:'y'"))})
	for _, in := range inputs {
		r := gm.ParseString(in)
		if r == nil {
			s += "nil; "
		} else if j.IsParseError(r) {
			s += "error; "
		} else {
			s += fmt.Sprintf("%T %s; ", r, r.String())
		}
	}
	before := c.mark()
	gm.PrintRules()
	return s + c.text(before)
}

// the texts of the rules of the joeson grammar
var intentionTexts = []string{
	"CHOICE _",
	"_PIPE* SEQUENCE*_PIPE{2,} _PIPE*",
	"UNIT{2,}",
	"_ LABELED",
	"(label:LABEL ':')? &:(DECORATED|PRIMARY)",
	"PRIMARY '?'",
	"value:PRIMARY '*' join:(!__ PRIMARY)? @:RANGE?",
	"value:PRIMARY '+' join:(!__ PRIMARY)?",
	"value:PRIMARY @:RANGE",
	"'!' PRIMARY",
	"'(?' expr:EXPR ')' | '?' expr:EXPR",
	"'{' _ min:INT? _ ',' _ max:INT? _ '}'",
	"WORD '(' EXPR ')'",
	"WORD",
	"'(' inlineLabel:(WORD ': ')? expr:EXPR ')' ( _ '->' _ code:CODE )?",
	"'{' (!'}' (ESC1 | .))* '}'",
	"'\\'' (!'\\'' (ESC1 | .))* '\\''",
	"'/' (!'/' (ESC2 | .))* '/'",
	"'[' (!']' (ESC2 | .))* ']'",
	"'&' | '@' | WORD",
	"/[a-zA-Z\\._][a-zA-Z\\._0-9]*/",
	"/[0-9]+/",
	"_ '|'",
	"(' ' | '\n')*",
	"(' ' | '\n')+",
	"/[\\s\\S]/",
	"'\\\\' .",
}
