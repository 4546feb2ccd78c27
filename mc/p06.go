package main

import (
	"fmt"
	"os"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P06", p06, "histories up to the stated length over the stated operations on one compiled grammar; the oracle of each parse is the same parse on a freshly compiled grammar")
}

// A hist grammar: how to compile it, what to parse with it. bomb is the
// number of callbacks to let through before panicking (-1: never).
type histG struct {
	name  string
	lines func(bomb *int) []j.Line
	ins   []string
}

// tickHook, when set, is a scheduling point (P07).
var tickHook func()

func tick(bomb *int) {
	if tickHook != nil {
		tickHook()
	}
	if bomb == nil || *bomb < 0 {
		return
	}
	if *bomb == 0 {
		*bomb = -1
		panic("callback panic")
	}
	*bomb--
}

func cb(name string, bomb *int) func(j.Ast) j.Ast {
	return func(it j.Ast) j.Ast {
		tick(bomb)
		return &node{j.NewAttr(), name, it, ""}
	}
}

func histGrammars() []histG {
	N := j.Named
	return []histG{
		{"arith", func(b *int) []j.Line {
			return []j.Line{
				j.O(N("E", "E '+' T | E '-' T | T"), cb("E", b)),
				j.I(N("T", "T '*' F | F"), cb("T", b)),
				j.I(N("F", "'(' E ')' | Num"), cb("F", b)),
				j.I(N("Num", "/[0-9]+/"), cb("Num", b)),
			}
		}, []string{"1+2*3", "1+2*4", "(1+2)*3", "1+", "1", "", "1-2-3-4", "1+2)"}},
		{"labels", func(b *int) []j.Line {
			return []j.Line{
				j.O(N("Doc", "item:Item rest:(',' item:Item)* end:';'?"), cb("Doc", b)),
				j.I(N("Item", []j.Line{
					j.O(N("Pair", "key:Word '=' val:(Word | Int)"), cb("Pair", b)),
					j.O("flag:Word"),
					j.O(N("Int", "/[0-9]+/"), j.NativeIntFrom),
				})),
				j.I(N("Word", "[a-z]+"), func(it j.Ast) j.Ast { tick(b); return it.(*j.NativeArray).Concat() }),
			}
		}, []string{"a=b", "a=1,b=c;", "a,b,c", "12", "a=", "a=b,", "a=1,b=d;", ""}},
		{"predicates", func(b *int) []j.Line {
			return []j.Line{
				j.O(N("S", "(!End Line '\n')* End?"), cb("S", b)),
				j.I(N("Line", "(?Word) w:Word*sp{1,3} c:('#' /.*/)?"), cb("Line", b)),
				j.I(N("Word", "/[a-z]+/"), cb("Word", b)),
				j.I(N("sp", "' '+")),
				j.I(N("End", "'end'")),
			}
		}, []string{"a b\n", "a b c d\n", "a\nb\nend", "a #c\n", "end", "", "a b\na", "a c\n"}},
		{"plain", func(b *int) []j.Line { // no callback: raw native values
			return []j.Line{
				j.O(N("S", "a:X b:Y*',' c:(d:X e:Y)? f:(X | Y)*")),
				j.I(N("X", "X 'x' | [uv]")),
				j.I(N("Y", "Z 'y' | Z")),
				j.I(N("Z", "Y 'z' | [w]")),
			}
		}, []string{"uxxwy,wz,wuxw", "uw", "vxw,w", "u", "uw,", "uxxwy,wz,wuxv", "vw", "uwzyzy,wyzvww"}},
		{"operators", func(b *int) []j.Line { // every operator is a rule of its own, without callback
			return []j.Line{
				j.O(N("S", "p:Not q:Look r:Opt s:(Seq | Reg)* t:Emp u:List (Und | Ran | Cls | Nul)*")),
				j.I(N("Not", "!'z'")),
				j.I(N("Look", "(?Any)")),
				j.I(N("Any", "/(?s)./")),
				j.I(N("Opt", "'-'?")),
				j.I(N("Seq", "'(' 'x' ')'")),
				j.I(N("Reg", "/[0-9]+/")),
				j.I(N("Emp", "''")),
				j.I(N("List", "Reg2*',' Not")),
				j.I(N("Reg2", "Pass")),
				j.I(N("Pass", "[ab]")),
				j.I(N("Und", "_u _u?")),
				j.I(N("_u", "'u'")),
				j.I(N("Ran", []j.Line{j.O("'r' l:Opt"), j.O(N("Ran2", "'R'{1,2}")), j.O("!'-' Look 'q'")})),
				j.I(N("Cls", "[^-z]+")),
				j.I(N("Nul", "m:'c'? n:'d'? '-'")),
			}
		}, []string{"-(x)12a,buuur-RRq", "-(x)12a,buuur-RRqz", "12(x)", "z", "a,b", "", "-cd-d-RR--", "uquRr"}},
		{"reject", func(b *int) []j.Line {
			return []j.Line{
				j.O(N("S", "Small | Big | Any*"), cb("S", b)),
				j.I(N("Small", "Num"), func(it j.Ast) j.Ast {
					tick(b)
					if len(it.String()) > 14 {
						return nil
					}
					return it
				}),
				j.I(N("Big", "Num 'L'"), cb("Big", b)),
				j.I(N("Num", "/[0-9]+/"), cb("Num", b)),
				j.I(N("Any", "/[0-9a-zA-Z]/")),
			}
		}, []string{"1", "12345678", "12345678L", "x", "1x", "", "1!", "99"}},
	}
}

// snapshot of a returned value, with the origins of its nodes.
func snap(o Out) string {
	var b strings.Builder
	b.WriteString(o.String())
	if o.Ast != nil && o.Kind == "ok" {
		snapO(&b, o.Ast)
	}
	if o.Kind == "err" {
		fmt.Fprintf(&b, " at %d:%d:%d", o.Off, o.Line, o.Col)
	}
	return b.String()
}

func snapO(b *strings.Builder, a j.Ast) {
	switch v := a.(type) {
	case *node:
		o := v.GetOrigin()
		fmt.Fprintf(b, " %s[%d,%d)l%d%q", v.name, o.Start, o.End, o.Line, o.Code)
		snapO(b, v.it)
	case *j.NativeArray:
		for _, x := range v.Array() {
			snapO(b, x)
		}
	case *j.NativeMap:
		for _, k := range v.Keys() {
			snapO(b, v.Get(k))
		}
	}
}

func resnap(o Out) string {
	if o.Kind == "err" {
		o.Err = firstLine(o.Ast.(j.ParseError).ErrorString)
	}
	if o.Kind != "ok" || o.Ast == nil {
		return snap(o)
	}
	return snap(Out{Kind: "ok", Val: canonStr(o.Ast), Ast: o.Ast})
}

type histOp struct {
	name string
	do   func(gm *j.Grammar, bomb *int) (Out, bool) // false: no result to compare
}

// devnull silences what the traced parses print.
func silence() func() {
	old := os.Stdout
	f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stdout = f
	return func() { os.Stdout = old; f.Close() }
}

func histOps(h histG, thorough bool) []histOp {
	var ops []histOp
	P := func(in string, o ...j.ParseOption) func(*j.Grammar, *int) (Out, bool) {
		return func(gm *j.Grammar, b *int) (Out, bool) { return parse(gm, in, o...), true }
	}
	for _, in := range h.ins {
		ops = append(ops, histOp{fmt.Sprintf("parse(%q)", in), P(in)})
	}
	for k, at := range []int{0, 1, 2, 4} {
		in := h.ins[k%3]
		at := at
		ops = append(ops, histOp{fmt.Sprintf("parse(%q) panicking in callback #%d", in, at), func(gm *j.Grammar, b *int) (Out, bool) {
			*b = at
			o := parse(gm, in)
			*b = -1
			return o, true
		}})
	}
	ops = append(ops,
		histOp{fmt.Sprintf("parse(%q, Debug)", h.ins[1]), P(h.ins[1], j.Debug{Bool: true})},
		histOp{fmt.Sprintf("parse(%q, SkipLog)", h.ins[0]), P(h.ins[0], j.SkipLog{Bool: true})},
		histOp{fmt.Sprintf("parseTokens(%q by character)", h.ins[1]), func(gm *j.Grammar, b *int) (Out, bool) {
			in := h.ins[1]
			var tk []j.Token
			for i := range in {
				tk = append(tk, j.Token{Repr: in[i : i+1], OriginalOffset: i, WorkOffset: i})
			}
			if len(tk) == 0 {
				return Out{}, false
			}
			return runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(in, tk)) }), true
		}},
		histOp{fmt.Sprintf("parse(%q) and modify the returned tree", h.ins[0]), func(gm *j.Grammar, b *int) (Out, bool) {
			o := parse(gm, h.ins[0])
			if o.Kind == "ok" {
				vandalise(o.Ast)
			}
			return o, false
		}},
		histOp{fmt.Sprintf("parseTokens(%q) panicking in callback #1, then rewound and parsed again", h.ins[0]), func(gm *j.Grammar, b *int) (Out, bool) {
			in := h.ins[0]
			n := len(in) / 2
			ts := j.NewTokenStream(in, []j.Token{{Repr: in[:n], OriginalOffset: 0, WorkOffset: 0}, {Repr: in[n:], OriginalOffset: n, WorkOffset: n}})
			*b = 1
			runParse(func() j.Ast { return gm.ParseTokens(ts) })
			*b = -1
			ts.SetPos(0)
			return runParse(func() j.Ast { return gm.ParseTokens(ts) }), true
		}},
		histOp{"String()", func(gm *j.Grammar, b *int) (Out, bool) {
			return Out{Kind: "ok", Val: fmt.Sprint(gm.String(), gm.CountRules(), gm.IsReady())}, true
		}},
		histOp{"PrintRules()", func(gm *j.Grammar, b *int) (Out, bool) { gm.PrintRules(); return Out{}, false }},
		histOp{"compile another grammar", func(gm *j.Grammar, b *int) (Out, bool) {
			g := j.GrammarWithOptionsFromLines("other", opts(), []j.Line{j.O("'a' X*"), j.I(j.Named("X", "'b' | Y")), j.I(j.Named("Y", "[0-9]"))})
			return parse(g, "ab1"), true
		}},
	)
	return ops
}

func p06(w *W) {
	defer silence()()
	depth := w.Pick(3, 4)
	for _, h := range histGrammars() {
		ops := histOps(h, w.Thorough())
		w.Suite("histories-"+h.name, fmt.Sprintf("all histories of %d operations out of %d (%d inputs; panics in callback #0,1,2,4; options; token streams; printing; compiling)", depth, len(ops), len(h.ins)))
		compile := func(b *int) *j.Grammar {
			return j.GrammarWithOptionsFromLines(h.name, opts(), h.lines(b))
		}
		fresh := map[int]string{}
		expect := func(i int) string {
			if s, ok := fresh[i]; ok {
				return s
			}
			b := -1
			o, _ := ops[i].do(compile(&b), &b)
			fresh[i] = snap(o)
			return fresh[i]
		}
		tuples(len(ops), depth, func(ix []int) {
			if !w.Unit() {
				return
			}
			runHistory(w, h.name, compile, ops, append([]int{}, ix...), expect)
		})
		// long histories: every operation many times
		M := w.Pick(300, 2000)
		w.Suite("long-"+h.name, fmt.Sprintf("%d histories of %d operations: for every k, operation i is followed by operation i*k+1", len(ops), M))
		for k := 1; k <= len(ops); k++ {
			if !w.Unit() {
				continue
			}
			var ix []int
			for i := 0; i < M; i++ {
				ix = append(ix, (i*k+i/len(ops))%len(ops))
			}
			runHistory(w, h.name, compile, ops, ix, expect)
		}
	}
	p06several(w)
	p06tokens(w)
	p06gaps(w)
	p06alike(w)
	sized := func(g *G, ins []string) {
		gt := g.Text()
		w.About(gt)
		gm, e := g.Compile()
		if e != "" {
			w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e})
			return
		}
		// forwards, backwards, and each after a much smaller one
		order := append(append([]string{}, ins...), reversed(ins)...)
		for _, in := range ins {
			order = append(order, in, "", in, in[:min(1, len(in))])
		}
		wants := map[string]want{}
		for n, in := range order {
			x, ok := wants[in]
			if !ok {
				x = w.model(g, in)
				wants[in] = x
			}
			if x.over {
				w.cur.Skipped++
				continue
			}
			w.Case(in)
			o := parse(gm, in)
			asp := aAccept | aTree
			if !x.lr {
				asp |= aError
			}
			if what, exp, got := agree(x, o, in, asp); what != "" {
				w.Fail(Failure{What: "after other parses: " + what, Grammar: gt, Input: in, Expected: exp, Got: got, Extra: fmt.Sprintf("parse %d of that grammar", n)})
				return
			}
			w.Outcome(o.Kind)
		}
	}
	namesSuite(w, 3, sized)
	hugeSuite(w, w.Pick(16, 17), allKinds, sized)
	sizesSuite(w, append(plainKernels(), recursiveKernels()...), [3]int{w.Pick(10, 12), w.Pick(10, 12), w.Pick(14, 16)}, sized)
	// the joeson grammar itself has a history too: compiling rules is parsing
	texts := []string{"'a' | 'b'", "a:'x' b:'y'?", "[a-z]*','{1,3}", "(", "x*", "", "!'a' [ab]+", "(?'a') 'a' | 'c"}
	w.Suite("compiler", fmt.Sprintf("all sequences of %d rule texts out of %d compiled by one shared joeson grammar", depth, len(texts)))
	probe := func(lazy *j.Grammar, t string) string {
		return runParse(func() j.Ast { return lazy.ParseString(t) }).String()
	}
	tuples(len(texts), depth, func(ix []int) {
		if !w.Unit() {
			return
		}
		gm := j.NewJoesonWithOptions(j.Mute())
		h := ""
		for _, i := range ix {
			w.Case(texts[i])
			h += fmt.Sprintf(" %q", texts[i])
			got, exp := probe(gm, texts[i]), probe(j.NewJoesonWithOptions(j.Mute()), texts[i])
			w.cur.States++
			w.cur.Transitions++
			if got != exp {
				w.Fail(Failure{What: "the compiler grammar remembers earlier rules", Input: h, Expected: exp, Got: got})
				return
			}
		}
		w.Outcome("same")
	})
}

// p06gaps: a parse, many times another one, and then a third one.
func p06gaps(w *W) {
	gs := []func() *G{
		func() *G {
			return NewG(&Rule{Name: "S", Body: Alt(Seq(Str("a"), Ref("X"), Ref("Y")), Seq(Str("b"), Ref("Y"), Ref("X")))}, &Rule{Name: "X", Body: Cls("ab"), Node: true}, &Rule{Name: "Y", Body: Alt(Seq(Ref("X"), Not(Ref("X"))), Str("c"))})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Body: Alt(Seq(Ref("S"), Lab("r", Ref("X"))), Str("a")), Node: true}, &Rule{Name: "X", Body: Alt(Seq(Ref("X"), Str("c")), Cls("ab"))})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Rank: []*Rule{{Name: "A", Body: Seq(Cls("ab"), Lab("t", Ref("T"))), Node: true}, {Name: "", Body: Seq(Str("a"), Star(Ref("T")), Opt(Ref("U")))}}}, &Rule{Name: "T", Body: Seq(Look(Cls("bc")), Cls("abc"))}, &Rule{Name: "U", Body: Str("a"), Node: true})
		},
	}
	ins := strs(chars("abc"), 3)[13:] // those of 3 characters
	gaps := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256}
	w.Suite("gaps", fmt.Sprintf("%d grammars, every ordered pair (A,B) of inputs out of %d of one length: A, then C %v times, then B, for 3 inputs C, on one compiled grammar, against the model; and up to 2^%d+1 times for a few pairs; a quarter of the pairs in the quick tier when more than 8 times", len(gs), len(ins), gaps, w.Pick(16, 17)))
	run := func(g *G, pairs [][2]string, c string, gaps []int) {
		gt := g.Text()
		w.About(gt)
		gm, _ := g.Compile()
		wants := map[string]want{}
		for _, s := range append(append([]string{}, ins...), "") {
			wants[s] = w.model(g, s)
		}
		step := func(in, hist string) bool {
			x := wants[in]
			asp := aAccept | aTree
			if !x.lr {
				asp |= aError
			}
			o := parse(gm, in)
			w.cur.Transitions++
			w.cur.Executions++
			if what, exp, got := agree(x, o, in, asp); what != "" {
				w.Fail(Failure{What: "a parse depends on the history of the grammar: " + what, Grammar: gt, Input: hist, Expected: exp, Got: got})
				return false
			}
			return true
		}
		for _, n := range gaps {
			for i, p := range pairs {
				if n > 8 && len(pairs) > 3 && !w.Thorough() && i%4 != n%4 {
					continue
				}
				hist := fmt.Sprintf("%q, then %d times %q, then %q", p[0], n, c, p[1])
				w.Case(hist)
				if !step(p[0], hist) {
					return
				}
				for i := 0; i < n; i++ {
					if !step(c, hist) {
						return
					}
				}
				if !step(p[1], hist) {
					return
				}
			}
		}
		w.Outcome("agree")
	}
	for _, mk := range gs {
		for _, c := range []string{"ccc", "", "aba"} {
			for _, a := range ins {
				if !w.Unit() {
					continue
				}
				var ps [][2]string
				for _, b := range ins {
					ps = append(ps, [2]string{a, b})
				}
				run(mk(), ps, c, gaps)
			}
			if w.Unit() {
				n := 1 << w.Pick(16, 17)
				run(mk(), [][2]string{{"aba", "abb"}, {"abb", "aba"}, {"acc", "abc"}}, c, []int{510, 511, 512, 1022, 1023, 1024})
				run(mk(), [][2]string{{"aba", "abb"}}, c, []int{n/2 - 1, n - 2, n - 1, n})
			}
		}
	}
}

// p06alike: texts of one length that differ in one place.
func p06alike(w *W) {
	gs := []func() *G{
		func() *G {
			return NewG(&Rule{Name: "S", Body: Star(Alt(Ref("W"), Ref("L")))}, &Rule{Name: "W", Body: Rgx("[ab]+"), Node: true}, &Rule{Name: "L", Body: Str("\n")})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Body: Star(Alt(Ref("A"), Seq(Ref("B"), Not(Ref("B"))), Str("\n")))}, &Rule{Name: "A", Body: Str("a"), Node: true}, &Rule{Name: "B", Body: Cls("bc"), Node: true})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Rank: []*Rule{{Name: "P", Body: Seq(Star(Ref("A")), Str("c")), Node: true}, {Name: "", Body: Seq(Star(Ref("A")), Opt(Ref("P")), Star(Ref("A")))}}}, &Rule{Name: "A", Body: Cls(`ab\n`), Node: true})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Body: Alt(Seq(Ref("S"), Lab("r", Ref("A"))), Ref("A")), Node: true}, &Rule{Name: "A", Body: Alt(Str("ab"), Str("a"), Str("\n"))})
		},
	}
	gs = append(gs, func() *G { return NewG(&Rule{Name: "S", Body: Rgx(`[abc\n]*`)}) },
		func() *G { return NewG(&Rule{Name: "S", Body: Seq(Lab("l", Rgx("a*")), Lab("r", Rgx("(?s).*")))}) },
		func() *G { return NewG(&Rule{Name: "S", Body: Alt(Rgx("a*"), Str("b"))}) })
	top := w.Pick(9, 11)
	w.Suite("alike", fmt.Sprintf("%d grammars, texts of 2^k-1, 2^k, 2^k+1 characters up to 2^%d that differ in one character, in all places or around fractions and powers of two: every ordered pair parsed in turn by one compiled grammar, against the model", len(gs), top))
	for gi, mk := range gs {
		for _, n := range around(2, top, 1) {
			if gi == 3 && n > 130 {
				continue
			}
			if !w.Unit() {
				continue
			}
			g := mk()
			gt := g.Text()
			w.About(gt)
			gm, _ := g.Compile()
			ins := []string{rep("a", n)}
			for _, p := range somePlaces(n, w.Pick(9, 17)) {
				for _, c := range "b\nc" {
					if n > 9 && c != '\n' && (p+int(c))%2 == 0 {
						continue
					}
					b := []byte(ins[0])
					b[p] = byte(c)
					ins = append(ins, string(b))
				}
			}
			var wants []want
			for _, in := range ins {
				wants = append(wants, w.model(g, in))
			}
			hist := func(a, b int) string {
				return fmt.Sprintf("%d characters, %q then %q", n, shortA(ins[a]), shortA(ins[b]))
			}
			step := func(i, a, b int) bool {
				asp := aAccept | aTree
				if !wants[i].lr {
					asp |= aError
				}
				o := parse(gm, ins[i])
				w.cur.Transitions++
				w.cur.Executions++
				if what, exp, got := agree(wants[i], o, ins[i], asp); what != "" {
					w.Fail(Failure{What: "a parse depends on an earlier one of a similar text: " + what, Grammar: gt, Input: hist(a, b), Expected: exp, Got: got})
					return false
				}
				return true
			}
		all:
			for a := range ins {
				for b := range ins {
					if n > 40 && !w.Thorough() && (a+b)%5 != 0 && b != a+1 {
						continue
					}
					w.Case(hist(a, b))
					if wants[a].over || wants[b].over {
						w.cur.Skipped++
						continue
					}
					if !step(a, a, b) || !step(b, a, b) {
						break all
					}
				}
			}
			w.Outcome("agree")
		}
	}
}

func shortA(s string) string {
	if i := strings.IndexFunc(s, func(r rune) bool { return r != 'a' }); i >= 0 && len(s) > 20 {
		return fmt.Sprintf("a{%d}%s a{%d}", i, s[i:i+1], len(s)-i-1)
	}
	return s
}

// somePlaces in n bytes: all, or those around fractions and powers of two.
func somePlaces(n, full int) (ps []int) {
	for p := 0; p < n; p++ {
		if n <= full || p&(p-1) == 0 && p > n/8 || p == 0 || p == n/2+n/4 || p == n/2-1 || p == n/2 || p == n/3 || p == n-1 {
			ps = append(ps, p)
		}
	}
	return
}

// p06tokens: parses of several tokenizations of one text.
func p06tokens(w *W) {
	gs := []func() *G{
		func() *G {
			return NewG(&Rule{Name: "S", Body: Star(Alt(Ref("A"), Ref("B"), Str("\n")))}, &Rule{Name: "A", Body: Seq(Rgx("a+"), Opt(Rgx("b$"))), Node: true}, &Rule{Name: "B", Body: Rgx("b|\\na"), Node: true})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Body: Alt(Seq(Lab("l", Ref("S")), Cls("b\\n"), Lab("r", Ref("A"))), Ref("A")), Node: true}, &Rule{Name: "A", Body: Alt(Str("ab"), Str("a"))})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Rank: []*Rule{{Name: "P", Body: Seq(Ref("A"), Str("b")), Node: true}, {Name: "", Body: Seq(Look(Ref("A")), Cls("ab"), Str("a"))}, {Name: "Q", Body: Plus(Ref("A"))}}}, &Rule{Name: "A", Body: Cls(`a\n`)})
		},
		func() *G {
			return NewG(&Rule{Name: "S", Body: Seq(Not(Str("ba")), StarJ(Ref("A"), Str("b")), Opt(Str("b")))}, &Rule{Name: "A", Body: Rep(Str("a"), 1, 2), Node: true})
		},
	}
	texts := []string{"aba", "abab", "a\nba", "bab", "aab\n"}
	if w.Thorough() {
		texts = append(texts, strs([]string{"a", "b", "\n"}, 4)...)
	}
	w.Suite("tokenizations", fmt.Sprintf("%d grammars, %d texts: all ordered pairs of tokenizations (with gaps) of one text, then the text itself and the first one again, parsed in turn by one compiled grammar, against the model", len(gs), len(texts)))
	for _, mk := range gs {
		for _, t := range texts {
			var all [][]piece
			tokenizations(t, func(ps []piece) { all = append(all, append([]piece{}, ps...)) })
			for _, p := range all {
				if !w.Unit() {
					continue
				}
				g := mk()
				gt := g.Text()
				w.About(gt)
				gm, _ := g.Compile()
				wants := map[string]want{}
				step := func(q []piece, name string) bool {
					toks, work := pieceStream(t, q)
					if q == nil {
						work = t
					}
					x, ok := wants[work]
					if !ok {
						x = w.model(g, work)
						wants[work] = x
					}
					w.Case(work)
					o := runParse(func() j.Ast {
						if q == nil {
							return gm.ParseString(work)
						}
						return gm.ParseTokens(j.NewTokenStream(t, toks))
					})
					w.Outcome(o.Kind)
					if what, exp, got := agree(x, o, work, aAccept|aTree); what != "" {
						ft, _ := pieceStream(t, p)
						w.Fail(Failure{What: "a parse depends on the history of the grammar: " + what, Grammar: gt, Input: fmt.Sprintf("text %q as %s, then as %s (%s)", t, tokNames(ft), tokNames(toks), name), Expected: exp, Got: got})
						return false
					}
					return true
				}
				for _, q := range all {
					if q == nil {
						q = []piece{}
					}
					if !step(append([]piece{}, p...), "the first") || !step(q, "the second") || !step(nil, "the text itself") {
						break
					}
				}
			}
		}
	}
}

// vandalise modifies every container of a returned tree.
func vandalise(a j.Ast) {
	switch v := a.(type) {
	case *node:
		vandalise(v.it)
		v.it = j.NewNativeString("vandalised")
		v.name = "V"
		v.SetOrigin(j.Origin{})
	case *j.NativeArray:
		for i, x := range *v {
			vandalise(x)
			(*v)[i] = j.NewNativeUndefined()
		}
		v.Append(j.NewNativeString("more"))
	case *j.NativeMap:
		for _, k := range v.Keys() {
			vandalise(v.Get(k))
			v.Set(k, j.NewNativeUndefined())
		}
		v.Set("more", j.NewNativeString("more"))
	}
}

func runHistory(w *W, name string, compile func(*int) *j.Grammar, ops []histOp, ix []int, expect func(int) string) {
	b := -1
	gm := compile(&b)
	w.About(name)
	type kept struct {
		o Out
		s string
		i int
	}
	var ks []kept
	hist := func(n int) string {
		s := ""
		for q, i := range ix[:n] {
			if n > 12 && q < n-12 {
				continue
			}
			s += ops[i].name + "; "
		}
		return s
	}
	for n, i := range ix {
		w.Case(ops[i].name)
		o, has := ops[i].do(gm, &b)
		w.cur.Transitions++
		if !has {
			continue
		}
		w.cur.States++
		got := snap(o)
		if exp := expect(i); got != exp {
			w.Fail(Failure{What: "a parse depends on the history of the grammar", Grammar: name, Input: hist(n + 1), Expected: exp, Got: got})
			return
		}
		w.Outcome(o.Kind)
		if len(ks) < 64 {
			ks = append(ks, kept{o, got, n})
		}
	}
	for _, k := range ks {
		if s := resnap(k.o); s != k.s {
			w.Fail(Failure{What: "a value returned earlier was changed by a later operation", Grammar: name, Input: hist(len(ix)), Expected: k.s, Got: s, Extra: fmt.Sprintf("value of operation %d", k.i)})
			return
		}
	}
	if len(ix) < 5 {
		w.Sample(name + ": " + hist(len(ix)))
	}
}

// p06several: grammars which have rules of the same names and texts, but in
// other orders and numbers, must ignore each other; the oracle is the model.
func p06several(w *W) {
	bodies := []*E{Alt(Seq(Ref("A"), Str("x")), Seq(Ref("B"), Str("y"))), Alt(Ref("B"), Ref("A"), Ref("C")), Seq(Star(Ref("C")), Opt(Ref("B"))), Ref("B"), Alt(Seq(Ref("S"), Ref("A")), Ref("B")), Seq(Not(Ref("B")), Ref("C"), Lab("l", Opt(Ref("A")))), Str("b")}
	texts := [][3]*E{{Str("a"), Str("b"), Cls("ab")}, {Cls("a"), Rgx("b"), Alt(Ref("A"), Ref("B"))}, {Opt(Str("a")), Seq(Str("b"), Opt(Ref("C"))), Str("a")}, {Str("b"), Str("b"), Seq(Str("a"), Str("b"))}}
	var pool []func() *G
	for _, b := range bodies {
		for _, t := range texts {
			for _, perm := range [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1}, {2, 0, 1}} {
				if len(perm) < 3 && (b.refs("A") || b.refs("C") || t[1].refs("C") || t[1].refs("A")) {
					continue
				}
				pool = append(pool, func() *G {
					rs := []*Rule{{Name: "S", Body: b}}
					for _, i := range perm {
						rs = append(rs, &Rule{Name: string(rune('A' + i)), Body: t[i], Node: i == 2})
					}
					return NewG(rs...)
				})
			}
		}
	}
	ins := append(strs(chars("ab"), 2), "ax", "by", "bx", "ay", "aab", "bab")
	w.Suite("several", fmt.Sprintf("every ordered pair (i,k) of %d grammars having rules of the same names and texts: compile i, compile k, then i, k and i on %d inputs, against the model", len(pool), len(ins)))
	for i := range pool {
		for k := range pool {
			if !w.Unit() {
				continue
			}
			gs := []*G{pool[i](), pool[k]()}
			gt := gs[0].Text() + "  and then  " + gs[1].Text()
			w.About(gt)
			var gms []*j.Grammar
			for _, g := range gs {
				gm, e := g.Compile()
				if e != "" {
					w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e})
					return
				}
				gms = append(gms, gm)
			}
			for n, q := range []int{0, 1, 0} {
				for _, in := range ins {
					w.Case(in)
					o := parse(gms[q], in)
					if what, exp, got := agree(w.model(gs[q], in), o, in, aAccept|aTree); what != "" {
						w.Fail(Failure{What: "with several grammars: " + what, Grammar: gt, Input: in, Expected: exp, Got: got, Extra: fmt.Sprintf("grammar %d, step %d", q, n)})
						return
					}
					w.Outcome(o.Kind)
				}
			}
		}
	}
}
