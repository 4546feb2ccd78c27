package main

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P19", p19, "grammars and inputs as stated per suite; a run that makes no progress for 25 s or takes more than 3 GB counts as not terminating")
}

// ends checks that every parse ends with a value, nil or a ParseError. When
// exp is given it also decides acceptance.
func (w *W) ends(gm *j.Grammar, gt string, ins []string, exp func(in string) (accept, known bool)) bool {
	for _, in := range ins {
		if len(in) < 200 {
			w.Case(in)
		} else {
			w.Case(fmt.Sprintf("%s... (%d bytes)", in[:40], len(in)))
		}
		show := in
		if len(show) > 100 {
			show = fmt.Sprintf("%q... %d bytes", in[:40], len(in))
		}
		o := runParse1(gm, in)
		w.cur.States++
		w.cur.Transitions += len(in) + 1
		if o.Kind == "panic" {
			w.Fail(Failure{What: "the parse panics", Grammar: gt, Input: show, Expected: "a value, nil or a ParseError", Got: o.String()})
			return false
		}
		if o.Kind == "nil" && in != "" {
			w.Fail(Failure{What: "nil for an incomplete parse", Grammar: gt, Input: show, Expected: "a value or a ParseError", Got: o.String()})
			return false
		}
		if exp != nil {
			if a, known := exp(in); known && a != o.Accept() {
				w.Fail(Failure{What: "wrong outcome", Grammar: gt, Input: show, Expected: map[bool]string{true: "accepted", false: "refused"}[a], Got: o.Kind})
				return false
			}
		}
		w.Outcome(o.Kind)
	}
	return true
}

// runParse1 does not render the value.
func runParse1(gm *j.Grammar, in string) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			o = Out{Kind: "panic", Err: firstLine(fmt.Sprint(e))}
		}
	}()
	a := gm.ParseString(in)
	switch {
	case a == nil:
		return Out{Kind: "nil"}
	case j.IsParseError(a):
		return Out{Kind: "err"}
	}
	return Out{Kind: "ok"}
}

func (w *W) endsG(g *G, ins []string) {
	gt := g.Text()
	w.About(gt)
	w.Case("compile")
	gm, e := g.Compile()
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return
	}
	lr := g.LeftRecursive()
	w.ends(gm, gt, ins, func(in string) (bool, bool) {
		if lr && !g.SingleEntry() {
			return false, false
		}
		x := w.modelWith(g, in, 4000, nil)
		return x.accept, !x.over
	})
	w.Sample(gt)
}

func p19(w *W) {
	bytes := strs([]string{"a", "\x00", "\xff", "\n"}, w.Pick(3, 4))
	bytes = append(bytes, "é", "aé", "\xc3", "a\xc3", "é\xa9", "世a", "aaaaa", "bb", "ab", "ba", "aab", "bab")

	nullable := []*E{Str(""), Opt(Str("a")), Rgx("a*"), Star(Cls("ab")), Ref("X"), Ref("S"), Cls("a"), Not(Str("a")), Rgx("$"), Look(Opt(Str("b")))}
	l1 := dedup(grow(nullable, append(unaries, func(k *E) *E { return Rep(k, 0, -1) }, func(k *E) *E { return Rep(k, 3, -1) }, func(k *E) *E { return Rep(k, 0, 0) }), append(binaries, func(a, b *E) *E { return RepJ(a, b, 2, -1) })))
	w.Suite("nullable", fmt.Sprintf("S: e, S: e 'b'?, S: (e | 'b')*, for all %d expressions e of depth<=1 over 10 nullable, recursive or failing atoms, three rules X; %d inputs of arbitrary bytes", len(l1), len(bytes)))
	xs := []*E{Opt(Str("b")), Seq(Star(Ref("S")), Opt(Str("a"))), Star(Opt(Ref("X")))}
	for _, e := range l1 {
		for f := 0; f < 3; f++ {
			for v, x := range xs {
				if !w.Thorough() && (f+v)%3 == 2 {
					continue
				}
				if w.Unit() {
					b := []*E{e, Seq(e, Opt(Str("b"))), Star(Alt(e, Str("b")))}[f]
					w.endsG(NewG(&Rule{Name: "S", Body: b, Node: v == 0}, &Rule{Name: "X", Body: x}), bytes)
				}
			}
		}
	}
	deep := grow(dedup([]*E{Str(""), Opt(Str("a")), Rgx("b*"), Ref("X")}), unaries, []func(a, b *E) *E{StarJ, PlusJ})
	small := strs([]string{"a", "b", "\xff"}, w.Pick(2, 3))
	w.Suite("nullable2", fmt.Sprintf("all expressions of depth<=2 over 4 nullable atoms, repetitions and joins; inputs of <=%d of {a,b,\\xff}", w.Pick(2, 3)))
	each2(deep, unaries, []func(a, b *E) *E{StarJ, PlusJ, func(a, b *E) *E { return Seq(a, b) }}, func(mk func() *E) {
		if w.Unit() {
			w.endsG(NewG(&Rule{Name: "S", Body: mk()}, &Rule{Name: "X", Body: Star(Ref("Y")), Node: true}, &Rule{Name: "Y", Body: Opt(Cls("ab"))}), small)
		}
	})

	// failures of all kinds, at all places: the entry stops somewhere, other
	// rules got further, on this line or another one
	nl4 := append(strs([]string{"a", "b", "\n"}, w.Pick(4, 5)), "é", "é\n", "\né", "aé\na", "é\nab", "ab\nab\nab", "a\r\nb", "\xff\na", "a\n\xffb", "\n\n\n\n\n\n", "aaa\nb\na\n\nb")
	lines := []*E{Ref("A"), Ref("B"), Ref("N"), Ref("L"), Cls("a"), Str("\n"), Opt(Ref("B")), Star(Ref("N")), Not(Ref("L"))}
	w.Suite("refused", fmt.Sprintf("S: x y z 'c' | F, F | x y z 'c', F (x y z 'c')?, !(x y z 'c') F and a rank, for all x, y, z out of %d elements matching up to several lines; F: [a] or 'b'? or L; %d inputs of several lines", len(lines), len(nl4)))
	tuples(len(lines), 3, func(ix []int) {
		for v := 0; v < 5; v++ {
			for k, f := range []*E{Cls("a"), Opt(Str("b")), Ref("L")} {
				if !w.Thorough() && (ix[0]+ix[1]+ix[2]+k+v)%3 != 0 || !w.Unit() {
					continue
				}
				x := Seq(lines[ix[0]], lines[ix[1]], lines[ix[2]], Str("c"))
				S := &Rule{Name: "S"}
				switch v {
				case 0:
					S.Body = Alt(x, Ref("F"))
				case 1:
					S.Body = Alt(Ref("F"), x)
				case 2:
					S.Body = Seq(Ref("F"), Opt(x))
				case 3:
					S.Body = Seq(Not(x), Ref("F"))
				case 4:
					S.Rank = []*Rule{{Name: "", Body: x}, {Name: "M", Body: Ref("F")}}
				}
				w.endsG(NewG(S, &Rule{Name: "F", Body: f}, &Rule{Name: "A", Body: Cls("a"), Node: true}, &Rule{Name: "B", Body: Str("b")}, &Rule{Name: "N", Body: Str("\n"), Node: true}, &Rule{Name: "L", Body: Seq(Star(Cls("ab")), Str("\n")), Node: true}), nl4)
			}
		}
	})

	// all kinds of left recursion, including several entries
	bodies := []*E{Ref("S"), Ref("A"), Ref("B"), Str("a"), Opt(Str("a"))}
	for _, x := range []*E{Ref("S"), Ref("A"), Ref("B"), Opt(Str("a"))} {
		for _, y := range []*E{Ref("S"), Ref("A"), Ref("B"), Str("a"), Str("b")} {
			bodies = append(bodies, Seq(x, y), Alt(x, y), Alt(Seq(x, y), Str("b")), Seq(Opt(x), y), Seq(Not(x), y), StarJ(x, y))
		}
	}
	step := w.Pick(131, 13)
	ab := append(strs(chars("ab"), 4), "aaaaaaaa", "bbbbbbbb", "abababab", "baaaaaab", "b"+rep("a", 24), rep("b", 24))
	w.Suite("left-recursive", fmt.Sprintf("S, A, B: triples (every %dth) of %d bodies that refer to each other without consuming, through nullable prefixes, lookaheads and repetitions, whatever the cycles; inputs {a,b}^<=4 and longer ones", step, len(bodies)))
	c := 0
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step == 0 && w.Unit() {
					w.endsG(NewG(&Rule{Name: "S", Body: s}, &Rule{Name: "A", Body: a, Node: c%2 == 0}, &Rule{Name: "B", Body: b}), ab)
				}
			}
		}
	}

	M := w.Pick(20, 60)
	w.Suite("cycles", fmt.Sprintf("cycles of 1..8 rules R0: '(' Rj ')' | R1, R1: '(' Rj ')' | R2 ...: 5 choices of j, 6 last rules going back to R0; inputs nested 0..%d deep, well formed or not", M))
	for n := 1; n <= 8; n++ {
		for jf := 0; jf < 5; jf++ {
			for last := 0; last < 6; last++ {
				for v := 0; v < 2; v++ {
					if !w.Unit() {
						continue
					}
					r := func(i int) *E { return Ref(fmt.Sprintf("R%d", i)) }
					var rs []*Rule
					for i := 0; i < n; i++ {
						k := []int{0, i, i + 1, n, (i * 3) % (n + 1)}[jf]
						b := Alt(Seq(Str("("), r(k), Str(")")), r(i+1))
						if v == 1 {
							b = Alt(Seq(r(i+1), Str("?")), Seq(Str("("), r(k), Str(")")), r(i+1))
						}
						rs = append(rs, &Rule{Name: fmt.Sprintf("R%d", i), Body: b, Node: i%3 == 1})
					}
					b := []*E{
						Alt(Str("x"), Seq(r(0), Str("!"))), Alt(Seq(r(0), Str("!")), Str("x")), Alt(Seq(r(0), Str("+"), r(0)), Str("x")),
						Alt(Seq(Opt(Str("-")), r(0), Str("!")), Seq(Str("("), r(0), Str("]")), Str("x")), Alt(Seq(Not(Seq(r(0), Str("!"))), Str("x")), Seq(r(0), Str(" "))), Alt(Seq(r(n/2), Str("!")), Seq(r(0), Str("["), r(0), Str("]")), Str("x")),
					}[last]
					rs = append(rs, &Rule{Name: fmt.Sprintf("R%d", n), Body: b})
					g := NewG(rs...)
					w.About(g.Text())
					w.Case("compile")
					gm, e := g.Compile()
					if e != "" {
						w.Fail(Failure{What: "the grammar is refused", Grammar: g.Text(), Got: e, Expected: "a compiled grammar"})
						continue
					}
					var ins []string
					for m := 0; m <= M; m++ {
						ins = append(ins, rep("(", m), rep("(", m)+"x"+rep(")", m), rep("(", m)+"x"+rep(")", m)+"!", rep("(", m)+"x!+x"+rep(")", m)+"+x", rep("x", m), "x"+rep("!", m), rep("(", m)+"x"+rep("]", m), "x"+rep("?", m)+rep("[x]", m))
					}
					w.ends(gm, g.Text(), ins, nil)
				}
			}
		}
	}

	w.sizes()
	w.compileSizes()
}

// sizes: inputs of all kinds of sizes.
func (w *W) sizes() {
	type fam struct {
		name string
		g    *G
		in   func(n int) (in string, accept bool)
	}
	R := func(n string, b *E) *Rule { return &Rule{Name: n, Body: b} }
	fams := []fam{
		{"parentheses", NewG(R("S", Alt(Seq(Str("("), Ref("S"), Str(")")), Str("x")))), func(n int) (string, bool) { return rep("(", n) + "x" + rep(")", n), true }},
		{"open parentheses", NewG(R("S", Alt(Seq(Str("("), Ref("S"), Str(")")), Str("x")))), func(n int) (string, bool) { return rep("(", n), false }},
		{"lists of lists", NewG(R("S", Alt(Seq(Str("["), StarJ(Ref("S"), Str(",")), Str("]")), Cls("a-z")))), func(n int) (string, bool) { return rep("[a,[],", n) + "b" + rep("]", n), true }},
		{"nested by labels and callbacks", NewG(&Rule{Name: "S", Body: Alt(Seq(Str("("), Lab("x", Ref("S")), Str(")")), Opt(Seq(Lab("y", Cls("a")), Opt(Str("b"))))), Node: true}), func(n int) (string, bool) { return rep("(", n) + "ab" + rep(")", n), true }},
		{"right recursion", NewG(R("S", Alt(Seq(Cls("ab"), Ref("S")), Cls("ab")))), func(n int) (string, bool) { return rep("ab", n/2+1), true }},
		{"right recursion, failing", NewG(R("S", Alt(Seq(Cls("ab"), Ref("S")), Str("!")))), func(n int) (string, bool) { return rep("ab", n/2+1), false }},
		{"left recursion", NewG(R("S", Alt(Seq(Ref("S"), Str("+"), Ref("T")), Ref("T"))), R("T", Cls("ab"))), func(n int) (string, bool) { return rep("a+", n) + "b", true }},
		{"left recursion, incomplete", NewG(R("S", Alt(Seq(Ref("S"), Str("+"), Ref("T")), Ref("T"))), R("T", Cls("ab"))), func(n int) (string, bool) { return rep("a+", n), false }},
		{"indirect left recursion", NewG(R("S", Alt(Ref("B"), Ref("T"))), R("B", Seq(Ref("S"), Str("+"), Ref("T"))), R("T", Cls("ab"))), func(n int) (string, bool) { return rep("a+", n) + "b", true }},
		{"left recursion behind a nullable prefix", NewG(R("S", Alt(Seq(Opt(Str("-")), Ref("S"), Str("+")), Str("a")))), func(n int) (string, bool) { return "a" + rep("+", n), true }},
		{"nested left recursion", NewG(R("S", Alt(Seq(Ref("S"), Str("+"), Ref("P")), Ref("P"))), R("P", Alt(Seq(Str("("), Ref("S"), Str(")")), Str("a")))), func(n int) (string, bool) { return rep("(", n) + "a" + rep("+a)", n), true }},
		{"postfix left recursion", NewG(R("S", Alt(Seq(Ref("S"), Str("["), Ref("S"), Str("]")), Seq(Ref("S"), Str(".")), Str("a")))), func(n int) (string, bool) { return rep("a.[", n) + "a" + rep("]", n), true }},
		{"repetition", NewG(R("S", Star(Ref("T"))), R("T", Cls("ab"))), func(n int) (string, bool) { return rep("ab", n), true }},
		{"repetition with joins", NewG(R("S", PlusJ(Ref("T"), Ref("J"))), R("T", Opt(Rgx("[a-zé]+"))), R("J", Star(Str(",")))), func(n int) (string, bool) { return rep("é,,", n), true }},
		{"repetition of nullable", NewG(R("S", Seq(Star(Opt(Str("a"))), Star(Star(Str("b")))))), func(n int) (string, bool) { return rep("a", n) + rep("b", n), true }},
		{"lines", NewG(R("S", StarJ(Ref("L"), Str("\n"))), R("L", Rgx("[^\n]*"))), func(n int) (string, bool) { return rep("é\xff\n", n), true }},
		{"lookahead over the rest", NewG(R("S", Seq(Not(Ref("E")), Look(Rgx("(?s).*")), Star(Cls("ab")))), R("E", Seq(Star(Cls("ab")), Str("!")))), func(n int) (string, bool) { return rep("ab", n), true }},
		{"chain of lookaheads", NewG(R("S", Alt(Seq(Str("a"), Look(Ref("S")), Ref("S")), Str("b")))), func(n int) (string, bool) { return rep("a", n) + "b", true }},
		{"chain of negations", NewG(R("S", Alt(Seq(Str("a"), Not(Seq(Ref("S"), Str("!"))), Ref("S")), Str("b")))), func(n int) (string, bool) { return rep("a", n) + "b", true }},
		{"nested repetitions", NewG(R("S", Star(Seq(Str("("), Ref("S"), Str(")"))))), func(n int) (string, bool) { return rep("()", n) + rep("(", n) + rep(")", n), true }},
		{"nested optionals", NewG(R("S", Opt(Seq(Str("("), Opt(Ref("S")), Str(")"))))), func(n int) (string, bool) { return rep("(", n) + rep(")", n), true }},
		{"shared prefixes", NewG(R("S", Alt(Seq(Str("("), Ref("S"), Str(")"), Str("+")), Seq(Str("("), Ref("S"), Str(")"), Str("-")), Seq(Str("("), Ref("S"), Str(")")), Str("x")))), func(n int) (string, bool) { return rep("(", n) + "x" + rep(")", n), true }},
		{"bytes that are not text", NewG(R("S", Star(Rgx(`[\s\S]`)))), func(n int) (string, bool) { return rep("\xff\x00\xc3a", n), true }},
		{"one rune at a time", NewG(R("S", Star(Ref("C"))), R("C", Seq(Not(Str("!")), Rgx("(?s).")))), func(n int) (string, bool) { return rep("世\n", n), true }},
		{"long literal", NewG(R("S", Star(Str(rep("abc", 300))))), func(n int) (string, bool) { return rep("abc", 300*(n/100+1)), true }},
		{"mutual", NewG(R("S", Alt(Seq(Str("("), Ref("A"), Str(")")), Str("x"))), R("A", Alt(Seq(Str("["), Ref("B"), Str("]")), Ref("S"))), R("B", Alt(Seq(Str("{"), Ref("S"), Str("}")), Ref("A")))), func(n int) (string, bool) { return rep("([{", n) + "x" + rep("}])", n), true }},
	}
	var ns []int
	for n := 0; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 100, 127, 128, 255, 256, 257, 341, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 10000, w.Pick(20000, 60000))
	w.Suite("sizes", fmt.Sprintf("%d families of inputs, nesting and length 0..40 and %v", len(fams), ns[41:]))
	for _, f := range fams {
		gt := f.name + ": " + f.g.Text()
		gm, e := f.g.Compile()
		for _, n := range ns {
			if !w.Unit() {
				continue
			}
			w.About(gt)
			if e != "" {
				w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
				continue
			}
			in, acc := f.in(n)
			if in == "" && !acc {
				continue
			}
			if w.ends(gm, gt, []string{in}, func(string) (bool, bool) { return acc, n > 0 }) && n > 1 {
				// and something wrong at the end, in the middle and at the beginning
				odd := func(in string) (bool, bool) {
					return false, in != "" && !strings.Contains(f.name, "lines") && !strings.Contains(f.name, "bytes")
				}
				if strings.Contains(f.name, "one rune") {
					odd = nil
				}
				m := len(in) / 2
				w.ends(gm, gt, []string{in + "\x01", in[:m] + "\x01" + in[m:], "\x01" + in}, odd)
			}
		}
	}
}

// compileSizes: grammars of all kinds of sizes.
func (w *W) compileSizes() {
	ns := []int{}
	for n := 1; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 60, 63, 64, 65, 100, 128, 200, 256, w.Pick(300, 600))
	name := func(i int) string { return fmt.Sprintf("R%d", i) }
	w.Suite("compile", fmt.Sprintf("grammars of size 1..40 and %v: nested groups, choices, optionals, ranks, chains and cycles of rules, long bodies; compiled, printed, and used", ns[40:]))
	for _, n := range ns {
		for f := 0; f < 9; f++ {
			if !w.Unit() {
				continue
			}
			var lines []j.Line
			var ok []string
			O := func(n string, b any) { lines = append(lines, j.O(j.Named(n, b))) }
			I := func(n string, b any) { lines = append(lines, j.I(j.Named(n, b))) }
			switch f {
			case 0:
				O("S", rep("(", n)+"'a'"+rep(")", n))
				ok = []string{"a"}
			case 1:
				O("S", rep("('b' | ", n)+"'a'"+rep(")", n))
				ok = []string{"a", "b"}
			case 2:
				O("S", rep("('b' ", n)+"'a'"+rep(")?", n))
				ok = []string{"", rep("b", n) + "a"}
			case 3:
				O("S", rep("!(!(", n)+"'a'"+rep("))", n)+" [a]")
				ok = []string{"a"}
			case 4:
				var sub any = "'a'"
				for i := 0; i < n; i++ {
					sub = []j.Line{j.O(j.Named("K"+name(i), sub)), j.O("'" + name(i) + ";'")}
				}
				O("S", sub)
				ok = []string{"a", name(n-1) + ";", name(0) + ";", name(n/2) + ";"}
			case 5:
				O("S", "R0")
				for i := 0; i < n; i++ {
					I(name(i), "'(' "+name(i+1)+" ')' | "+name(i+1))
				}
				I(name(n), "'x' | R0 '!'")
				ok = []string{"x", "(x)", rep("(", n) + "x" + rep(")", n)}
			case 6:
				// every rule refers to every other one
				O("S", "R0")
				m := min(n, 60)
				for i := 0; i < m; i++ {
					b := ""
					for k := 0; k < m; k++ {
						b += fmt.Sprintf("'%d,%d;' %s | ", i, k, name(k))
					}
					I(name(i), b+"'.'")
				}
				ok = []string{".", fmt.Sprintf("0,%d;.", m-1), fmt.Sprintf("0,%d;%d,0;0,0;.", m-1, m-1)}
			case 7:
				O("S", rep("l:([a] m:[b])* ", 1)+rep("('c' 'd'?)* ", n))
				ok = []string{"", "abab", "cdc"}
			case 8:
				O("S", "'"+rep("é", n)+"' ["+rep("a-c", n)+"]*"+" /"+rep("(x|", min(n, 150))+"y"+rep(")", min(n, 150))+"/")
				ok = []string{rep("é", n) + "abx", rep("é", n) + "y"}
			}
			gt := fmt.Sprintf("family %d of size %d", f, n)
			w.About(gt)
			w.Case("compile")
			var gm *j.Grammar
			got := noPanic(func() string {
				gm = j.GrammarWithOptionsFromLines("g", opts(), lines)
				return "compiled"
			})
			if got != "compiled" {
				w.Fail(Failure{What: "a grammar does not compile", Grammar: gt, Expected: "compiled", Got: got})
				continue
			}
			w.Case("print")
			if len(gm.String()) == 0 {
				w.Fail(Failure{What: "a grammar is not printed", Grammar: gt})
			}
			w.ends(gm, gt, ok, func(string) (bool, bool) { return true, true })
			w.ends(gm, gt, []string{"\xff", "a\xff", rep("b", n+1) + "c", rep("(", n+1), "0,0;"}, nil)
		}
	}
}
