package main

import "fmt"

func init() {
	register("P01", p01,
		"inputs up to the stated length over the stated alphabets; expressions up to the stated depth",
		"Go's regexp engine is taken as the meaning of a regular expression, anchored at the position")
}

func p01(w *W) { pegSuites(w, aAccept) }

// pegSuites is the space of grammars without left recursion.
func pegSuites(w *W, asp aspect) {
	ab4 := strs(chars("ab"), w.Pick(4, 6))

	// every expression of depth <= 2 over these atoms, for two values of X
	atoms := []*E{Str("a"), Cls("ab"), Rgx("b?"), Str("ab"), Ref("X")}
	if w.Thorough() {
		atoms = append(atoms, Str(""), Rgx("a+"))
	}
	l1 := grow(atoms, unaries, binaries)
	w.Suite("depth2", fmt.Sprintf("entry bodies: all expressions of depth<=2 over %d atoms, 7 unary and 4 binary operators; X in {'b', 'a'?}; inputs {a,b}^<=%d", len(atoms), w.Pick(4, 6)))
	xs := []*Rule{{Name: "X", Body: Str("b")}, {Name: "X", Body: Opt(Str("a")), Node: true}}
	nx := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		nx++
		if !w.Unit() {
			return
		}
		x := xs[nx%2]
		w.cmp(NewG(&Rule{Name: "S", Body: mk()}, x), ab4, asp)
	})

	// sequences and choices of three
	l1s := dedup(append(append([]*E{}, atoms...), grow([]*E{Str("a"), Str("b"), Ref("X")}, unaries, nil)...))
	w.Suite("triples", fmt.Sprintf("a b c, a | b | c, (a|b) c, (a b | c)* over %d operands; inputs {a,b}^<=4", len(l1s)))
	for _, a := range l1s {
		for _, b := range l1s {
			for _, c := range l1s {
				for f := 0; f < 4; f++ {
					if !w.Unit() {
						continue
					}
					var e *E
					switch f {
					case 0:
						e = Seq(a, b, c)
					case 1:
						e = Alt(a, b, c)
					case 2:
						e = Seq(Alt(a, b), c)
					case 3:
						e = Star(Alt(Seq(a, b), c))
					}
					w.cmp(NewG(&Rule{Name: "S", Body: e}, xs[0]), ab4, asp)
				}
			}
		}
	}

	// three rules calling each other
	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	ins := strs(chars("ab"), 4)
	w.Suite("rules3", fmt.Sprintf("S, A, B: all triples of %d bodies without left recursion; inputs {a,b}^<=4", len(bodies)))
	for i, s := range bodies {
		for k, a := range bodies {
			for l, b := range bodies {
				if !w.Unit() {
					continue
				}
				g := NewG(&Rule{Name: "S", Body: s, Node: i%2 == 0}, &Rule{Name: "A", Body: a, Node: k%2 == 1}, &Rule{Name: "B", Body: b, Node: l%3 == 0})
				if g.LeftRecursive() {
					w.Outcome("left-recursive, not here")
					continue
				}
				w.cmp(g, ins, asp)
			}
		}
	}

	// ranks of ranks
	alts := []*E{Str("a"), Str("ab"), Seq(Str("a"), Ref("X")), Star(Str("a")), Opt(Str("b")), Seq(Not(Str("b")), Cls("ab"))}
	w.Suite("ranks", "entry = rank of 2 nested ranks of 2 lines, 6 bodies each; followed by an optional rest")
	tuples(len(alts), 4, func(ix []int) {
		for v := 0; v < 2; v++ {
			if !w.Unit() {
				continue
			}
			r1 := &Rule{Name: "R1", Rank: []*Rule{{Name: "", Body: alts[ix[0]]}, {Name: "N", Body: alts[ix[1]], Node: true}}}
			r2 := &Rule{Name: "R2", Node: v == 1, Rank: []*Rule{{Name: "M", Body: alts[ix[2]]}, {Name: "", Body: alts[ix[3]]}}}
			top := &Rule{Name: "T", Rank: []*Rule{r1, r2}}
			s := &Rule{Name: "S", Body: Seq(Ref("T"), Opt(Ref("R2")), Star(Ref("N")))}
			w.cmp(NewG(s, top, &Rule{Name: "X", Body: Str("b")}), ab4, asp)
		}
	})

	regexSuite(w, asp)
	scaleSuite(w, asp)
	bytesSuite(w, asp)
	rawSuite(w, asp)
	bigSuite(w, asp)
	widthSuite(w, asp, w.Pick(40, 80), w.Pick(9, 11))
	namesSuite(w, 4, w.cmpWith(asp))
	hugeSuite(w, w.Pick(17, 19), deepKinds, w.cmpWith(asp))
	sizesSuite(w, plainKernels(), [3]int{w.Pick(11, 12), w.Pick(11, 13), w.Pick(16, 18)}, w.cmpWith(asp))
}

// each2 enumerates the expressions one level above pool, lazily.
func each2(pool []*E, un []func(*E) *E, bin []func(a, b *E) *E, f func(mk func() *E)) {
	for _, k := range pool {
		k := k
		f(func() *E { return k })
	}
	for _, u := range un {
		for _, k := range pool {
			u, k := u, k
			f(func() *E { return u(k) })
		}
	}
	for _, g := range bin {
		for _, a := range pool {
			for _, b := range pool {
				g, a, b := g, a, b
				f(func() *E { return g(a, b) })
			}
		}
	}
}

// ruleBodies: bodies for multi-rule grammars.
func ruleBodies(refs []string, thorough bool) []*E {
	var at []*E
	at = append(at, Str("a"), Str("b"))
	for _, r := range refs {
		at = append(at, Ref(r))
	}
	var out []*E
	out = append(out, at...)
	for _, x := range at {
		out = append(out, Opt(x), Star(x))
		for _, y := range at {
			out = append(out, Seq(x, y))
			if x.Text() != y.Text() {
				out = append(out, Alt(x, y))
			}
		}
	}
	for _, r := range refs {
		out = append(out, Alt(Seq(Str("a"), Ref(r)), Str("b")), Seq(Not(Ref(r)), Cls("ab")), Seq(Look(Ref(r)), Star(Cls("ab"))), PlusJ(Ref(r), Str("b")))
	}
	if thorough {
		for _, r := range refs {
			out = append(out, Alt(Seq(Str("a"), Ref(r), Str("b")), Str("")), Seq(Opt(Ref(r)), Str("a")), StarJ(Str("a"), Ref(r)), Rep(Ref(r), 1, 2))
		}
	}
	return out
}

// regexSuite: classes, regular expressions and literals over a wider
// alphabet (newlines, several-byte runes, invalid UTF-8, empty matches).
func regexSuite(w *W, asp aspect) {
	at := []*E{
		Cls("a"), Cls("^a"), Cls("a-c"), Cls("^a-cé"), Cls("é世"), Cls(`\n`), Cls(`^\n`), Cls(`\]`), Cls(`\\`),
		Rgx("a*"), Rgx("a*b"), Rgx("(a|b)+"), Rgx("a|ab"), Rgx("[^b]+"), Rgx("."), Rgx(`[\s\S]`), Rgx("b*a?"), Rgx("(a)(b)?"),
		Rgx("a{2}"), Rgx("é"), Rgx("(?i)A"), Rgx("a+?"), Rgx("b$"), Rgx("^a"), Rgx("$"), Rgx(`\bab`), Rgx("[ab]é?"), Rgx("a(b|)"), Rgx("()"), Rgx("x*"), Rgx("(?s).+"),
		Rgx("ab|a\n"), Rgx("(?m)^b"), Rgx("(?m)a$"),
		Str("é"), Str("\n"), Str("aé"), Str(""), Str("'"), Str(`\`), Str("ab"),
	}
	ins := strs([]string{"a", "b", "é", "\n"}, w.Pick(3, 4))
	ins = append(ins, "世", "a世", "世a", "c", "A", "aA", "]", `\`, "'", "a'", "\xff", "a\xff", "\xffa", "é\xff", "\xc3", "\xc3a", "aa\xe4\xb8", "\x00", "a\x00b", "\uFFFD", "a\uFFFDb", "abab", "aaaab", "ab\nab", "a\r\nb", "\t")
	w.Suite("regex", fmt.Sprintf("one and two of %d character-level elements, in 5 contexts; %d inputs over {a, b, é, newline} and special bytes", len(at), len(ins)))
	for _, a := range at {
		for f := 0; f < 5; f++ {
			if !w.Unit() {
				continue
			}
			var e *E
			switch f {
			case 0:
				e = a
			case 1:
				e = Star(a)
			case 2:
				e = Seq(Opt(a), Rgx("(?s).*"))
			case 3:
				e = Seq(Not(a), Rgx("(?s).*"))
			case 4:
				e = StarJ(Rgx("(?s)."), a)
			}
			w.cmp(NewG(&Rule{Name: "S", Body: e}), ins, asp)
		}
		for _, b := range at {
			for f := 0; f < 3; f++ {
				if !w.Unit() {
					continue
				}
				if f == 0 {
					w.cmp(NewG(&Rule{Name: "S", Body: Seq(a, b)}), ins, asp)
				} else if f == 2 {
					w.cmp(NewG(&Rule{Name: "S", Body: Seq(Star(Cls("ab")), Alt(a, b))}), ins, asp)
				} else {
					w.cmp(NewG(&Rule{Name: "S", Body: Star(Alt(a, Ref("B")))}, &Rule{Name: "B", Body: b}), ins, asp)
				}
			}
		}
	}
}

// scaleSuite: parametric families, every size up to a bound.
func scaleSuite(w *W, asp aspect) {
	N := w.Pick(80, 200)
	w.Suite("scale", fmt.Sprintf("13 families of grammars, every size 1..%d", N))
	lit := func(i int) string { return fmt.Sprintf("%c%d;", 'a'+i%26, i) }
	name := func(i int) string { return fmt.Sprintf("R%c%d", 'a'+i%26, i) }
	for n := 1; n <= N; n++ {
		// n alternatives in a choice
		if w.Unit() {
			var k []*E
			var ins []string
			for i := 0; i < n; i++ {
				k = append(k, Str(lit(i)))
				ins = append(ins, lit(i), lit(i)[:len(lit(i))-1])
			}
			ins = append(ins, "", "zz", lit(n))
			w.cmp(NewG(&Rule{Name: "S", Body: altOr1(k)}), ins, asp)
		}
		// n elements in a sequence; every prefix and every single substitution
		if w.Unit() {
			var k []*E
			all := ""
			var ins []string
			for i := 0; i < n; i++ {
				ins = append(ins, all, all+"!")
				k = append(k, Cls("a-z"))
				all += string(rune('a' + i%26))
			}
			ins = append(ins, all, all+"a")
			for i := 0; i < n; i++ {
				ins = append(ins, all[:i]+"!"+all[i+1:])
			}
			w.cmp(NewG(&Rule{Name: "S", Body: seqOr1(k)}), ins, asp)
		}
		// chain of n rules
		if w.Unit() {
			rs := []*Rule{}
			for i := 0; i < n; i++ {
				nm := name(i)
				if i == 0 {
					nm = "S"
				}
				if i == n-1 {
					rs = append(rs, &Rule{Name: nm, Body: Cls("ab"), Node: i%3 == 0})
				} else if i%2 == 0 {
					rs = append(rs, &Rule{Name: nm, Body: Alt(Seq(Str("("), Ref(name(i+1)), Str(")")), Ref(name(i+1))), Node: i%3 == 0})
				} else {
					rs = append(rs, &Rule{Name: nm, Body: Ref(name(i + 1))})
				}
			}
			w.cmp(NewG(rs...), []string{"", "a", "b", "c", "(a)", "((b))", "(((a)))", "((a)", "(a))", "ab"}, asp)
		}
		// n sibling rules, each reached by its own letter, in order and reversed
		if w.Unit() {
			rs := []*Rule{{Name: "S"}}
			var k []*E
			var ins []string
			all := ""
			for i := 0; i < n; i++ {
				rs = append(rs, &Rule{Name: name(i), Body: Str(lit(i)), Node: i%2 == 0})
				k = append(k, Ref(name(i)))
				ins = append(ins, lit(i), lit(i)+lit((i+1)%n))
				all += lit(i)
			}
			ins = append(ins, all, all+"!", lit(n))
			rs[0].Body = Star(altOr1(k))
			w.cmp(NewG(rs...), ins, asp)
		}
		// rank of n lines
		if w.Unit() {
			r := &Rule{Name: "R"}
			var ins []string
			for i := 0; i < n; i++ {
				nm := ""
				if i%3 == 1 {
					nm = name(i)
				}
				r.Rank = append(r.Rank, &Rule{Name: nm, Body: Str(lit(i)), Node: nm != ""})
				ins = append(ins, lit(i), lit(i)+lit(0))
			}
			w.cmp(NewG(&Rule{Name: "S", Body: Plus(Ref("R"))}, r), append(ins, "", "?"), asp)
		}
		// nested parentheses: n groups in the text of the rule
		if w.Unit() {
			e := Cls("a")
			for i := 0; i < min(n, 24); i++ {
				switch i % 4 {
				case 0:
					e = Seq(e, Opt(Str("b")))
				case 1:
					e = Alt(e, Str("c"))
				case 2:
					e = Opt(e)
				case 3:
					e = Seq(Str("d"), e)
				}
			}
			w.cmp(NewG(&Rule{Name: "S", Body: e}), append(strs(chars("abd"), 3), rep("d", n/4)+"ab", rep("d", n/4)+"abb", rep("d", n/4)+"c"), asp)
		}
		// recursion n deep
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: Alt(Seq(Str("("), Ref("S"), Str(")")), Str("x")), Node: true})
			w.cmp(g, []string{rep("(", n) + "x" + rep(")", n), rep("(", n) + "x" + rep(")", n-1), rep("(", n-1) + "x" + rep(")", n), rep("(", n)}, asp)
		}
		// repetitions of n items
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: Seq(StarJ(Ref("V"), Ref("J")), Opt(Str("!")))}, &Rule{Name: "V", Body: Cls("ab"), Node: true}, &Rule{Name: "J", Body: Plus(Str(","))})
			l := rep("a,b,,", n)
			w.cmp(g, []string{l, l[:len(l)-2], l + "a", l + "!", l[:len(l)-2] + "!", rep("a,", n) + "b", rep("ab", n)}, asp)
		}
		// bounds of n
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: Seq(Rep(Str("a"), n, n+1), Opt(Str("b")))})
			w.cmp(g, []string{rep("a", n-1), rep("a", n), rep("a", n+1), rep("a", n+2), rep("a", n) + "b", rep("a", n-1) + "b", rep("a", n+1) + "b"}, asp)
		}
		// long common prefixes: backtracking over n characters
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: Alt(Seq(Plus(Ref("C")), Str("!")), Seq(Plus(Ref("C")), Str("?")), Seq(Look(Seq(Star(Ref("C")), Str("."))), Star(Ref("C")), Rgx("[.]")), Not(Ref("C")))}, &Rule{Name: "C", Body: Cls("a-z"), Node: true})
			w.cmp(g, []string{rep("a", n) + "!", rep("a", n) + "?", rep("a", n) + ".", rep("a", n), rep("a", n) + "!!", ""}, asp)
		}
		// literals of n characters
		if w.Unit() {
			l := rep("aé'\\", n)[:]
			g := NewG(&Rule{Name: "S", Body: Seq(Opt(Ref("L")), Rgx("(?s).*"))}, &Rule{Name: "L", Body: Str(l), Node: true})
			w.cmp(g, []string{l, l + "x", l[:len(l)-1], "x" + l, l + l}, asp)
		}
		// n lines of text
		if w.Unit() {
			g := NewG(&Rule{Name: "S", Body: StarJ(Ref("L"), Str("\n"))}, &Rule{Name: "L", Body: Seq(Rgx("[a-z]*"), Opt(Seq(Str("="), Ref("N")))), Node: true}, &Rule{Name: "N", Body: Rgx("[0-9]+"), Node: true})
			l := rep("ab=12\n", n)
			w.cmp(g, []string{l, l + "c=", l + "c=1", l + "\n\n!", l[:len(l)-1]}, asp)
		}
		// labels l0 .. ln in a sequence
		if w.Unit() {
			var k []*E
			for i := 0; i < n; i++ {
				if i%3 == 2 {
					k = append(k, Cls("a"))
				} else {
					k = append(k, Lab(fmt.Sprintf("%c%d", 'z'-i%26, i), Opt(Cls("b"))))
				}
			}
			in := rep("bba", n)[:n]
			w.cmp(NewG(&Rule{Name: "S", Body: seqOr1(k)}), []string{in, rep("a", n/3), "b", in + "b"}, asp)
		}
	}
}

func altOr1(k []*E) *E {
	if len(k) == 1 {
		return k[0]
	}
	return Alt(k...)
}

func seqOr1(k []*E) *E {
	if len(k) == 1 {
		return k[0]
	}
	return Seq(k...)
}
