package main

import "fmt"

func init() {
	register("P04", p04, "2- and 3-rule grammars over the stated bodies; inputs {a,b}^<=6; grammars whose left-call graph is irreducible (a cycle entered through several rules) are excluded, as the property states")
}

func p04(w *W) {
	lr := func(g *G, ins []string) {
		if !g.LeftRecursive() {
			w.Outcome("not left-recursive")
			return
		}
		if !g.SingleEntry() {
			w.Outcome("several entries, not claimed")
			return
		}
		w.cmp(g, ins, aAccept|aTree)
	}
	// E: alternatives of depth 2 over E itself: all small directly recursive rules
	at := []*E{Str("a"), Cls("ab"), Ref("S"), Ref("T")}
	var seqs []*E
	for _, x := range at {
		seqs = append(seqs, x, Opt(x), Star(x))
		for _, y := range at {
			seqs = append(seqs, Seq(x, y), Seq(x, Opt(y)), Seq(x, Star(y)), Seq(Opt(x), y), Seq(Not(x), y), Seq(Look(x), y))
			for _, z := range at {
				seqs = append(seqs, Seq(x, y, z))
			}
		}
	}
	ins := strs(chars("ab"), w.Pick(5, 6))
	w.Suite("direct", fmt.Sprintf("S: x | y over %d sequences of {'a',[ab],S,T}, T: 'b', as text, as prebuilt parsers and as a rank of lines; inputs {a,b}^<=%d", len(seqs), w.Pick(5, 6)))
	for _, x := range seqs {
		for _, y := range seqs {
			if !w.Unit() {
				continue
			}
			lr(NewG(&Rule{Name: "S", Body: Alt(x, y), Node: true}, &Rule{Name: "T", Body: Str("b")}), ins)
			// the same made of compiled parsers
			lr(NewG(&Rule{Name: "S", Body: Alt(x, y), Node: true, Pre: true}, &Rule{Name: "T", Body: Str("b"), Pre: true}), ins)
			// the same as a rank of two lines
			lr(NewG(&Rule{Name: "S", Rank: []*Rule{{Name: "L", Body: x, Node: true}, {Name: "", Body: y}}}, &Rule{Name: "T", Body: Str("b"), Node: true}), ins)
		}
	}
	// three mutually recursive rules
	b3 := lrBodies()
	w.Suite("three", fmt.Sprintf("S, A, B over %d bodies each (every %dth triple)", len(b3), w.Pick(53, 5)))
	step := w.Pick(53, 5)
	c := 0
	in3 := strs(chars("ab"), 5)
	for i, s := range b3 {
		for k, a := range b3 {
			for l, b := range b3 {
				c++
				if c%step != 0 {
					continue
				}
				if !w.Unit() {
					continue
				}
				lr(NewG(&Rule{Name: "S", Body: s, Node: i%2 == 0}, &Rule{Name: "A", Body: a, Node: k%2 == 0}, &Rule{Name: "B", Body: b, Node: l%2 == 0}), in3)
			}
		}
	}
	// two mutually recursive rules with predicates, optionals and repetitions
	var b2 []*E
	a2 := []*E{Str("a"), Cls("ab"), Ref("S"), Ref("A")}
	for _, x := range a2 {
		b2 = append(b2, x)
		for _, y := range a2 {
			b2 = append(b2, Seq(x, y), Alt(x, y), Seq(Not(x), y), Seq(Opt(x), y), Seq(Star(x), y), Seq(x, Opt(y)), PlusJ(x, y))
			for _, z := range a2 {
				b2 = append(b2, Alt(Seq(x, y), z))
				if w.Thorough() {
					b2 = append(b2, Alt(x, Seq(y, z)), Seq(Look(x), y, z))
				}
			}
		}
	}
	w.Suite("two", fmt.Sprintf("S, A over %d bodies each, with predicates, optionals, repetitions and joins", len(b2)))
	for _, s := range b2 {
		for k, a := range b2 {
			if w.Unit() {
				lr(NewG(&Rule{Name: "S", Body: s, Node: true}, &Rule{Name: "A", Body: a, Node: k%2 == 0}), ins)
			}
		}
	}
	namesSuite(w, 4, w.cmpWith(aAccept|aTree))
	hugeSuite(w, w.Pick(17, 18), allKinds, w.cmpWith(aAccept|aTree))
	sizesSuite(w, recursiveKernels(), [3]int{w.Pick(11, 12), w.Pick(11, 13), w.Pick(16, 18)}, w.cmpWith(aAccept|aTree))
	modelBudget = 3000000
	lrFamilies(w)
}

// lrBodies: 121 bodies over S, A, B and literals.
func lrBodies() []*E {
	at := []*E{Str("a"), Str("b"), Ref("S"), Ref("A"), Ref("B")}
	var out []*E
	out = append(out, at...)
	for _, x := range at {
		for _, y := range at {
			out = append(out, Seq(x, y))
			if x.Text() != y.Text() {
				out = append(out, Alt(x, y))
			}
		}
	}
	for _, r := range []*E{Ref("S"), Ref("A"), Ref("B")} {
		for _, x := range at {
			for _, y := range at[:2] {
				out = append(out, Alt(Seq(r, x), y), Alt(Seq(r, y), x))
			}
		}
	}
	return out
}

// lrFamilies: realistic left-recursive grammars, scaled up.
func lrFamilies(w *W) {
	N := w.Pick(40, 120)
	w.Suite("families", fmt.Sprintf("arithmetic with 1..12 precedence levels, postfix chains, recursion through optional prefixes and through chains of 1..%d rules, at many start positions; chains of up to %d operators", N, N))
	num := &Rule{Name: "Num", Body: Rgx("[0-9]+"), Node: true}
	ops := "+-*/%^&~<>=@"
	exprs := func(n int) []string {
		var out []string
		for k := 0; k <= N; k = k*2 + 1 {
			s := "1"
			t := "1"
			for i := 0; i < k; i++ {
				s += string(ops[i%n]) + "2"
				t += string(ops[(n-1)-i%n]) + "3"
			}
			out = append(out, s, t, s+"+", "("+s+")"+string(ops[0])+t)
		}
		return append(out, "", "+", "1", "1+", "1++2", "((1))", "(1+2", "1+(2+(3+4))+5")
	}
	for n := 1; n <= len(ops); n++ {
		for form := 0; form < 3; form++ {
			if !w.Unit() {
				continue
			}
			var rs []*Rule
			for i := 0; i < n; i++ {
				me, next := fmt.Sprintf("E%d", i), fmt.Sprintf("E%d", i+1)
				if i == n-1 {
					next = "P"
				}
				op := Cls(`\` + string(ops[i]))
				switch form {
				case 0:
					rs = append(rs, &Rule{Name: me, Body: Alt(Seq(Ref(me), op, Ref(next)), Ref(next)), Node: true})
				case 1:
					rs = append(rs, &Rule{Name: me, Body: Alt(Seq(Lab("l", Ref(me)), Str(string(ops[i])), Lab("r", Ref(next))), Ref(next)), Node: i%2 == 0})
				case 2:
					rs = append(rs, &Rule{Name: me, Rank: []*Rule{{Name: fmt.Sprintf("B%d", i), Body: Seq(Ref(me), op, Ref(next)), Node: true}, {Name: "", Body: Ref(next)}}})
				}
			}
			rs = append(rs, &Rule{Name: "P", Body: Alt(Seq(Str("("), Ref("E0"), Str(")")), Ref("Num"))}, num)
			w.cmp(NewG(rs...), exprs(n), aAccept|aTree)
		}
	}
	// ambiguous E: E op E | num, and its variants
	for f := 0; f < 6; f++ {
		if !w.Unit() {
			continue
		}
		var s *E
		switch f {
		case 0:
			s = Alt(Seq(Ref("S"), Cls("+-"), Ref("S")), Ref("Num"))
		case 1:
			s = Alt(Seq(Ref("S"), Ref("_"), Cls("+-"), Ref("_"), Ref("S")), Ref("Num"))
		case 2:
			s = Alt(Seq(Opt(Str("-")), Ref("S"), Cls("+-"), Ref("Num")), Ref("Num"))
		case 3:
			s = Alt(Seq(Ref("_"), Ref("S"), Str("+"), Ref("Num")), Ref("Num"))
		case 4:
			s = Alt(Seq(Ref("S"), Str("+"), Ref("S")), Seq(Ref("S"), Str("*"), Ref("S")), Ref("Num"))
		case 5:
			s = Alt(Seq(Ref("S"), Opt(Seq(Str("+"), Ref("S"))), Str(";")), Seq(Ref("S"), Str("+"), Ref("Num")), Ref("Num"))
		}
		var in []string
		for k := 0; k <= 14; k++ {
			t := "1"
			for i := 0; i < k; i++ {
				t += string("+-*;"[i%(1+k%4)]) + "2"
			}
			in = append(in, t, "-"+t, " "+t, t+";")
		}
		in = append(in, strs(chars("1+*"), 5)...)
		w.cmp(NewG(&Rule{Name: "S", Body: s, Node: true}, num, &Rule{Name: "_", Body: Star(Str(" "))}), in, aAccept|aTree)
	}
	// postfix: call, index, member
	if w.Unit() {
		g := NewG(
			&Rule{Name: "P", Rank: []*Rule{
				{Name: "Call", Body: Seq(Ref("P"), Str("("), Lab("args", StarJ(Ref("P"), Str(","))), Str(")")), Node: true},
				{Name: "Idx", Body: Seq(Ref("P"), Str("["), Ref("P"), Str("]")), Node: true},
				{Name: "Mem", Body: Seq(Ref("P"), Str("."), Ref("Id")), Node: true},
				{Name: "", Body: Ref("Id")},
			}},
			&Rule{Name: "Id", Body: Rgx("[a-z]"), Node: true})
		in := []string{"a", "a.b", "a()", "a(b)", "a(b,c)", "a[b]", "a.b.c", "a(b)(c)[d].e", "a(b(c[d.e]).f).g", "a(", "a.b(", "a(b,)", "a[b", "a..b", "a[b](c)[d](e)"}
		s := "a"
		for i := 0; i < N; i++ {
			s += []string{".b", "(c)", "[d]", "(e.f,g)"}[i%4]
			in = append(in, s)
		}
		w.cmp(g, in, aAccept|aTree)
	}
	// indirect recursion through chains of n rules, at several positions
	for n := 1; n <= N; n++ {
		for f := 0; f < 3; f++ {
			if !w.Unit() {
				continue
			}
			nm := func(i int) string {
				if i%n == 0 {
					return "C"
				}
				return fmt.Sprintf("C%c%d", 'a'+i%26, i%n)
			}
			rs := []*Rule{{Name: "S", Body: StarJ(Ref("C"), Str(","))}}
			for i := 0; i < n; i++ {
				var b *E
				switch {
				case i == n-1 && f == 0:
					b = Alt(Seq(Ref(nm(i+1)), Str("a")), Str("b"))
				case i == n-1 && f == 1:
					b = Alt(Seq(Opt(Str("-")), Ref(nm(i+1)), Str("a")), Str("b"))
				case i == n-1:
					b = Alt(Seq(Ref(nm(i+1)), Plus(Str("a"))), Seq(Ref(nm(i+1)), Str("c")), Str("b"))
				case i%3 == 2:
					b = Alt(Ref(nm(i+1)), Str("c"))
				default:
					b = Ref(nm(i + 1))
				}
				rs = append(rs, &Rule{Name: nm(i), Body: b, Node: i%2 == 0})
			}
			in := []string{"", "b", "ba", "baaa", "c", "ca", "b,ba,baa", "ba,ca,baaaa,b", "ab", "-ba", "baca", "bcac," + "baaaaaaaaa", "b,", "baab"}
			w.cmp(NewG(rs...), in, aAccept|aTree)
		}
	}
	// chains of every length, with all kinds of productions
	M := w.Pick(200, 1000)
	sizes := append([]int{}, around(8, w.Pick(11, 13), 1)...)
	for n := 1; n <= M; n++ {
		sizes = append(sizes, n)
	}
	w.Suite("growth", fmt.Sprintf("chains of every length up to %d and of 2^k-1, 2^k, 2^k+1 up to 2^%d steps, in 9 grammars (undefined, string, map, node productions; postfix, infix, indirect, rank)", M, w.Pick(11, 13)))
	for _, n := range sizes {
		for f := 0; f < 9; f++ {
			if !w.Unit() {
				continue
			}
			var rs []*Rule
			in := []string{"b" + rep("a", n), "b" + rep("a", n) + "!", "b" + rep("a\n", n)}
			switch f {
			case 0:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), Str("a")), Str("b"))}}
			case 1:
				rs = []*Rule{{Name: "_S", Body: Alt(Seq(Ref("_S"), Str("a")), Seq(Str("b"), Not(Str("b"))))}}
			case 2:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), Cls("a")), Cls("b"))}}
			case 3:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Lab("l", Ref("S")), Str("a")), Lab("m", Str("b"))), Node: true}}
			case 4:
				rs = []*Rule{{Name: "S", Rank: []*Rule{{Name: "P", Body: Seq(Ref("S"), Rgx(`a\n?`)), Node: true}, {Name: "", Body: Str("b")}}}}
			case 5:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("T"), Str("a"), Opt(Str("\n"))), Str("b"))}, {Name: "T", Body: Alt(Ref("S"), Str("c"))}}
			case 6:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), Str("a"), Ref("U")), Ref("U"))}, {Name: "U", Body: Alt(Seq(Ref("U"), Str("\n")), Opt(Str("b")))}}
			case 7:
				rs = []*Rule{{Name: "D", Body: Seq(Ref("S"), Star(Str("\n")))}, {Name: "S", Body: Alt(Seq(Lab("x", Ref("S")), Lab("y", Opt(Str("c"))), Str("a")), Seq(Look(Str("b")), Str("b")))}}
			case 8:
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), Alt(Str("a"), Str("\n"))), Seq(Opt(Str("b")), Str("")))}}
			}
			w.cmp(NewG(rs...), in, aAccept|aTree)
		}
	}
	// several independent recursive rules
	for n := 1; n <= 12; n++ {
		if !w.Unit() {
			continue
		}
		rs := []*Rule{{Name: "S"}}
		var k []*E
		long := ""
		var in []string
		for i := 0; i < n; i++ {
			c := string(rune('a' + i))
			me := "L" + c
			inner := Str(c)
			var alt *E = Alt(Seq(Ref(me), Str("+"), inner), inner)
			if i > 0 {
				alt = Alt(Seq(Ref(me), Str("+"), inner), Seq(Ref("L"+string(rune('a'+i-1))), Str("!")), inner)
			}
			rs = append(rs, &Rule{Name: me, Body: alt, Node: true})
			k = append(k, Seq(Ref(me), Str(";")))
			for j := 0; j < 4; j++ {
				t := c + rep("+"+c, j)
				in = append(in, t+";", t+"!;", t+"!+b;", t+"!!;")
				long += t + ";"
			}
		}
		rs[0].Body = Star(altOr1(k))
		w.cmp(NewG(rs...), append(in, long, long+"x"), aAccept|aTree)
	}
}
