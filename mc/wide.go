package main

// Every character, and sizes around powers of two: suites shared by several
// properties.

import (
	"fmt"
	"strings"
)

// everyChar: the ASCII characters and some others, each standing for itself.
func everyChar() []string {
	var cs []string
	for c := 0; c < 128; c++ {
		cs = append(cs, string(rune(c)))
	}
	return append(cs, "\u0080", "\u0085", "\u00a0", "é", "ÿ", "߿", "ࠀ", "\u2028", "\u2029", "\ufeff", "\uffff", "世", "\U00010000", "😀", "\U0010ffff", "ſ", "K", "\u0301")
}

// shortTexts: short texts that mean something to a printing, replacing or
// matching function.
func shortTexts() []string {
	return []string{"%", "%d", "%s", "%v", "%%", "%!", "%[1]s", "%-5d", "%1$s", "$1", "${a}", "$$", "\\1", "\r\n", "\n\r", "\r\r", "a\u0301", "\\n", "\\\\", "\\", "\\u00e9", "\x00\x00", "{}", "{0}", "<nil>", "nil", "<NativeUndefined>", "null", "&amp;", "\t\t", "  ", " \n ", "'", "''", "\"", "`", "/*", "//", "#", ",", ":", "%20", "+", "0x", "..", "...", "世界", "\u202e", "\u200b", "\ufeff\ufeff", "\ufffd"}
}

// charTexts: texts over a character and a companion.
func charTexts(c string, n int) (x string, ts []string) {
	x = "a"
	if c == "a" {
		x = "b"
	}
	return x, strs([]string{c, x}, n)
}

// bytesSuite: every character as literal, in a class, in a regular expression
// and as what is left.
func bytesSuite(w *W, asp aspect) {
	n := w.Pick(4, 6)
	w.Suite("characters", fmt.Sprintf("%d characters, in 8 grammars; all texts of <=%d of the character and another one, with line ends in front and behind", len(everyChar()), n))
	for _, c := range everyChar() {
		x, ins := charTexts(c, n)
		ins = append(ins, c+"\n"+c, "\n"+c+c, "\\"+c, c+"\\", "\r\n"+c, c+c+"\t"+c)
		cls := Rgx(fmt.Sprintf(`[\x{%x}]`, []rune(c)[0]))
		ncls := Rgx(fmt.Sprintf(`[^\x{%x}]`, []rune(c)[0]))
		lit := Str(c)
		for f := 0; f < 8; f++ {
			if !w.Unit() {
				continue
			}
			rs := []*Rule{{Name: "S"}, {Name: "X", Body: Str(x), Node: true}, {Name: "C", Body: lit, Node: true}, {Name: "_C", Body: lit}, {Name: "P", Body: Seq(Opt(lit), lit, lit)}}
			var e *E
			switch f {
			case 0:
				e = Seq(lit, Opt(Lab("l", lit)))
			case 1:
				e = StarJ(Ref("X"), lit)
			case 2:
				e = Star(Alt(Seq(Ref("C"), Ref("X")), cls))
			case 3:
				e = Seq(Star(Seq(Not(lit), Rgx("(?s)."))), Lab("c", Opt(Ref("C"))), Rgx("(?s).*"))
			case 4:
				e = Alt(Seq(Str(c+c), ncls), Seq(Plus(Ref("_C")), Str(x)), Str(x+c), Str(c+x+c))
			case 5:
				e = Star(Alt(ncls, Str(c+c), Seq(Look(Ref("C")), cls)))
			case 6:
				e = Seq(Opt(Ref("P")), Plus(Alt(Ref("C"), Ref("X"))))
			case 7:
				e = Seq(Rep(Alt(lit, Str(x)), -1, 2), StarJ(cls, Ref("X")), Opt(Str(x)))
			}
			rs[0].Body = e
			w.cmp(NewG(rs...), ins, asp)
		}
	}
}

// rawSuite: literals and texts that are not UTF-8.
func rawSuite(w *W, asp aspect) {
	pieces := []string{"\xff", "\uFFFD", "\xef", "\xbf\xbd", "\xc3", "é", "a"}
	n := w.Pick(3, 4)
	w.Suite("raw", fmt.Sprintf("a literal of one or two out of %q, alone, negated, ahead, optional, repeated, joined, captured, and as last of 2 to 17 alternatives; all texts of <=%d of these", pieces, n))
	ins := strs(pieces, n)
	lits := strs(pieces, 2)
	any := Rgx("(?s).")
	for _, l := range lits {
		if l == "" {
			continue
		}
		lit := Str(l)
		var es []*E
		es = append(es,
			Seq(lit, Star(any)),
			Star(Seq(Not(lit), any)),
			Seq(Not(Seq(lit, lit)), Look(lit), Star(any)),
			Seq(Opt(lit), Opt(Seq(any, lit)), Star(any)),
			Seq(StarJ(any, lit), Opt(any)),
			Seq(Star(Alt(Ref("C"), Str("a"))), Star(any)),
			Seq(Not(Ref("C")), any, Star(Ref("C"))),
		)
		for _, k := range []int{1, 3, 4, 5, 7, 8, 9, 16} {
			var as []*E
			for i := 0; i < k; i++ {
				as = append(as, Str(string(rune('k'+i))))
			}
			es = append(es, Star(Alt(append(as, lit, Seq(Str("a"), Opt(lit)))...)))
		}
		for _, e := range es {
			if w.Unit() {
				w.cmp(NewG(&Rule{Name: "S", Body: e}, &Rule{Name: "C", Body: lit, Node: true}), ins, asp)
			}
		}
	}
}

// around lists the numbers within d of a power of two, from 2^a to 2^b.
func around(a, b, d int) []int {
	var ns []int
	for k := a; k <= b; k++ {
		for i := -d; i <= d; i++ {
			ns = append(ns, 1<<k+i)
		}
	}
	return ns
}

// bigSuite: inputs whose size lies around a power of two.
func bigSuite(w *W, asp aspect) {
	top := w.Pick(13, 16)
	w.Suite("big", fmt.Sprintf("inputs of 2^k-1, 2^k and 2^k+1 bytes, k = 5..%d, matched by one regular expression, one literal, a repetition, a choice, after and before long stretches of text", top))
	for _, n := range around(5, top, 1) {
		as := rep("a", n)
		es := rep("é", n/2) + rep("a", n%2)
		ls := rep("ab\n", n/3) + rep("\n", n%3)
		for f := 0; f < 8; f++ {
			if f == 3 && n > 10000 || !w.Unit() {
				continue
			}
			rs := []*Rule{{Name: "S"}, {Name: "R", Body: Rgx("a*"), Node: true}, {Name: "L", Body: Str(as), Node: true}, {Name: "A", Body: Cls("ab"), Node: true}, {Name: "T", Body: Rgx("[^!?]*")}}
			ins := []string{as, as + "!", as + "b", "b" + as, as[1:], as[1:] + "b", es, es + "!", ls, ls + "!", ls + "!" + as}
			var e *E
			switch f {
			case 0:
				e = Seq(Ref("R"), Lab("x", Opt(Str("!"))))
			case 1:
				e = Alt(Seq(Ref("L"), Str("!")), Ref("L"), Seq(Str("b"), Ref("L")))
			case 2:
				e = Seq(Ref("T"), Str("!"), Ref("R"))
			case 3:
				e = Seq(Star(Ref("A")), Opt(Str("!")))
			case 4:
				e = Star(Alt(Seq(Ref("T"), Str("?")), Seq(Look(Seq(Ref("T"), Str("!"))), Ref("T"), Rgx("!+")), Ref("T")))
			case 5:
				e = Rgx("(?s).*")
			case 6:
				e = Seq(Not(Seq(Rgx("(é|a)+"), Str("!"))), Rgx(`[a-zé]*`), Rgx(`\n*`), Rgx(`(ab\n)*!?`))
			case 7:
				e = StarJ(Rgx("[ab]+"), Rgx(`\n`))
				ins = []string{ls[:len(ls)-1], rep("a", n) + "\n" + rep("b", n), strings.TrimRight(ls, "\n"), as}
				if n > 10000 {
					ins = ins[1:2]
				}
			}
			rs[0].Body = e
			w.cmp(NewG(rs...), ins, asp)
		}
	}
}

// kernel: a small grammar, its first rule being S, and inputs.
type kernel struct {
	rules func() []*Rule
	ins   []string
}

func plainKernels() []kernel {
	nd := func(name string, e *E) *Rule { return &Rule{Name: name, Body: e, Node: true} }
	ru := func(name string, e *E) *Rule { return &Rule{Name: name, Body: e} }
	return []kernel{
		{func() []*Rule {
			return []*Rule{ru("S", Alt(Seq(Ref("X"), Str("!")), Seq(Ref("X"), Str("?")), Seq(Ref("X"), Star(Ref("Y"))))), ru("X", Seq(Str("a"), Opt(Ref("Y")))), nd("Y", Cls("ab"))}
		}, []string{"a", "ab!", "aa?", "abab", "b", "abc", "aab?", "a!"}},
		{func() []*Rule {
			return []*Rule{nd("S", Seq(Lab("l", StarJ(Ref("X"), Str(","))), Lab("r", Opt(Ref("_E"))))), ru("X", Seq(Not(Ref("Y")), Rgx("[a-z]+"))), ru("Y", Seq(Str("if"), Not(Cls("a-z")))), ru("_E", Star(Str(";")))}
		}, []string{"a,b", "a,if", "iff,a;;", "if", "a,,b", "a,b;c"}},
		{func() []*Rule {
			return []*Rule{ru("S", Star(Ref("T"))), {Name: "T", Rank: []*Rule{nd("A", Seq(Str("a"), Ref("U"))), {Name: "", Body: Seq(Lab("b", Str("b")), Lab("u", Opt(Ref("U"))))}, {Name: "C", Body: Str("c")}}}, {Name: "U", Body: Alt(Seq(Look(Ref("V")), Rgx(".")), Seq(Ref("V"), Opt(Ref("V"))))}, ru("V", Rep(Str("d"), 2, 3))}
		}, []string{"addbcc", "addd", "bddaddc", "ad", "bdddd", "cbad", "c"}},
	}
}

func recursiveKernels() []kernel {
	nd := func(name string, e *E) *Rule { return &Rule{Name: name, Body: e, Node: true} }
	ru := func(name string, e *E) *Rule { return &Rule{Name: name, Body: e} }
	ex := []string{"1", "1+2", "1+2+3", "1+2+3+4", "1+", "1++2", "+", "1+2+"}
	return []kernel{
		{func() []*Rule {
			return []*Rule{nd("S", Alt(Seq(Ref("S"), Str("+"), Ref("N")), Ref("N"))), nd("N", Cls("0-9"))}
		}, ex},
		{func() []*Rule {
			return []*Rule{ru("S", Ref("E")), nd("E", Alt(Seq(Ref("F"), Str("+"), Ref("N")), Ref("N"))), ru("F", Ref("E")), nd("N", Cls("0-9"))}
		}, ex},
		{func() []*Rule {
			return []*Rule{ru("S", Ref("E")), nd("F", Alt(Seq(Ref("E"), Str("+")), Seq(Ref("G"), Str("-")))), ru("G", Alt(Ref("E"), Seq(Str("("), Ref("E"), Str(")")))), nd("E", Alt(Seq(Ref("F"), Ref("N")), Seq(Ref("G"), Str("!")), Ref("N"))), nd("N", Cls("0-9"))}
		}, append([]string{"1!", "1+2!-3", "1-2", "1-2!+3-4", "(1)-2", "1!!", "1-", "1!+"}, ex...)},
		{func() []*Rule {
			return []*Rule{{Name: "S", Rank: []*Rule{nd("Call", Seq(Ref("P"), Str("("), Ref("_w"), Str(")"))), nd("Mem", Seq(Ref("P"), Str("."), Ref("I"))), {Name: "", Body: Ref("I")}}}, ru("P", Seq(Ref("_w"), Ref("S"))), ru("_w", Star(Str(" "))), nd("I", Rgx("[a-z]+"))}
		}, []string{"a", "a.b", "a()", " a.b", "a.b().c", "a.b( ).c.d()", "a.", "a(", "a.b(.c"}},
		{func() []*Rule {
			return []*Rule{nd("S", Alt(Seq(Ref("S"), Str("+"), Ref("T")), Ref("T"))), nd("T", Alt(Seq(Ref("T"), Str("*"), Ref("N")), Ref("N"))), nd("N", Cls("0-9"))}
		}, append([]string{"1*2", "1+2*3", "1*2+3", "1*2*3+4*5", "1*2+3*4+5", "1*"}, ex...)},
	}
}

// sizesSuite: the same small grammars among many rules, nested deeply, and far
// in the text.
func sizesSuite(w *W, ks []kernel, tops [3]int, do func(g *G, ins []string)) {
	w.Suite("sizes", fmt.Sprintf("%d grammars of 2 to 5 rules among 2^k-1, 2^k, 2^k+1 inert rules up to 2^%d (before, after and between), nested that many times up to 2^%d, and after that many characters or lines up to 2^%d", len(ks), tops[0], tops[1], tops[2]))
	pad := func(k, n int) []*Rule {
		var rs []*Rule
		for i := 0; i < n; i++ {
			rs = append(rs, &Rule{Name: fmt.Sprintf("Pad%d.%d", k, i), Body: Str("a"), Node: i%2 == 0})
		}
		return rs
	}
	for _, k := range ks {
		for _, n := range around(2, tops[0], 1) {
			for where := 0; where < 3; where++ {
				if !w.Unit() {
					continue
				}
				rs := k.rules()
				out := rs[:1:1]
				if where == 0 {
					out = append(out, pad(0, n)...)
				}
				for i, r := range rs[1:] {
					if where == 2 {
						out = append(out, pad(i, n/(len(rs)-1))...)
					}
					out = append(out, r)
				}
				if where > 0 {
					out = append(out, pad(9, n)...)
				}
				do(NewG(out...), k.ins)
			}
		}
		for _, n := range around(2, tops[1], 1) {
			for how := 0; how < 2; how++ {
				if !w.Unit() {
					continue
				}
				nest := &Rule{Name: "Nest", Body: Alt(Seq(Str("{"), Ref("Nest"), Str("}")), Ref("S")), Node: true}
				if how == 1 {
					nest = &Rule{Name: "Nest", Rank: []*Rule{{Name: "In", Body: Seq(Str("{"), Ref("Mid"), Opt(Str(";")), Str("}"))}, {Name: "", Body: Ref("S")}}}
				}
				rs := append([]*Rule{nest}, k.rules()...)
				if how == 1 {
					rs = append(rs, &Rule{Name: "Mid", Body: Seq(Not(Str("}")), Ref("Nest")), Node: true})
				}
				var ins []string
				for _, in := range k.ins {
					ins = append(ins, rep("{", n)+in+rep("}", n))
				}
				ins = append(ins, rep("{", n)+k.ins[0]+rep("}", n-1), rep("{", n))
				do(NewG(rs...), ins)
			}
		}
		for _, n := range around(2, tops[2], 1) {
			for how := 0; how < 4; how++ {
				if !w.Unit() {
					continue
				}
				fill := []string{"#", "\n"}[how%2]
				rs := append([]*Rule{{Name: "Far", Body: Seq(Ref("_fill"), Lab("s", Ref("S"))), Node: true}, {Name: "_fill", Body: Rgx(`[#\n]*`)}}, k.rules()...)
				if how >= 2 { // fails when S ends early
					rs[0].Body = Alt(Seq(Ref("_fill"), Lab("s", Ref("S")), Str("#")), Seq(Rgx("#*"), Str("\n")))
				}
				var ins []string
				for i := range k.ins {
					if n > 2000 && i >= 3 {
						break
					}
					in := rep(fill, n) + k.ins[(i+n)%len(k.ins)]
					if how >= 2 && i%2 == 0 {
						in += fill
					}
					ins = append(ins, in)
				}
				do(NewG(rs...), ins)
			}
		}
	}
}

// cmpWith compares with the model.
func (w *W) cmpWith(asp aspect) func(g *G, ins []string) {
	return func(g *G, ins []string) { w.cmp(g, ins, asp) }
}

// flat makes every rank a choice of rules.
func (g *G) flat() *G {
	var out []*Rule
	n := 0
	var add func(r *Rule) *Rule
	add = func(r *Rule) *Rule {
		c := &Rule{Name: r.Name, Body: r.Body, Node: r.Node}
		if c.Name == "" {
			n++
			c.Name = fmt.Sprintf("Alt%d", n)
		}
		out = append(out, c)
		if r.Rank != nil {
			var ks []*E
			for _, k := range r.Rank {
				ks = append(ks, Ref(add(k).Name))
			}
			c.Body = altOr1(ks)
		}
		return c
	}
	for _, r := range g.Rules {
		add(r)
	}
	return NewG(out...)
}

// allNodes makes every named rule build a node.
func (g *G) allNodes() *G {
	for _, r := range g.allRules() {
		if r.Name != "" {
			r.Node = true
		}
	}
	return g
}

const (
	flatKinds = 5
	deepKinds = 6
	allKinds  = 8
)

// hugeSuite: texts of more than 2^15 to 2^top places where rules match. The first
// flatKinds grammars are neither deep nor left-recursive.
func hugeSuite(w *W, top, kinds int, do func(g *G, ins []string)) {
	var ns []int
	for k := 15; k <= top; k++ {
		ns = append(ns, 1<<k+60)
	}
	w.Suite("huge", fmt.Sprintf("texts of %v bytes made of short lines, words or items, each matched by a rule: %d grammars", ns, kinds))
	for _, n := range ns {
		for f := 0; f < kinds; f++ {
			if f == 7 && n > 1<<17 || !w.Unit() {
				continue
			}
			var rs []*Rule
			var ins []string
			switch f {
			case 0, 1, 2: // lines of one, three or no letters
				rs = []*Rule{{Name: "S", Body: Seq(Star(Ref("L")), Lab("e", Opt(Str("."))))}, {Name: "L", Body: Seq(Ref("W"), Str("\n")), Node: true}, {Name: "W", Body: Star(Str("a"))}}
				l := []string{"a\n", "aaa\n", "\n"}[f]
				t := rep(l, n/len(l))
				ins = []string{t, t + "a", t + "."}
			case 3: // words on lines of different lengths
				rs = []*Rule{{Name: "S", Body: StarJ(Ref("W"), Ref("_"))}, {Name: "W", Body: Alt(Seq(Str("é"), Str("b")), Seq(Str("é"), Opt(Str("c")))), Node: true}, {Name: "_", Body: Plus(Alt(Str(" "), Str("\n")))}}
				var b strings.Builder
				for i := 0; b.Len() < n; i++ {
					b.WriteString([]string{"é ", "éb\n", "éc  ", "éb "}[(i+i/7)%4])
				}
				b.WriteString("é")
				ins = []string{b.String(), b.String() + "x"}
			case 4:
				rs = []*Rule{{Name: "S", Body: Star(Ref("X"))}, {Name: "X", Rank: []*Rule{{Name: "A", Body: Seq(Ref("D"), Str("!"))}, {Name: "B", Body: Seq(Ref("D"), Str("?")), Node: true}, {Name: "", Body: Lab("c", Ref("D"))}}}, {Name: "D", Body: Str("d")}}
				ins = []string{rep("dd!d?", n/5), rep("d", n) + "?", rep("d!", n/2) + "!"}
			case 5: // deep
				m := 1<<13 + 30
				if n > 1<<16 {
					m = 1<<14 + 30
				}
				rs = []*Rule{{Name: "S", Body: Star(Ref("T"))}, {Name: "T", Body: Alt(Seq(Str("a"), Opt(Ref("T")), Str("b")), Str("c")), Node: true}}
				ins = []string{rep("c", n) + rep("a", m) + rep("b", m), rep("a", m) + rep("b", m-1) + rep("c", n-m)}
			case 6:
				rs = []*Rule{{Name: "S", Body: Star(Ref("R"))}, {Name: "R", Body: Alt(Seq(Ref("E"), Str(";\n")), Seq(Ref("E"), Str(";")))}, {Name: "E", Body: Alt(Seq(Ref("E"), Str("+"), Ref("N")), Ref("N"))}, {Name: "N", Body: Str("1"), Node: true}}
				ins = []string{rep("1+1;1;\n1;", n/9), rep("1+1+1;\n", n/7) + "1+"}
			case 7: // a rule that grows that many times
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref("S"), Str("+"), Ref("N")), Ref("N")), Node: true}, {Name: "N", Body: Alt(Str("1"), Seq(Str("-"), Ref("N")))}}
				ins = []string{"1" + rep("+1", n/2), "1" + rep("+1", n/2) + "+"}
			}
			do(NewG(rs...), ins)
		}
	}
}

// nameList: names of rules and labels: all single characters, pairs, words that
// mean something to some part of the library, names alike.
func nameList() []string {
	var ns []string
	first := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_."
	for _, c := range first {
		ns = append(ns, string(c))
	}
	for _, a := range "aZ_." {
		for _, b := range "bYa_.079" {
			ns = append(ns, string(a)+string(b), string(a)+string(b)+"_", string(a)+string(b)+string(a))
		}
	}
	return append(ns, "__rank__", "undefined", "nil", "null", "func", "type", "map", "true", "expr", "label", "origin", "EXPR", "CHOICE", "START", "EOL", "value", "join", "min", "max", "parser", "it", "key", "self", "toString", "constructor", "__proto__", "length", "keys", "gnode", "Start", "End", "x1", "x10", "x2", "x_1", "X1", "a.b", "a.b.c", "..", "_._", "aB", "Ab", "AB", "ab_", "_ab", "__ab", "A_B", "a1", "a01", "a"+rep("b", 40))
}

// namesSuite: rules and labels of every name.
func namesSuite(w *W, n int, do func(g *G, ins []string)) {
	ns := nameList()
	w.Suite("names", fmt.Sprintf("%d names as label, rule, referenced rule, rule with a node, rank, next to names that are alike (upper, lower case, with _, . or 1 in front or behind, doubled); all inputs {a,b}^<=%d", len(ns), n))
	ins := strs(chars("ab"), n)
	a, b := Str("a"), Cls("ab")
	for _, n := range ns {
		if !w.Unit() {
			continue
		}
		alike := map[string]bool{n: true}
		for _, m := range []string{strings.ToUpper(n), strings.ToLower(n), n + "_", "_" + n, n + ".", "." + n, n + "1", n + n, n + "S", "L" + n, n[:1], strings.TrimRight(n, "_"), strings.TrimLeft(n, "_")} {
			if m == "" || m[0] >= '0' && m[0] <= '9' || alike[m] && m != n {
				continue
			}
			alike[m] = true
			for _, e := range []*E{
				Seq(Lab(n, a), Lab(m, Opt(b))),
				Seq(Opt(Lab(m, a)), b, Opt(Lab(n, a))),
				Seq(Lab(n, Star(Seq(Lab(m, a), Str("b")))), Star(b)),
			} {
				do(NewG(&Rule{Name: "START", Body: e}), ins)
			}
			if m == n || m == "START" || n == "START" {
				continue
			}
			for v := 0; v < 3; v++ {
				rs := []*Rule{{Name: "START", Body: Seq(Ref(n), Star(Ref(m)), Lab("l", Opt(Ref(n))))}, {Name: n, Body: a, Node: v != 1}, {Name: m, Body: b, Node: v == 2}}
				if v == 2 {
					rs[0].Body = Seq(Lab(n, Ref(m)), Lab(m, Opt(Ref(n))), Star(b))
				}
				do(NewG(rs...), ins)
			}
		}
		if n != "START" {
			do(NewG(&Rule{Name: "START", Body: Star(Ref(n))}, &Rule{Name: n, Rank: []*Rule{{Name: "Q11", Body: Seq(a, Lab(n, Ref("R11"))), Node: true}, {Name: "R11", Body: b}}}), ins)
			do(NewG(&Rule{Name: n, Body: Alt(Seq(Ref(n), Str("b")), a), Node: true}), ins)
		}
	}
}
