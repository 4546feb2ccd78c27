package main

// Wide grammars: many alternatives, many elements, many labels, and long
// names, in every position that may matter.

import "fmt"

// widths: every size up to a bound, then those around powers of two and some
// round ones.
func widths(all, top int) []int {
	var ns []int
	for n := 1; n <= all; n++ {
		ns = append(ns, n)
	}
	for _, n := range append(around(3, top, 1), 50, 51, 99, 100, 101, 200) {
		if n > all {
			ns = append(ns, n)
		}
	}
	return ns
}

func widthSuite(w *W, asp aspect, all, top int) {
	lit := func(i int) string { return fmt.Sprintf("%c%d;", 'a'+i%26, i) }
	auxs := func() []*Rule {
		return []*Rule{{Name: "X", Body: Seq(Opt(Str("a")), Str("b"))}, {Name: "N", Body: Opt(Cls("b")), Node: true}, {Name: "_B", Body: Str("b")}, {Name: "Y", Body: Star(Ref("N2")), Node: true}, {Name: "N2", Body: Cls("ab"), Node: true}}
	}
	odd := []*E{
		Str(""), Opt(Str("b")), Star(Cls("b")), Rgx("b*"), Not(Str("b")), Not(Rgx("(?s).")), Look(Str("b")), Ref("N"), Ref("X"), Str("a"), Str("é"), Seq(Str("a"), Opt(Lab("l", Cls("b")))), Lab("m", Ref("_B")), Seq(Ref("N"), Ref("X")), Rgx("$"), Rgx("[^a]+"), Plus(Str("b")), RepJ(Cls("b"), Str("a"), -1, 2), Ref("Y"), Cls("^a-z"), Rgx("a|ab"),
	}
	ns := widths(all, top)
	w.Suite("wide-choice", fmt.Sprintf("one alternative out of %d kinds as the first, middle, last but one and last of n, as a choice, a rank and after a repetition; n = 1..%d and around powers of two up to 2^%d", len(odd), all, top))
	ins := []string{"", "a", "b", "ab", "bb", "é", "aab", "bab", "abb", "aé"}
	for _, n := range ns {
		for oi, o := range odd {
			if n > 70 && oi%3 != n%3 {
				continue
			}
			if !w.Unit() {
				continue
			}
			for where := 0; where < 4; where++ {
				at := []int{0, n / 2, n - 2, n - 1}[where]
				if at < 0 || n > 40 && where != 3-oi%2*2 {
					continue
				}
				var k []*E
				for i := 0; i < n; i++ {
					if i == at {
						k = append(k, o)
					} else {
						k = append(k, Str(lit(i)))
					}
				}
				in := append([]string{lit(0), lit(n - 1), lit(n-1) + "b", lit(at) + "b", "ab" + lit(n/2), lit(n - 1)[:2]}, ins...)
				form := []int{oi, oi + where, n, n + oi}[where] % 3
				rs := []*Rule{{Name: "S"}}
				switch form {
				case 0:
					rs[0].Body = altOr1(k)
				case 1:
					r := &Rule{Name: "R", Node: n%2 == 0}
					for i, x := range k {
						nm := ""
						if i%5 == 1 {
							nm = fmt.Sprintf("R%d", i)
						}
						r.Rank = append(r.Rank, &Rule{Name: nm, Body: x})
					}
					rs[0].Body = Seq(Ref("R"), Opt(Ref("X")))
					rs = append(rs, r)
				case 2:
					rs[0].Body = Seq(Star(Seq(Cls("a"), Not(Str("b")))), Lab("c", Ref("C")), Opt(Str("b")))
					rs = append(rs, &Rule{Name: "C", Body: altOr1(k), Node: n%2 == 1})
				}
				if w.cmp(NewG(append(rs, auxs()...)...), in, asp) {
					break
				}
			}
		}
	}
	// sequences: one special element among n of a family
	type fam struct {
		name string
		el   func(i int) (*E, string) // and the text it matches
	}
	fams := []fam{
		{"labelled", func(i int) (*E, string) { return Lab(fmt.Sprintf("%c%d", 'z'-i%26, i), Cls("a")), "a" }},
		{"captured", func(i int) (*E, string) { return Cls("a"), "a" }},
		{"literals", func(i int) (*E, string) { return Str(lit(i)), lit(i) }},
		{"optional groups of labels", func(i int) (*E, string) {
			return Opt(Seq(Lab(fmt.Sprintf("%c%d", 'a'+i%26, i), Cls("a")), Str(","))), "a,"
		}},
		{"labelled or not", func(i int) (*E, string) {
			if i%3 == 1 {
				return Lab(fmt.Sprintf("L%d", i), Ref("N2")), "a"
			}
			return Cls("a"), "a"
		}},
		{"rules", func(i int) (*E, string) { return Ref("N2"), "a" }},
	}
	special := []*E{
		nil, Opt(Lab("o", Cls("b"))), Opt(Seq(Lab("o", Cls("b")), Lab("p", Str("b")))), Opt(Seq(Lab("z0", Cls("b")), Str("b"))), Lab("o", Opt(Cls("b"))), Opt(Cls("b")), Star(Cls("b")), Not(Str("b")), Look(Rgx("[ab,]*")), Seq(Opt(Cls("b")), Opt(Str("b"))), Seq(Str("b"), Lab("o", Cls("b"))), Ref("N"), Alt(Str("b"), Cls("b")), Lab("o", Seq(Cls("b"), Cls("b"))), Opt(Ref("Y")), Seq(Opt(Lab("o", Cls("b"))), Opt(Lab("o", Str("b")))),
	}
	w.Suite("wide-sequence", fmt.Sprintf("one element out of %d kinds (absent or present) as the first, middle and last of n elements of %d families; n = 1..%d and around powers of two up to 2^%d; every prefix length around its place", len(special), len(fams), all, top))
	for _, n := range ns {
		for fi, f := range fams {
			for si, s := range special {
				if n > 70 && (si+fi)%4 != n%4 {
					continue
				}
				if !w.Unit() {
					continue
				}
				for where := 0; where < 3; where++ {
					if where > 0 && s == nil || n > 24 && where != (si+n)%3 {
						continue
					}
					at := []int{0, n / 2, n}[where]
					var k []*E
					pre, post := "", ""
					for i := 0; i <= n; i++ {
						if i == at && s != nil {
							k = append(k, s)
						}
						if i < n {
							e, t := f.el(i)
							k = append(k, e)
							if i < at {
								pre += t
							} else {
								post += t
							}
						}
					}
					in := []string{pre + post, pre + "b" + post, pre + "bb" + post, pre + post + "b", pre + "bbb" + post, "b" + pre + post, pre, ""}
					if len(post) > 0 {
						in = append(in, pre+post[:len(post)-1], pre+"b"+post[1:])
					}
					rs := []*Rule{{Name: "S", Body: seqOr1(k)}}
					if si%2 == fi%2 {
						rs = []*Rule{{Name: "S", Body: Seq(Lab("v", Ref("V")), Lab("rest", Rgx("[b]*")))}, {Name: "V", Body: seqOr1(k), Node: n%2 == 0}}
					}
					if w.cmp(NewG(append(rs, auxs()...)...), in, asp) {
						break
					}
				}
			}
		}
	}
	groupSuite(w, asp, all, top)
	nameSuite(w, asp, top+1)
}

// groupSuite: groups of n labels, optional or not, in every place among other labels.
func groupSuite(w *W, asp aspect, all, top int) {
	orders := []func(i, n int) string{
		func(i, n int) string { return fmt.Sprintf("a%05d", i) },
		func(i, n int) string { return fmt.Sprintf("z%05d", n-i) },
		func(i, n int) string { return fmt.Sprintf("%c%d", 'a'+i*7%26, i) },
		func(i, n int) string { return []string{"p", "k", "t", "q"}[i%4] }, // the same ones again
		func(i, n int) string { return fmt.Sprintf("k%d", i*5%n) },
	}
	w.Suite("wide-group", fmt.Sprintf("groups of n labels, in %d orders, optional, within two optionals, or an optional per label; before, between or after 0..2 other labels, which may be those of the group; present, absent or cut; n = 1..%d and around powers of two up to 2^%d", len(orders), all, top))
	for _, n := range widths(all, top) {
		for oi, o := range orders {
			for shape := 0; shape < 4; shape++ {
				if n > 40 && (shape+oi)%4 != n%4 || !w.Unit() {
					continue
				}
				var k []*E
				for i := 0; i < n; i++ {
					x := Lab(o(i, n), []*E{Cls("a"), Str("a"), Ref("N")}[i%3])
					if shape == 3 {
						x = Opt(Seq(x, Str("")))
					}
					k = append(k, x)
				}
				var g *E
				switch shape {
				case 0:
					g = Opt(seqOr1(k))
				case 1:
					g = Opt(Seq(Opt(seqOr1(k)), Str(",")))
				case 2:
					g = Opt(Seq(Str(""), seqOr1(k[:(n+1)/2]), Opt(seqOr1(append([]*E{Str("")}, k[(n+1)/2:]...)))))
				case 3:
					g = seqOr1(k)
				}
				for pre := 0; pre < 3; pre++ {
					for post := 0; post < 3; post++ {
						var all []*E
						in1, in2 := "", ""
						for i := 0; i < pre; i++ {
							all = append(all, Lab([]string{"zz", o(n/2, n)}[i], Cls("x")))
							in1 += "x"
						}
						all = append(all, g)
						for i := 0; i < post; i++ {
							all = append(all, Lab([]string{"B", o(n-1, n)}[i], Cls("y")))
							in2 += "y"
						}
						in := []string{in1 + rep("a", n) + in2, in1 + rep("a", n) + "," + in2, in1 + in2, in1 + rep("a", n-1) + in2, in1 + rep("a", (n+1)/2) + in2, in1 + "," + in2}
						if w.cmp(NewG(&Rule{Name: "S", Body: seqOr1(all), Node: (n+pre)%2 == 0}, &Rule{Name: "N", Body: Cls("a"), Node: true}), in, asp) {
							break
						}
					}
				}
			}
		}
	}
}

// nameSuite: names, labels, literals, classes and regular expressions of n
// characters, where long ones share their beginning.
func nameSuite(w *W, asp aspect, top int) {
	w.Suite("long-names", fmt.Sprintf("names of rules, labels, literals, classes, regular expressions of n characters, some only different at the end; n = 1..40 and around powers of two up to 2^%d", top))
	for _, n := range widths(40, top) {
		for v := 0; v < 6; v++ {
			if !w.Unit() {
				continue
			}
			// the names begin alike, and end differently
			p := "R" + rep("a_.Z9", n)[:n-1]
			p1, p2 := p+"x", p+"y"
			var rs []*Rule
			var ins []string
			switch v {
			case 0: // rules
				rs = []*Rule{{Name: "S", Body: Alt(Seq(Ref(p1), Ref(p2)), Seq(Ref(p), Ref(p1)), Ref(p))}, {Name: p1, Body: Str("a"), Node: true}, {Name: p2, Body: Str("b")}, {Name: p, Body: Cls("cd"), Node: true}}
				ins = []string{"ab", "ca", "d", "a", "ba", "cb"}
			case 1: // labels
				rs = []*Rule{{Name: "S", Body: Seq(Lab(p1, Cls("a")), Lab(p2, Opt(Cls("b"))), Lab(p, Str("c")))}}
				ins = []string{"abc", "ac", "a", "abb"}
			case 2: // hidden rules, captured or not
				rs = []*Rule{{Name: "S", Body: Seq(Ref("_"+p1), Ref(p1), Lab("_"+p2, Ref("_"+p2)))}, {Name: "_" + p1, Body: Str("a"), Node: true}, {Name: p1, Body: Str("b")}, {Name: "_" + p2, Body: Cls("c")}}
				ins = []string{"abc", "ab", "abb", "aac"}
			case 3: // literals
				l := rep("ab'é\\", n)[:n]
				for l != "" && l[len(l)-1] >= 0x80 {
					l = l[:len(l)-1]
				}
				rs = []*Rule{{Name: "S", Body: Star(Alt(Str(l+"x"), Str(l+"y"), Cls("ab'é\\\\")))}}
				ins = []string{l + "x", l + "y", l, l + "z", l + "y" + l + "x", l[1:] + "x"}
			case 4: // classes
				c := rep("abc", n)[:n]
				rs = []*Rule{{Name: "S", Body: Seq(Plus(Cls(c+"x")), Opt(Cls("^"+c)), Opt(Cls(c)))}}
				ins = []string{"a", "x", "abx", "ax!", "!a", "ax!a", "ax!a!", "abc"}
			case 5: // regular expressions
				c := rep("a", n)
				if n > 900 {
					continue // beyond what a regular expression may repeat anyway
				}
				rs = []*Rule{{Name: "S", Body: Alt(Rgx(c+"x"), Seq(Rgx(c+"|b"), Opt(Rgx(fmt.Sprintf("(ab){%d}", min(n, 400))))))}}
				ins = []string{c + "x", c, "b", c + "y", "b" + rep("ab", min(n, 400)), "b" + rep("ab", n-1)}
			}
			w.cmp(NewG(rs...), ins, asp)
		}
	}
}

// longTexts calls f with rule texts that have something of size n.
func longTexts(n int, f func(t string, ins []string)) {
	id := rep("ab_.9Z", n/6+1)[:n]
	as := rep("a", n)
	x := []string{"", "x", "y", "xy", "yx", "z", "xyx"}
	f(id, x)
	f("a "+id, x)
	f(as+"b", x)
	f(id+":a", x)
	f(id+":a b", x)
	f("l:a "+id+":b", append(x, "xy"))
	f("("+id+":a)? "+id+"x:b", x)
	f("'"+as+"'", []string{as, as + "a", as[1:], ""})
	f("'"+rep(`\'`, n)+"'", []string{rep("'", n), rep("'", n+1), rep(`\'`, n)})
	f("'"+rep(`\\`, n)+"'", []string{rep(`\`, n), rep(`\`, 2*n)})
	f("'"+rep("é\n", n)+"' a", []string{rep("é\n", n) + "x", rep("é\n", n)})
	f("["+as+"b]", []string{"a", "b", "c", "", "ab"})
	f("[^"+as+"x]", []string{"a", "b", "x", "", "bb"})
	f("["+rep(`\]`, n)+"x]", []string{"]", "x", "\\", "y"})
	f("/"+as+"b?/", []string{as, as + "b", as + "a", as[1:]})
	f("/"+rep(`\/`, n)+"/", []string{rep("/", n), rep("/", n+1)})
	f("/(x|"+as+")*/ b", []string{"xy", as + "y", as + "xy", "y", as + as + as[1:] + "y"})
	f(rep("a ", n), []string{rep("x", n), rep("x", n-1), rep("x", n+1)})
	f(rep("a  ", n)+"b", []string{rep("x", n) + "y", rep("x", n)})
	f(rep("b | ", n)+"a", x)
	f("l:"+rep("b | ", n)+"m:a", x)
	f(rep(" ", n)+"a"+rep("\n", n)+"b"+rep(" ", n), x)
	f("a"+rep(" \n", n)+"|"+rep("\n ", n)+"b", x)
	f(rep("|", n)+"a|b"+rep(" |", n), x)
	f("a"+rep("?", n), x)
	f("a "+rep("?", n)+" b", x)
	f(rep("!", n)+"b a?", x)
	f("a*'y'"+"{"+rep("0", n)+"1,2}", []string{"x", "xyx", "xyxyx", ""})
	f("a{"+rep(" ", n)+"1"+rep(" ", n)+",2}", []string{"x", "xx", "xxx", ""})
	f(rep("a? ", n)+"b", []string{"y", rep("x", n) + "y", rep("x", n+1) + "y"})
	f(rep("a*b ", n), []string{rep("xyx", n), "x", "xyx", ""})
	f(rep("l:a ", n)+"m:b", []string{rep("x", n) + "y", rep("x", n)})
	f(fmt.Sprintf("a{%d,}", n), []string{rep("x", n-1), rep("x", n), rep("x", n+1)})
	f(fmt.Sprintf("a*'y'{,%d}", n), []string{rep("xy", n) + "x", rep("xy", n-1) + "x", ""})
}
