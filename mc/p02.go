package main

import "fmt"

func init() {
	register("P02", p02, "inputs up to the stated length over {a,b,c}; up to three elements per sequence, plus parametric families")
}

func p02(w *W) {
	a, b := Cls("a"), Cls("b")
	// elements of a sequence: captured or not, labelled or not, grouped
	elems := []*E{
		Str("a"), a, Rgx("[ab]+?"), Ref("X"), Ref("_X"), Ref("N"), Ref("_N"),
		Opt(a), Opt(Str("a")), Opt(Ref("_X")), Opt(Ref("N")), Star(b), Star(Str("a")), Star(Ref("_X")), Plus(Ref("X")), StarJ(a, Str("b")), StarJ(Str("a"), b), Rep(Cls("ab"), 1, 2),
		Not(b), Not(Str("c")), Look(a), Look(Str("b")),
		Seq(a, b), Seq(Str("a"), b), Seq(Str("a"), Str("b")), Seq(Ref("_X"), a), Seq(Seq(a, b), Opt(a)),
		Alt(a, b), Alt(Str("a"), b), Alt(Str("a"), Ref("_X")), Alt(Seq(a, b), a),
		Opt(Seq(a, b)), Opt(Seq(Str("a"), b)), Opt(Seq(Str("a"), Str("b"))), Opt(Alt(a, b)), Opt(Alt(Str("a"), Ref("X"))),
		Star(Seq(a, b)), Star(Seq(Str("a"), b)), Star(Alt(Seq(a, b), b)), Star(Star(a)), Opt(Star(a)), Star(Opt(a)),
	}
	labelled := []*E{
		Lab("x", Str("a")), Lab("x", a), Lab("y", b), Lab("y", Str("b")), Lab("x", Ref("X")), Lab("y", Ref("_X")), Lab("x", Ref("N")), Lab("y", Ref("L")),
		Lab("x", Opt(a)), Lab("y", Opt(Str("b"))), Lab("x", Star(a)), Lab("y", Star(Str("b"))), Lab("x", PlusJ(a, b)),
		Lab("x", Seq(a, b)), Lab("y", Seq(Str("a"), b)), Lab("y", Seq(Str("a"), Str("b"))), Lab("x", Alt(a, b)), Lab("y", Alt(Str("a"), b)),
		Opt(Lab("x", a)), Opt(Lab("y", Str("b"))), Opt(Seq(Lab("x", a), b)), Opt(Seq(Lab("x", a), Lab("y", b))), Opt(Seq(Lab("z", Ref("N")), Str("b"))),
		Lab("x", Opt(Seq(a, b))), Lab("y", Star(Seq(Lab("p", a), Lab("q", b)))), Lab("z", Opt(Alt(a, b))), Lab("z", Not(b)),
	}
	rules := []*Rule{
		{Name: "X", Body: Cls("ab")},
		{Name: "_X", Body: Cls("ab")},
		{Name: "N", Body: Seq(Lab("l", a), Opt(Str("b"))), Node: true},
		{Name: "_N", Body: b, Node: true},
		{Name: "L", Body: Seq(Lab("p", a), Lab("q", Opt(b)))},
	}
	ins := strs(chars("ab"), w.Pick(4, 5))
	all := append(append([]*E{}, elems...), labelled...)
	do := func(e *E) {
		if w.Unit() {
			w.cmp(NewG(append([]*Rule{{Name: "S", Body: e}}, rules...)...), ins, aTree)
		}
	}
	w.Suite("one", fmt.Sprintf("each of %d elements alone, optional, repeated, in a choice, as the body of a referenced rule; inputs {a,b}^<=%d", len(all), w.Pick(4, 5)))
	for _, e := range all {
		do(e)
		do(Opt(e))
		do(Star(e))
		do(PlusJ(e, Str("b")))
		do(PlusJ(e, Cls("b")))
		do(Alt(e, Ref("X")))
		do(Alt(Seq(e, Str("b")), e))
		do(Seq(Look(e), Star(Ref("X"))))
		do(Seq(Not(e), Star(Ref("X"))))
		if w.Unit() {
			w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Ref("E"), Lab("r", Star(Ref("_X"))))}, {Name: "E", Body: e}}, rules...)...), ins, aTree)
		}
		if w.Unit() {
			w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Ref("E"), Star(Ref("_E")))}, {Name: "E", Body: e, Node: true}, {Name: "_E", Body: e}}, rules...)...), ins, aTree)
		}
	}
	w.Suite("pairs", fmt.Sprintf("all pairs of %d elements in a sequence, and as a group in a sequence, repetition, optional, choice and under a label", len(all)))
	for _, e := range all {
		for _, f := range all {
			s := Seq(e, f)
			do(s)
			do(Star(s))
			do(Seq(Lab("g", s), Star(Cls("ab"))))
			if len(s.labels()) == 0 {
				do(Seq(s, Opt(Cls("ab"))))
				do(Seq(Opt(s), Opt(Cls("ab"))))
			} else {
				do(Seq(Opt(s), Opt(Cls("ab"))))
				do(Seq(Opt(s), Lab("r", Opt(Cls("ab")))))
			}
			do(Alt(s, Star(Cls("ab"))))
		}
	}
	w.Suite("triples", fmt.Sprintf("%s triples (i,j,k) of %d elements in a sequence", map[bool]string{true: "all", false: "the (7i+3j+k)%3==0"}[w.Thorough()], len(all)))
	for i, e := range all {
		for k, f := range all {
			for l, h := range all {
				if !w.Thorough() && (i*7+k*3+l)%3 != 0 {
					continue
				}
				do(Seq(e, f, h))
			}
		}
	}
	regexSuite(w, aTree)
	scaleSuite(w, aTree)
	bytesSuite(w, aTree)
	rawSuite(w, aTree)
	namesSuite(w, 4, w.cmpWith(aTree))
	bigSuite(w, aTree)
	widthSuite(w, aTree, w.Pick(40, 80), w.Pick(9, 11))
	hugeSuite(w, w.Pick(17, 19), deepKinds, w.cmpWith(aTree))
	sizesSuite(w, plainKernels(), [3]int{w.Pick(11, 12), w.Pick(11, 13), w.Pick(16, 18)}, w.cmpWith(aTree))
}
