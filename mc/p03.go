package main

import "fmt"

func init() {
	register("P03", p03, "inputs up to the stated length over {a,b,','}; repetition nesting <= 2; bounds <= 4 (and parametric to 80)")
}

func p03(w *W) {
	vals := []*E{
		Str("a"), Cls("ab"), Rgx("a+"), Rgx("a?"), Rgx("b*"), Str("ab"), Str(""), Ref("X"), Ref("_X"), Ref("N"), Ref("Z"),
		Opt(Str("a")), Star(Str("a")), Plus(Str("a")), Seq(Cls("a"), Opt(Cls("b"))), Seq(Lab("x", Cls("a")), Lab("y", Opt(Cls("b")))), Alt(Str("a"), Cls("b")), Alt(Str("ab"), Str("a")),
		Look(Str("a")), Seq(Not(Str("b")), Cls("ab")), Star(Seq(Str("a"), Opt(Str("b")))), Lab("l", Cls("ab")),
	}
	joins := []*E{nil, Str(","), Cls(",b"), Rgx(",?"), Opt(Str(",")), Star(Str(",")), Str(""), Ref("J"), Ref("_J"), Seq(Str(","), Opt(Str("b"))), Not(Str("b")), Look(Cls("ab")), Alt(Str(",,"), Str(",")), Seq(Str(","), Str("b")), Seq(Rgx(",*"), Not(Str("b")), Str(",")), Ref("JP")}
	type bd struct{ m, n int }
	var bds []bd
	for m := -1; m <= 3; m++ {
		for n := -1; n <= 4; n++ {
			bds = append(bds, bd{m, n})
		}
	}
	rules := []*Rule{
		{Name: "X", Body: Alt(Str("ab"), Str("a"))},
		{Name: "_X", Body: Cls("ab")},
		{Name: "N", Body: Seq(Cls("a"), Opt(Str("b"))), Node: true},
		{Name: "Z", Body: Opt(Cls("a")), Node: true},
		{Name: "J", Body: Seq(Str(","), Star(Str(" ")))},
		{Name: "_J", Body: Cls(",b")},
		{Name: "JP", Body: Seq(Star(Str(",")), Look(Str("a")), Opt(Str("a")))},
	}
	ins := strs(chars("ab,"), w.Pick(5, 6))
	ins = append(ins, "aaaaaa", "aaaaaaa", "a,a,a,a", "a,a,a,a,", "abababab", "a, a,  ab", "a,,a,,,a", "bababa", "aabaab,")
	rest := Lab("rest", Rgx("[ab,]*"))
	cur := ins
	do := func(e *E) {
		if w.Unit() {
			w.cmp(NewG(append([]*Rule{{Name: "S", Body: e}}, rules...)...), cur, aAccept|aTree)
		}
	}
	form := func(v, jn *E, b bd, plus bool) *E {
		switch {
		case plus && jn == nil:
			return Plus(v)
		case plus:
			return PlusJ(v, jn)
		case jn == nil && b.m == -1 && b.n == -1:
			return Star(v)
		case jn == nil:
			return Rep(v, b.m, b.n)
		case b.m == -1 && b.n == -1:
			return StarJ(v, jn)
		}
		return RepJ(v, jn, b.m, b.n)
	}
	each := func(f func(v, jn *E, b bd, plus bool)) {
		for _, v := range vals {
			for _, jn := range joins {
				for _, b := range bds {
					f(v, jn, b, false)
				}
				f(v, jn, bd{}, true)
			}
		}
	}
	w.Suite("forms", fmt.Sprintf("%d values x %d joins x (30 bounds with m in {-,0..3}, n in {-,0..4}; and +), alone and followed by a rest; %d inputs {a,b,','}", len(vals), len(joins), len(ins)))
	each(func(v, jn *E, b bd, plus bool) {
		e := form(v, jn, b, plus)
		do(e)
		do(Seq(Lab("r", e), rest))
	})
	// the explicit star before bounds without a join: V*{m,n}
	w.Suite("star-braces", "V*{m,n} without join")
	for _, v := range vals {
		for _, b := range bds {
			e := RepJ(v, nil, b.m, b.n)
			e.K = e.K[:1]
			do(Seq(Lab("r", e), rest))
		}
	}
	if !w.Thorough() {
		cur = append(strs(chars("ab,"), 4), ins[len(ins)-10:]...)
	}
	w.Suite("contexts", "the same repetitions optional, in a choice, under lookaheads, as value and as join of another repetition")
	each(func(v, jn *E, b bd, plus bool) {
		if !w.Thorough() && (b.m > 2 || b.n > 2 || b.n == 0) {
			return
		}
		e := form(v, jn, b, plus)
		do(Seq(Lab("r", Alt(Seq(e, Str("!")), e)), rest))
		do(Seq(Not(e), rest))
		do(StarJ(e, Str(",")))
		do(StarJ(Str("a"), e))
		do(Seq(Lab("r", Opt(e)), Look(e), rest))
	})
	N := w.Pick(120, 400)
	w.Suite("scale", fmt.Sprintf("0..n items, bounds around n, for n = 1..%d", N))
	for n := 1; n <= N; n++ {
		for _, v := range []*E{Str("a"), Cls("ab"), Ref("N")} {
			for _, jn := range []*E{nil, Str(","), Rgx(",?"), Ref("_J")} {
				if !w.Unit() {
					continue
				}
				var in []string
				for _, k := range []int{0, 1, n - 1, n, n + 1, n + 2, 2*n + 1} {
					s := ""
					for i := 0; i < k; i++ {
						if i > 0 && jn != nil {
							s += ","
						}
						s += "a"
					}
					in = append(in, s, s+",", s+"b")
				}
				fs := []*E{form(v, jn, bd{n, n}, false), form(v, jn, bd{-1, n}, false), form(v, jn, bd{n, -1}, false), form(v, jn, bd{n - 1, n + 1}, false), form(v, jn, bd{}, true)}
				for _, e := range fs {
					w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Lab("r", e), rest)}}, rules...)...), in, aAccept|aTree)
				}
			}
		}
	}
	top := w.Pick(16, 18)
	w.Suite("huge", fmt.Sprintf("2^k-1, 2^k, 2^k+1 items, k = 7..%d, fewer and more, under bounds of that size as minimum, maximum and both; with and without join; single characters and longer items", top))
	for _, n := range around(7, top, 1) {
		for vi, v := range []*E{Str("a"), Cls("ab"), Ref("N"), Seq(Str("a"), Opt(Str("b")))} {
			if n > 1<<15+1 && vi > 1 {
				continue
			}
			for _, jn := range []*E{nil, Str(","), Ref("_J")} {
				if !w.Unit() {
					continue
				}
				sep := ""
				if jn != nil {
					sep = ","
				}
				in := []string{rep("a"+sep, n-2) + "a", rep("a"+sep, n-1) + "a", rep("a"+sep, n) + "a", rep("a"+sep, n) + "b"}
				for _, e := range []*E{form(v, jn, bd{n, n}, false), form(v, jn, bd{-1, n}, false), form(v, jn, bd{n, -1}, false), form(v, jn, bd{}, true)} {
					w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Lab("r", e), rest)}}, rules...)...), in, aAccept|aTree)
				}
			}
		}
	}
	// bounds that no input reaches, or which are near the size of an integer
	var big []int
	for _, n := range append(around(6, 17, 1), 1000, 100000, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<32+2, 1<<33+1, 1<<62, 1<<62+1, 1<<63-2, 1<<63-1) {
		big = append(big, n)
	}
	w.Suite("big-bounds", fmt.Sprintf("%d bounds up to 2^63-1 as minimum, as maximum, as both, over small minima, with 4 values and 4 joins; inputs of a few items, and around the bound while it is below 1100", len(big)))
	for _, n := range big {
		for _, v := range []*E{Str("a"), Cls("ab"), Ref("N"), Rgx("a|b")} {
			for _, jn := range []*E{nil, Str(","), Rgx(",?"), Ref("_J")} {
				if !w.Unit() {
					continue
				}
				var in []string
				ks := []int{0, 1, 2, 3, 4, 5}
				if n < 1100 {
					ks = append(ks, n-1, n, n+1)
				}
				for _, k := range ks {
					s := ""
					for i := 0; i < k; i++ {
						if i > 0 && jn != nil {
							s += ","
						}
						s += "a"
					}
					in = append(in, s, s+",", s+"b")
				}
				for _, b := range []bd{{-1, n}, {0, n}, {1, n}, {2, n}, {n, -1}, {n, n}, {n - 1, n}, {n, 3}} {
					w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Lab("r", form(v, jn, b, false)), rest)}}, rules...)...), in, aAccept|aTree)
				}
				w.cmp(NewG(append([]*Rule{{Name: "S", Body: Seq(Lab("r", Opt(form(v, jn, bd{n, n}, false))), Lab("q", Opt(form(v, jn, bd{2, n}, false))), rest)}}, rules...)...), in, aAccept|aTree)
			}
		}
	}
}
