package main

// P20: the layout of the rules does not matter.
//
// A base grammar (an ordered choice S over some alternatives, plus auxiliary
// rules) is laid out in every enumerated way; each layout is compiled and
// compared with the model's reading of the base grammar, which has one layout.

import (
	"fmt"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P20", p20, "three alternatives and three auxiliary rules, plus parametric families; inputs up to the stated length over {a,b}",
		"inlining is compared for acceptance everywhere, and for productions where the rule is not an element of a sequence")
}

// base grammar: S is the ordered choice of alts.
type lay struct {
	alts []*E
	aux  []*Rule
	node bool
}

func (l lay) g() *G {
	var b *E
	if len(l.alts) == 1 {
		b = l.alts[0]
	} else {
		b = Alt(l.alts...)
	}
	return NewG(append([]*Rule{{Name: "S", Body: b, Node: l.node}}, l.aux...)...)
}

func (l lay) choiceText() string {
	s := ""
	for i, a := range l.alts {
		if i > 0 {
			s += " | "
		}
		if a.Op == OChoice && a.Label == "" {
			s += "(" + a.Text() + ")"
		} else {
			s += a.Text()
		}
	}
	return s
}

func (l lay) cb(args ...any) []any {
	if l.node {
		args = append(args, mkNode("S"))
	}
	return args
}

func (l lay) oS(body any) j.Line { return j.O(l.cb(j.Named("S", body))...) }
func (l lay) iS(body any) j.Line { return j.I(l.cb(j.Named("S", body))...) }

func inert(rs []*Rule) (out []j.Line) {
	for _, r := range rs {
		out = append(out, j.I(lineArgs(r)...))
	}
	return
}

func altName(i int) string { return fmt.Sprintf("N%d", i) }

// lines of a rank for the alternatives; naming: 0 none, 1 all, 2 every other
func (l lay) rankLines(naming int) (out []j.Line) {
	for i, a := range l.alts {
		if naming == 1 || naming == 2 && i%2 == 1 {
			out = append(out, j.O(j.Named(altName(i), a.Text())))
		} else {
			out = append(out, j.O(a.Text()))
		}
	}
	return
}

func reversed[T any](a []T) (out []T) {
	for i := len(a) - 1; i >= 0; i-- {
		out = append(out, a[i])
	}
	return
}

func cat[T any](a ...[]T) (out []T) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

type layout struct {
	name string
	// f returns nil when the layout does not apply
	f func(l lay) []j.Line
}

var layouts = []layout{
	{"horizontal", func(l lay) []j.Line { return cat([]j.Line{l.oS(l.choiceText())}, inert(l.aux)) }},
	{"parenthesised", func(l lay) []j.Line { return cat([]j.Line{l.oS("(" + l.choiceText() + ")")}, inert(l.aux)) }},
	{"a line in the line", func(l lay) []j.Line {
		return cat([]j.Line{l.oS(j.O(j.O(l.choiceText())))}, inert(l.aux))
	}},
	{"lines in the lines of the rank", func(l lay) []j.Line {
		var r []j.Line
		for _, x := range l.rankLines(0) {
			r = append(r, j.O(x))
		}
		return cat([]j.Line{l.oS(r)}, inert(l.aux))
	}},
	{"rank of unnamed lines", func(l lay) []j.Line { return cat([]j.Line{l.oS(l.rankLines(0))}, inert(l.aux)) }},
	{"rank of named lines", func(l lay) []j.Line { return cat([]j.Line{l.oS(l.rankLines(1))}, inert(l.aux)) }},
	{"rank of named and unnamed lines", func(l lay) []j.Line { return cat([]j.Line{l.oS(l.rankLines(2))}, inert(l.aux)) }},
	{"inert lines first", func(l lay) []j.Line { return cat(inert(reversed(l.aux)), []j.Line{l.oS(l.rankLines(2))}) }},
	{"inert lines first in the rank", func(l lay) []j.Line { return []j.Line{l.oS(cat(inert(l.aux), l.rankLines(1)))} }},
	{"inert lines last in the rank", func(l lay) []j.Line { return []j.Line{l.oS(cat(l.rankLines(0), inert(reversed(l.aux))))} }},
	{"inert lines between the lines of the rank", func(l lay) []j.Line {
		r := l.rankLines(2)
		return []j.Line{l.oS(cat(r[:1], inert(l.aux), r[1:]))}
	}},
	{"nested ranks to the right", func(l lay) []j.Line {
		r := l.rankLines(0)
		for i := len(r) - 2; i >= 0; i-- {
			r = append(r[:i:i], r[i], j.O(j.Named(fmt.Sprintf("R%d", i), r[i+1:])))
		}
		return cat([]j.Line{l.oS(r)}, inert(l.aux))
	}},
	{"nested ranks to the left, inert lines in the innermost", func(l lay) []j.Line {
		r := l.rankLines(0)
		cur := cat(inert(l.aux), r[:1])
		for i := 1; i < len(r); i++ {
			cur = []j.Line{j.O(j.Named(fmt.Sprintf("R%d", i), cur)), r[i]}
		}
		return []j.Line{l.oS(cur)}
	}},
	{"top-level lines", func(l lay) []j.Line {
		if l.node || l.selfRef() {
			return nil
		}
		return cat(l.rankLines(0), inert(l.aux))
	}},
	{"named top-level lines between inert ones", func(l lay) []j.Line {
		if l.node || l.selfRef() {
			return nil
		}
		r := l.rankLines(1)
		k := len(l.aux) / 2
		return cat(inert(l.aux[:k]), r[:1], inert(l.aux[k:]), r[1:])
	}},
	{"alternatives as referenced rules", func(l lay) []j.Line {
		if l.labelled() {
			return nil
		}
		s := ""
		var ls []j.Line
		for i, a := range l.alts {
			if i > 0 {
				s += " | "
			}
			s += altName(i)
			ls = append(ls, j.I(j.Named(altName(i), a.Text())))
		}
		return cat([]j.Line{l.oS(s)}, ls, inert(l.aux))
	}},
	{"entry referencing an inert choice", func(l lay) []j.Line {
		return cat([]j.Line{j.O(j.Named("E0", "S"))}, inert(l.aux), []j.Line{l.iS(l.choiceText())})
	}},
	{"unnamed entry referencing an inert rank", func(l lay) []j.Line {
		return cat([]j.Line{j.O("S")}, []j.Line{l.iS(l.rankLines(1))}, inert(l.aux))
	}},
	{"inert rank holding the other inert lines", func(l lay) []j.Line {
		return []j.Line{j.O("S"), j.I(j.Named("HOLD", cat([]j.Line{j.O("'a'")}, inert(l.aux), []j.Line{l.iS(l.rankLines(2))})))}
	}},
	{"lines wrapping lines", func(l lay) []j.Line {
		var r []j.Line
		for i, a := range l.alts {
			r = append(r, j.O(j.Named(altName(i), j.O(a.Text()))))
		}
		return cat([]j.Line{l.oS(r)}, inert(l.aux))
	}},
	{"ranks of one line", func(l lay) []j.Line {
		var r []j.Line
		for i, a := range l.alts {
			r = append(r, j.O(j.Named(altName(i), []j.Line{j.O(a.Text())})))
		}
		return cat([]j.Line{l.oS([]j.Line{j.O(j.Named("R", r))})}, inert(l.aux))
	}},
}

func (l lay) labelled() bool {
	for _, a := range l.alts {
		if len(a.labels()) > 0 {
			return true
		}
	}
	return false
}

func (e *E) refs(name string) bool {
	if e.Op == ORef && e.S == name {
		return true
	}
	for _, k := range e.K {
		if k.refs(name) {
			return true
		}
	}
	return false
}

func (l lay) selfRef() bool {
	for _, a := range l.alts {
		if a.refs("S") {
			return true
		}
	}
	for _, r := range l.aux {
		if r.Body != nil && r.Body.refs("S") {
			return true
		}
	}
	return false
}

func compileLines(ls []j.Line) (gm *j.Grammar, err string) {
	defer func() {
		if e := recover(); e != nil {
			gm, err = nil, "PANIC "+firstLine(fmt.Sprint(e))
		}
	}()
	return j.GrammarWithOptionsFromLines("g", opts(), ls), ""
}

func (w *W) laid(l lay, ly layout, inputs []string) {
	ls := ly.f(l)
	if ls == nil || !w.Unit() {
		return
	}
	g := l.g()
	if g.LeftRecursive() && !g.SingleEntry() {
		w.Outcome("several entries in a left recursion, not here")
		return
	}
	gt := "[" + ly.name + "] " + g.Text()
	w.About(gt)
	gm, e := compileLines(ls)
	if e != "" {
		w.Fail(Failure{What: "the layout is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return
	}
	if w.cmpOn(gm, g, gt, inputs, aTree) {
		return
	}
	// the same Line values a second time
	gm2, e := compileLines(ls)
	if e != "" {
		w.Fail(Failure{What: "the same lines are refused the second time", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return
	}
	k := max(len(inputs)/3, min(len(inputs), 12))
	if w.cmpOn(gm2, g, gt+" (2nd build)", inputs[len(inputs)-k:], aTree) {
		return
	}
	w.cmpOn(gm, g, gt+" (1st build, after the 2nd)", inputs[:k], aTree)
}

func p20(w *W) {
	ab4 := strs(chars("ab"), w.Pick(4, 5))
	a := Cls("a")
	pool := []*E{
		Str("a"), Str("ab"), a, Seq(a, Ref("X")), Seq(Lab("l", a), Lab("m", Opt(Ref("X")))), Star(Ref("Y")), Ref("X"), Seq(Str("b"), Ref("Y")),
		Lab("l", Ref("Y")), Alt(Seq(Str("a"), Str("b"), a), Str("b")), Seq(Not(Ref("X")), Ref("Y"), Ref("Y")), Seq(Opt(Seq(Lab("o", a), Str("b"))), Lab("r", Star(Ref("X")))),
		PlusJ(a, Str("b")), Seq(Look(Str("ab")), Star(Cls("ab"))),
	}
	aux := []*Rule{{Name: "X", Body: Cls("b")}, {Name: "Y", Body: Alt(Seq(Str("a"), Ref("X")), a), Node: true}, {Name: "I", Body: Star(Cls("ab")), Node: true}}
	w.Suite("layouts", fmt.Sprintf("S = every ordered triple of %d alternatives, with and without a callback, in %d layouts; each built twice; %d inputs over {a,b}", len(pool), len(layouts), len(ab4)))
	tuples(len(pool), 3, func(ix []int) {
		for li, ly := range layouts {
			node := (ix[0]+ix[1]+ix[2]+li)%2 == 0
			if !w.Thorough() && (ix[0]+3*ix[1]+5*ix[2]+7*li)%2 == 0 {
				continue
			}
			w.laid(lay{[]*E{pool[ix[0]], pool[ix[1]], pool[ix[2]]}, aux, node}, ly, ab4)
			if w.Thorough() {
				w.laid(lay{[]*E{pool[ix[0]], pool[ix[1]], pool[ix[2]]}, aux, !node}, ly, ab4)
			}
		}
	})

	w.Suite("pairs", fmt.Sprintf("S = every alternative alone and every ordered pair of %d alternatives, with and without a callback, in %d layouts; each built twice", len(pool)+4, len(layouts)))
	pool = append(pool, Opt(Str("b")), Opt(Ref("X")), Not(Str("b")), Opt(Seq(a, a)))
	for _, x := range pool {
		for _, ly := range layouts {
			w.laid(lay{[]*E{x}, aux, false}, ly, ab4)
			w.laid(lay{[]*E{x}, aux, true}, ly, ab4)
			for _, y := range pool {
				w.laid(lay{[]*E{x, y}, aux, false}, ly, ab4)
				w.laid(lay{[]*E{x, y}, aux, true}, ly, ab4)
			}
		}
	}

	p20names(w)
	p20inert(w)
	p20lr(w)
	p20inline(w)
	p20prebuilt(w)
	p20wide(w)

	N := w.Pick(60, 150)
	w.Suite("scale", fmt.Sprintf("S = n alternatives over n auxiliary rules, n=1..%d, in every layout", N))
	for n := 1; n <= N; n++ {
		var alts []*E
		var aux []*Rule
		for i := 0; i < n; i++ {
			alts = append(alts, Seq(Str(rep("a", n-i)), Ref(fmt.Sprintf("X%d", (i*7)%n)), Opt(Str("b"))))
			aux = append(aux, &Rule{Name: fmt.Sprintf("X%d", i), Body: Seq(Plus(Cls("b")), Str(rep("a", i%3))), Node: i%2 == 0})
		}
		for _, ly := range layouts {
			w.laid(lay{alts, aux, n%2 == 0}, ly, []string{rep("a", n) + "b", "ab", "abba", "abbaa", rep("a", n/2) + "bb", rep("a", n+1) + "b", "b"})
		}
	}
}

// p20wide: one alternative of some kind among many literals.
func p20wide(w *W) {
	odd := []*E{
		Opt(Str("b")), Not(Str("b")), Ref("X"), Ref("E"), Str("é"), Rgx("é|b"), Seq(Cls("^a-z"), Opt(Ref("X"))), Star(Ref("E")), Seq(Look(Ref("X")), Cls("ab")), Lab("l", Ref("E")), Seq(Lab("l", Str("b")), Lab("m", Opt(Ref("X")))), Str(""), PlusJ(Str("b"), Ref("X")), Ref("Y"), Alt(Str("b"), Str("éb")),
	}
	aux := []*Rule{{Name: "X", Body: Cls("b")}, {Name: "E", Body: Opt(Cls("ab")), Node: true}, {Name: "Y", Body: Seq(Str("é"), Ref("E")), Node: true}}
	top := w.Pick(7, 9)
	all := w.Pick(24, 60)
	w.Suite("wide", fmt.Sprintf("one alternative out of %d kinds as the first, middle or last of n, the others being literals of 1 to 4 bytes per character, n = 1..%d and around powers of two up to 2^%d, in the layouts in turn (all when n = 17 and 33)", len(odd), all, top))
	heads := []string{"a", "é", "世", "😀", "B", "z", "0", " "}
	lit := func(i int) string { return heads[i%len(heads)] + fmt.Sprint(i) + ";" }
	for _, n := range widths(all, top) {
		for oi, o := range odd {
			for where := 0; where < 3; where++ {
				at := []int{0, n / 2, n - 1}[where]
				var k []*E
				for i := 0; i < n; i++ {
					if i == at {
						k = append(k, o)
					} else {
						k = append(k, Str(lit(i)))
					}
				}
				in := []string{"", "a", "b", "é", "éb", "bb", "ab", lit(0), lit(n / 2), lit(n - 1), lit(n-1) + "b", lit(max(0, n-2)), "b" + lit(0)}
				for li, ly := range layouts {
					if n != 17 && n != 33 && (oi+where+n)%len(layouts) != li {
						continue
					}
					if (n == 17 || n == 33) && !w.Thorough() && (oi+li)%3 != where {
						continue
					}
					w.laid(lay{k, aux, (n+oi)%2 == 0}, ly, in)
				}
			}
		}
	}
}

// shape is a rank of lines, down to n leaves.
type shape []shape

// shapes lists the ranks with n leaves in all and at most d levels.
func shapes(n, d int) (out []shape) {
	if d == 0 {
		return nil
	}
	// lists of lines having n leaves in all
	var lines func(n int) [][]shape
	lines = func(n int) (out [][]shape) {
		if n == 0 {
			return [][]shape{nil}
		}
		for first := 1; first <= n; first++ {
			var f []shape
			if first == 1 {
				f = append(f, nil) // a leaf
			}
			f = append(f, shapes(first, d-1)...)
			for _, x := range f {
				for _, rest := range lines(n - first) {
					out = append(out, append([]shape{x}, rest...))
				}
			}
		}
		return
	}
	for _, l := range lines(n) {
		out = append(out, shape(l))
	}
	return
}

// p20names: the lines of a rank, at whatever depth, are rules of the grammar as
// soon as they have a name.
func p20names(w *W) {
	ins := strs(chars("ab"), w.Pick(3, 4))
	sets := [][]*E{
		{Cls("a"), Seq(Cls("b"), Cls("a")), Opt(Cls("b"))},
		{Opt(Str("b")), Seq(Lab("l", Cls("a")), Str("b")), Ref("N0")},
		{Seq(Ref("Y"), Cls("b")), Star(Cls("a")), Alt(Str("b"), Ref("Y"))},
	}
	L, D := 3, w.Pick(3, 4)
	w.Suite("names", fmt.Sprintf("every rank of up to %d leaves and %d levels, each line of it (ranks included) named or not, with or without a callback, callbacks and %d sets of leaves rotating in the quick tier; the entry is the rank, the rank then one of the names, or any two of the names", L, D, len(sets)))
	for n := 1; n <= L; n++ {
		for _, sh := range shapes(n, D) {
			// number of lines below the root
			var count func(s shape) int
			count = func(s shape) (k int) {
				for _, x := range s {
					k += 1 + count(x)
				}
				return
			}
			lines := count(sh)
			for mask := 0; mask < 1<<lines; mask++ {
				for si, set := range sets {
					for nodes := 0; nodes < 2; nodes++ {
						leaf, line := 0, 0
						names := []string{"T"}
						var build func(s shape, name string) *Rule
						build = func(s shape, name string) *Rule {
							r := &Rule{Name: name}
							for _, x := range s {
								nm := ""
								if mask>>line&1 == 1 {
									nm = fmt.Sprintf("N%d", line)
									names = append(names, nm)
								}
								line++
								var k *Rule
								if x == nil {
									k = &Rule{Name: nm, Body: set[leaf]}
									leaf++
								} else {
									k = build(x, nm)
								}
								k.Node = nm != "" && nodes == 1
								r.Rank = append(r.Rank, k)
							}
							return r
						}
						T := build(sh, "T")
						if set[2].S == "N0" && mask&1 == 0 || !w.Thorough() && (mask+si+nodes)%2 != 0 {
							continue
						}
						bodies := []*E{Ref("T")}
						for i, x := range names[1:] {
							bodies = append(bodies, Seq(Ref("T"), Ref(x)), Seq(Ref(x), Opt(Ref("T"))))
							for _, y := range names[1 : i+1] {
								bodies = append(bodies, Seq(Ref(x), Ref(y)))
							}
						}
						Y := &Rule{Name: "Y", Body: Cls("a"), Node: true}
						for bi := -1; bi < len(bodies); bi++ {
							if !w.Thorough() && n == L && (bi+si+mask/2)%3 != 0 || !w.Unit() {
								continue
							}
							rs := []*Rule{T, Y}
							if bi >= 0 {
								rs = append([]*Rule{{Name: "S", Body: bodies[bi]}}, rs...)
							}
							g := NewG(rs...)
							if g.LeftRecursive() {
								w.Outcome("left recursive, not here")
								continue
							}
							w.cmp(g, ins, aTree)
						}
					}
				}
			}
		}
	}
}

// p20inert: every order and placement of three inert lines.
func p20inert(w *W) {
	ins := strs(chars("ab"), w.Pick(4, 5))
	X := &Rule{Name: "X", Body: Seq(Cls("b"), Opt(Ref("Y")))}
	Y := &Rule{Name: "Y", Body: Cls("a"), Node: true}
	Z := &Rule{Name: "Z", Rank: []*Rule{{Name: "Z0", Body: Seq(Ref("Y"), Ref("X"))}, {Name: "", Body: Str("bb")}}}
	sets := [][]*E{
		{Seq(Ref("X"), Ref("Z")), Seq(Ref("Y"), Opt(Ref("X")))},
		{Seq(Lab("z", Ref("Z")), Lab("x", Star(Ref("X")))), Ref("Z0")},
		{Star(Alt(Ref("Z"), Ref("X"))), Seq(Not(Ref("Y")), Ref("X"), Ref("Y"))},
	}
	slots := []string{"before the entry", "after the entry", "first in the rank", "in the middle of the rank", "last in the rank", "within a nested rank", "within an inert rank", "within an inert rank nested in the nested rank"}
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	w.Suite("inert", fmt.Sprintf("%d grammars, three inert lines (one of them a rank) in every order and every placement among %d places, entry as a rank of two lines with a nested rank", len(sets), len(slots)))
	aux := []*Rule{X, Y, Z}
	for si, set := range sets {
		for _, pm := range perms {
			tuples(len(slots), 3, func(ix []int) {
				if !w.Unit() {
					return
				}
				at := make([][]j.Line, len(slots))
				for q, s := range ix {
					at[s] = append(at[s], j.I(lineArgs(aux[pm[q]])...))
				}
				var hold, hold2 []j.Line
				if len(at[6]) > 0 {
					hold = []j.Line{j.I(j.Named("HOLD", cat([]j.Line{j.O("'aa'")}, at[6])))}
				}
				if len(at[7]) > 0 {
					hold2 = []j.Line{j.I(j.Named("HOLD2", cat(at[7], []j.Line{j.O(`[ab]*`)})))}
				}
				nested := j.O(j.Named("NEST", cat(at[5], hold2, []j.Line{j.O(set[1].Text())})))
				rank := cat(at[2], []j.Line{j.O(set[0].Text())}, at[3], []j.Line{nested}, at[4])
				ls := cat(at[0], hold, []j.Line{j.O(j.Named("S", rank))}, at[1])
				g := NewG(append([]*Rule{{Name: "S", Body: Alt(set...)}}, aux...)...)
				gt := fmt.Sprintf("[set %d, order %v: %s / %s / %s] %s", si, pm, slots[ix[0]], slots[ix[1]], slots[ix[2]], g.Text())
				w.About(gt)
				gm, e := compileLines(ls)
				if e != "" {
					w.Fail(Failure{What: "the layout is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
					return
				}
				w.cmpOn(gm, g, gt, ins, aTree)
			})
		}
	}
}

// p20lr: layouts of left-recursive choices.
func p20lr(w *W) {
	ins := strs(chars("ab"), w.Pick(5, 6))
	pool := []*E{
		Seq(Ref("S"), Str("a"), Ref("T")), Seq(Ref("S"), Str("b")), Ref("T"), Cls("a"), Seq(Lab("l", Ref("S")), Str("a"), Lab("r", Ref("T"))), Seq(Ref("S"), Ref("S")),
		Seq(Ref("Q"), Ref("T")), Seq(Opt(Str("b")), Ref("S"), Str("b")),
	}
	aux := []*Rule{{Name: "T", Body: Alt(Seq(Str("bb"), Cls("a")), Cls("b")), Node: true}, {Name: "Q", Body: Seq(Ref("S"), Str("ab"))}}
	w.Suite("left-recursive", fmt.Sprintf("S = every ordered pair and triple of %d alternatives calling S first, directly or not, in every layout", len(pool)))
	do := func(alts []*E, k int) {
		for li, ly := range layouts {
			w.laid(lay{alts, aux, (k+li)%2 == 0}, ly, ins)
		}
	}
	tuples(len(pool), 2, func(ix []int) { do([]*E{pool[ix[0]], pool[ix[1]]}, ix[0]) })
	tuples(len(pool), 3, func(ix []int) {
		if w.Thorough() || (ix[0]+ix[1]+ix[2])%2 == 0 {
			do([]*E{pool[ix[0]], pool[ix[1]], pool[ix[2]]}, ix[1])
		}
	})
}

// subst replaces the references to name by the expression by.
func (e *E) subst(name string, by *E) *E {
	if e.Op == ORef && e.S == name {
		c := *by
		c.Label = e.Label
		if by.Label != "" {
			panic("labelled body")
		}
		return &c
	}
	c := *e
	c.re = nil
	c.K = nil
	for _, k := range e.K {
		c.K = append(c.K, k.subst(name, by))
	}
	return &c
}

func (e *E) hasSeq() bool {
	if e.Op == OSeq {
		return true
	}
	for _, k := range e.K {
		if k.hasSeq() {
			return true
		}
	}
	return false
}

func p20inline(w *W) {
	ins := strs(chars("ab"), w.Pick(4, 5))
	bodies := []*E{Str("a"), Cls("ab"), Seq(Cls("a"), Cls("b")), Alt(Str("ab"), Cls("a")), Opt(Cls("b")), Plus(Cls("a")), Seq(Str("a"), Opt(Ref("Y"))), Not(Str("b")), Look(Cls("a")), StarJ(Ref("Y"), Str("b")), Star(Opt(Str("a")))}
	atoms := []*E{Str("a"), Cls("b"), Ref("X")}
	l1 := grow(atoms, unaries, binaries)
	w.Suite("inline", fmt.Sprintf("all expressions of depth<=2 over {'a',[b],X} containing X, with X a rule or inlined, for %d bodies of X (no label, no callback)", len(bodies)))
	n := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		e := mk()
		if !e.refs("X") {
			return
		}
		n++
		for bi, b := range bodies {
			if !w.Thorough() && (n+bi)%5 != 0 || !w.Unit() {
				continue
			}
			Y := &Rule{Name: "Y", Body: Cls("a"), Node: true}
			g1 := NewG(&Rule{Name: "S", Body: e}, &Rule{Name: "X", Body: b}, Y)
			g2 := NewG(&Rule{Name: "S", Body: e.subst("X", b)}, Y)
			gt := g1.Text() + "  <->  " + g2.Text()
			w.About(gt)
			gm1, e1 := g1.Compile()
			gm2, e2 := g2.Compile()
			if e1 != "" || e2 != "" {
				w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e1 + e2})
				continue
			}
			for _, in := range ins {
				x := w.model(g1, in)
				if x.over {
					w.cur.Skipped++
					continue
				}
				w.Case(in)
				o1, o2 := parse(gm1, in), parse(gm2, in)
				if o1.Kind == "panic" || o2.Kind == "panic" || o1.Accept() != o2.Accept() || o1.Accept() != x.accept {
					w.Fail(Failure{What: "inlining a rule changes acceptance", Grammar: gt, Input: in, Expected: "reference: " + o1.String() + "; model: " + x.String(), Got: "inlined: " + o2.String()})
					break
				}
				if x.accept && !e.hasSeq() && o1.Val != o2.Val {
					w.Fail(Failure{What: "inlining a rule changes the production", Grammar: gt, Input: in, Expected: "reference: " + o1.String(), Got: "inlined: " + o2.String()})
					break
				}
				if x.accept {
					w.Outcome("accepted")
				} else {
					w.Outcome("refused")
				}
			}
		}
	})
}

// p20prebuilt: bodies given as already compiled parsers.
func p20prebuilt(w *W) {
	ins := strs(chars("ab"), w.Pick(4, 5))
	atoms := []*E{Str("a"), Cls("ab"), Ref("X")}
	l1 := grow(atoms, unaries, binaries)
	w.Suite("prebuilt", "bodies of S: expressions of depth<=2 over 3 atoms, X: 3 bodies; S, X given as text or as parsers compiled by the joeson grammar, directly or in a line, with and without callbacks")
	xb := []*E{Str("b"), Seq(Lab("l", Cls("a")), Cls("b")), Opt(Cls("b"))}
	n := 0
	each2(l1, unaries, binaries, func(mk func() *E) {
		n++
		if !w.Thorough() && n%4 != 0 || !w.Unit() {
			return
		}
		e := mk()
		for v := 0; v < 6; v++ {
			S := &Rule{Name: "S", Body: e, Node: n%3 == 0}
			X := &Rule{Name: "X", Body: xb[n%3], Node: n%2 == 0}
			g := NewG(S, X)
			pre := func(r *Rule, on bool) []any {
				if !on {
					return lineArgs(r)
				}
				a := jo().Get().ParseString(r.Body.Text())
				args := []any{j.Named(r.Name, a.(j.Parser))}
				if v > 2 {
					args[0] = j.Named(r.Name, j.O(a.(j.Parser)))
				}
				if r.Node {
					args = append(args, mkNode(r.Name))
				}
				return args
			}
			gt := fmt.Sprintf("[prebuilt %d] %s", v, g.Text())
			w.About(gt)
			gm, er := func() (gm *j.Grammar, er string) {
				defer func() {
					if e := recover(); e != nil {
						er = firstLine(fmt.Sprint(e))
					}
				}()
				return compileLines([]j.Line{j.O(pre(S, v%3 != 0)...), j.I(pre(X, v%3 != 1)...)})
			}()
			if er != "" {
				w.Fail(Failure{What: "the layout is refused", Grammar: gt, Got: er, Expected: "a compiled grammar"})
				return
			}
			if w.cmpOn(gm, g, gt, ins, aTree) {
				return
			}
		}
	})
}
