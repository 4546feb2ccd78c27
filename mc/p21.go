package main

// P21: parse callbacks. Every rule of the enumerated grammars gets one of the
// behaviours below, in one of the three signatures; values, the set of calls
// and aborted parses are compared with the model's.

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P21", p21, "three rules with every assignment of 8 callback behaviours; inputs up to the stated length over {a,b}",
		"calls are compared as sets of (rule, end of match, production); how often a left-recursive rule repeats a call is not compared")
}

const nBehave = 8

var behaveNames = []string{"no callback", "wraps", "returns it", "rejects b", "rejects all", "constant", "error on b", "undefined"}

// hasB: the production contains the text b
func hasB(canon string) bool { return strings.Contains(canon, "b\"") || strings.Contains(canon, "\"b") }

// behaveModel is the model of a behaviour; nil rejects.
func behaveModel(k int, name string) func(v *Val, start, end int) *Val {
	return func(v *Val, start, end int) *Val {
		s := v.String()
		switch k {
		case 1:
			return &Val{K: VNode, S: name, A: []*Val{v}, Start: start, End: end}
		case 2:
			return v
		case 3:
			if hasB(s) {
				return nil
			}
			return &Val{K: VNode, S: name, A: []*Val{v}, Start: start, End: end}
		case 4:
			return nil
		case 5:
			return vs("k")
		case 6:
			if hasB(s) {
				return &Val{K: VErr, S: "no b in " + name}
			}
			return v
		case 7:
			return vundef
		}
		panic("behaviour")
	}
}

func behaveImpl(k int, name string, it j.Ast, ctx *j.ParseContext) j.Ast {
	switch k {
	case 1:
		return &node{j.NewAttr(), name, it, ""}
	case 2:
		return it
	case 3:
		if hasB(canonStr(it)) {
			return nil
		}
		return &node{j.NewAttr(), name, it, ""}
	case 4:
		return nil
	case 5:
		return j.NewNativeString("k")
	case 6:
		if hasB(canonStr(it)) {
			if ctx != nil {
				return ctx.Error("no b in " + name)
			}
			return j.NewParseError(nil, "no b in "+name)
		}
		return it
	case 7:
		return j.NewNativeUndefined()
	}
	panic("behaviour")
}

type cbCall struct {
	rule, val string
	end       int
}

func (c cbCall) String() string { return fmt.Sprintf("%s(%s) ending at %d", c.rule, c.val, c.end) }

// recorder installs the callbacks of a grammar, and observes them.
type recorder struct {
	calls   []cbCall
	in      string
	bad     string
	bomb    int // panic at the bomb-th call (-1: never)
	bombVal any
}

func (r *recorder) seen(name string, it j.Ast, ctx *j.ParseContext) {
	if it == nil {
		r.bad = "the callback of " + name + " is called with nil"
		return
	}
	c := cbCall{name, canonStr(it), -1}
	if ctx != nil {
		c.end = ctx.Code.Pos()
		if ctx.Code.Code() != r.in {
			r.bad = fmt.Sprintf("the callback of %s sees the code %q", name, ctx.Code.Code())
		}
		if ctx.GrammarName != "g" {
			r.bad = fmt.Sprintf("the callback of %s sees the grammar name %q", name, ctx.GrammarName)
		}
	}
	r.calls = append(r.calls, c)
	if r.bomb >= 0 {
		if r.bomb == 0 {
			r.bomb = -1
			panic(r.bombVal)
		}
		r.bomb--
	}
}

func (r *recorder) cb(k, sig int, name string) any {
	switch sig % 3 {
	case 0:
		return func(it j.Ast) j.Ast { r.seen(name, it, nil); return behaveImpl(k, name, it, nil) }
	case 1:
		return func(it j.Ast, ctx *j.ParseContext) j.Ast { r.seen(name, it, ctx); return behaveImpl(k, name, it, ctx) }
	}
	return func(it j.Ast, ctx *j.ParseContext, caller j.Ast) j.Ast {
		r.seen(name, it, ctx)
		if caller == nil {
			r.bad = "the callback of " + name + " has no caller"
		}
		return behaveImpl(k, name, it, ctx)
	}
}

// behave gives the rules of g the behaviours bs (in allRules order), compiles
// it and compares every input.
//
// nest, when given, has for each rule (but those having a rank) the behaviours
// of the lines nested in its line, innermost first.
func (w *W) behave(g *G, bs []int, sig int, inputs []string, nest ...[]int) {
	rs := g.allRules()
	rec := &recorder{bomb: -1}
	lr := g.LeftRecursive()
	desc := ""
	id := map[*Rule]string{}
	noCtx := map[string]bool{}
	cbOf := map[*Rule]any{}
	steps := map[*Rule][]step{}
	for i, r := range rs {
		r.Cb, r.Node, r.Nest = nil, false, nil
		id[r] = fmt.Sprintf("%s#%d", r.Name, i)
		if k := bs[i%len(bs)]; k != 0 {
			r.Cb = behaveModel(k, id[r])
			cbOf[r] = rec.cb(k, sig+i, id[r])
			noCtx[id[r]] = (sig+i)%3 == 0
			desc += fmt.Sprintf(" %s:%s", r.Name, behaveNames[k])
		}
		if len(nest) > 0 && r.Rank == nil {
			steps[r] = nil
			for depth, k := range nest[i%len(nest)] {
				nm := fmt.Sprintf("%s.%d", id[r], depth)
				noCtx[nm] = (sig+i+depth)%3 == 0
				st := step{nm, nil}
				var args []any
				if k != 0 {
					st.cb = behaveModel(k, nm)
					args = []any{rec.cb(k, sig+i+depth, nm)}
				}
				steps[r] = append(steps[r], st)
				r.Nest = append(r.Nest, args)
				desc += fmt.Sprintf(" %s:%s", nm, behaveNames[k])
			}
			if len(r.Nest) > 0 {
				steps[r] = append(steps[r], step{id[r], r.Cb})
				r.Cb = compose(steps[r])
			}
		}
	}
	gt := g.Text() + " --" + desc
	w.About(gt)
	gm, e := g.Compile(func(r *Rule) []any {
		if f := cbOf[r]; f != nil {
			return []any{f}
		}
		return nil
	})
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return
	}
	for _, in := range inputs {
		want := map[cbCall]bool{}
		x := w.modelWith(g, in, modelBudget, func(m *Interp) {
			m.OnMatch = func(r *Rule, v *Val, start, end int) {
				st := steps[r]
				if st == nil {
					st = []step{{id[r], r.Cb}}
				}
				for _, s := range st {
					if s.cb == nil {
						continue
					}
					c := cbCall{s.name, v.String(), end}
					if noCtx[c.rule] {
						c.end = -1
					}
					want[c] = true
					if v = s.cb(v, start, end); v == nil {
						break
					}
				}
			}
		})
		if x.over {
			w.cur.Skipped++
			continue
		}
		w.Case(in)
		rec.calls, rec.in, rec.bad = rec.calls[:0], in, ""
		o := parse(gm, in)
		what, exp, got := "", "", ""
		if x.accept && strings.HasPrefix(x.val, "!") {
			w.Outcome("error node")
			if o.Kind != "err" || o.Err != x.val[1:] {
				what, exp, got = "the error node returned by a callback is not the result", x.val, o.String()
			}
		} else {
			what, exp, got = agree(x, o, in, aAccept|aTree)
			if x.accept {
				w.Outcome("accepted")
			} else {
				w.Outcome("refused")
			}
		}
		if what == "" && rec.bad != "" {
			what, got = "a callback is given a wrong context", rec.bad
		}
		if what == "" {
			had := map[cbCall]bool{}
			for _, c := range rec.calls {
				had[c] = true
				if !want[c] {
					what, exp, got = "a callback is called although its rule does not match this way", callList(want), c.String()
				}
			}
			for c := range want {
				if what == "" && !had[c] {
					what, exp, got = "a callback is not called although its rule matches", c.String(), callList(had)
				}
			}
			if !lr && len(rec.calls) > 0 {
				w.Outcome("calls compared")
			}
		}
		if what != "" {
			w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: got})
			return
		}
		if x.accept && in != "" {
			w.Sample(fmt.Sprintf("%s on %q => %s after %d calls", gt, in, x.val, len(rec.calls)))
		}
	}
}

// step: a callback of one of the nested lines of a rule.
type step struct {
	name string
	cb   func(v *Val, start, end int) *Val
}

func compose(st []step) func(v *Val, start, end int) *Val {
	any := false
	for _, s := range st {
		any = any || s.cb != nil
	}
	if !any {
		return nil
	}
	return func(v *Val, start, end int) *Val {
		for _, s := range st {
			if v != nil && s.cb != nil {
				v = s.cb(v, start, end)
			}
		}
		return v
	}
}

func callList(m map[cbCall]bool) string {
	var a []string
	for c := range m {
		a = append(a, c.String())
	}
	sort.Strings(a)
	return strings.Join(a, "; ")
}

// shapes: three rules S, A, B in the ways rules can use each other.
func p21shapes() []func() *G {
	var out []func() *G
	sbodies := []*E{
		Alt(Ref("A"), Ref("B")), Seq(Ref("A"), Ref("B")), Alt(Seq(Ref("A"), Ref("B")), Ref("A"), Star(Ref("B"))), Star(Ref("A")), StarJ(Ref("A"), Ref("B")), Plus(Alt(Ref("A"), Ref("B"))),
		Seq(Opt(Ref("A")), Ref("B")), Seq(Not(Ref("A")), Star(Ref("B"))), Seq(Look(Ref("A")), Star(Ref("B"))), Seq(Lab("x", Ref("A")), Lab("y", Opt(Ref("B")))), Lab("l", Alt(Ref("B"), Ref("A"))),
		Rep(Ref("B"), 1, 2), Seq(Opt(Seq(Ref("A"), Str("b"))), Star(Ref("A")), Opt(Ref("B"))), Alt(Seq(Str("a"), Ref("B"), Str("b")), Seq(Str("a"), Ref("B"), Ref("A")), Seq(Str("a"), Ref("B"))),
	}
	ab := [][2]*E{
		{Cls("a"), Cls("b")}, {Cls("ab"), Seq(Cls("a"), Cls("b"))}, {Seq(Str("a"), Ref("B")), Alt(Cls("b"), Seq(Ref("B2"), Str("a")))}, {Seq(Lab("p", Cls("ab")), Lab("q", Opt(Cls("b")))), Opt(Cls("a"))},
	}
	for _, s := range sbodies {
		for _, p := range ab {
			out = append(out, func() *G {
				rs := []*Rule{{Name: "S", Body: s}, {Name: "A", Body: p[0]}, {Name: "B", Body: p[1]}}
				if p[1].refs("B2") {
					rs = append(rs, &Rule{Name: "B2", Body: Cls("ab")})
				}
				return NewG(rs...)
			})
		}
	}
	return out
}

func p21(w *W) {
	ins := strs(chars("ab"), 4)
	shapes := p21shapes()
	w.Suite("behaviours", fmt.Sprintf("%d grammars of three rules, each of the 8^3 assignments of behaviours to S, A, B, signatures rotating; inputs {a,b}^<=4", len(shapes)))
	for si, mk := range shapes {
		n := 0
		tuples(nBehave, 3, func(ix []int) {
			n++
			if w.Unit() {
				w.behave(mk(), append(append([]int{}, ix...), 1), si+n, ins)
			}
		})
	}

	alts := []*E{Str("a"), Cls("b"), Seq(Cls("a"), Ref("X")), Star(Ref("X")), Lab("l", Ref("X"))}
	w.Suite("ranks", "a rank of an unnamed line and a nested rank of two lines, 5 bodies each, with every assignment of the callbacks of 4 of the rules among 4 behaviours, the two others rotating; inputs {a,b}^<=4")
	few := []int{0, 1, 3, 6}
	tuples(len(alts), 3, func(ix []int) {
		c := 0
		tuples(len(few), 4, func(b []int) {
			c++
			if !w.Thorough() && (c+ix[0]+ix[1])%3 != 0 || !w.Unit() {
				return
			}
			g := NewG(&Rule{Name: "S", Body: Seq(Ref("R"), Opt(Ref("R")))},
				&Rule{Name: "R", Rank: []*Rule{{Name: "", Body: alts[ix[0]]}, {Name: "Q", Rank: []*Rule{{Name: "N", Body: alts[ix[1]]}, {Name: "", Body: alts[ix[2]]}}}}},
				&Rule{Name: "X", Body: Cls("ab")})
			// S, R, R[0], Q, N, Q[1], X
			w.behave(g, []int{1, few[b[0]], few[b[1]], c % nBehave, few[b[2]], (c / nBehave) % nBehave, few[b[3]]}, c, ins)
		})
	})

	bodies := ruleBodies([]string{"A", "B"}, w.Thorough())
	step := w.Pick(7, 1)
	w.Suite("rules3", fmt.Sprintf("S, A, B: every %dth triple of %d bodies, no left recursion, behaviours rotating; inputs {a,b}^<=4", step, len(bodies)))
	c := 0
	for _, s := range bodies {
		for _, a := range bodies {
			for _, b := range bodies {
				c++
				if c%step != 0 || !w.Unit() {
					continue
				}
				g := NewG(&Rule{Name: "S", Body: s}, &Rule{Name: "A", Body: a}, &Rule{Name: "B", Body: b})
				if g.LeftRecursive() {
					w.Outcome("left-recursive, not here")
					continue
				}
				h := c / step
				w.behave(g, []int{h % nBehave, (h / 8) % nBehave, (h / 3) % nBehave}, c, ins)
			}
		}
	}

	lrb := []*E{Seq(Ref("S"), Str("a"), Ref("T")), Seq(Ref("S"), Ref("T")), Ref("T"), Seq(Lab("l", Ref("S")), Cls("b")), Seq(Ref("Q"), Str("b")), Cls("a"), Seq(Ref("Q"), Ref("T"))}
	ins5 := strs(chars("ab"), 5)
	w.Suite("left-recursive", fmt.Sprintf("S: all ordered pairs and triples of %d alternatives calling S first directly or through Q; all assignments of 6 behaviours to S, Q, T; inputs {a,b}^<=5", len(lrb)))
	lb := []int{0, 1, 2, 3, 4, 6}
	do := func(alts ...*E) {
		n := 0
		tuples(len(lb), 3, func(b []int) {
			n++
			if len(alts) == 3 && !w.Thorough() && n%9 != 0 {
				return
			}
			g := NewG(&Rule{Name: "S", Body: Alt(alts...)}, &Rule{Name: "Q", Body: Seq(Ref("S"), Str("a"))}, &Rule{Name: "T", Body: Cls("ab")})
			if !g.SingleEntry() || !w.Unit() {
				return
			}
			w.behave(g, []int{lb[b[0]], lb[b[1]], lb[b[2]]}, n, ins5)
		})
	}
	tuples(len(lrb), 2, func(ix []int) { do(lrb[ix[0]], lrb[ix[1]]) })
	tuples(len(lrb), 3, func(ix []int) { do(lrb[ix[0]], lrb[ix[1]], lrb[ix[2]]) })

	w.Suite("nested-lines", fmt.Sprintf("%d grammars of three rules whose lines contain a line (or a line containing a line) with every triple of the 8 behaviours for the inner, middle and outer line of one rule, rotating for the others; inputs {a,b}^<=3", len(shapes)))
	ins3 := strs(chars("ab"), 3)
	for si, mk := range shapes {
		if !w.Thorough() && si%3 != 0 {
			continue
		}
		n := 0
		tuples(nBehave, 3, func(ix []int) {
			n++
			if !w.Unit() {
				return
			}
			in := [][]int{{ix[0], ix[1]}, {ix[2]}, {}}
			r := (si + n) % 3
			w.behave(mk(), []int{ix[2], ix[1], ix[0]}, si+n, ins3, in[r], in[(r+1)%3], in[(r+2)%3])
		})
	}

	p21panics(w, shapes)
	p21tokens(w, shapes)

	N := w.Pick(60, 150)
	w.Suite("scale", fmt.Sprintf("chains and nests of rejecting callbacks, sizes 1..%d", N))
	for n := 1; n <= N; n++ {
		if w.Unit() { // n alternatives all rejected but the last
			var k []*E
			rs := []*Rule{nil}
			bs := []int{1}
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("C%d", i)
				k = append(k, Ref(nm))
				rs = append(rs, &Rule{Name: nm, Body: Plus(Cls("ab"))})
				bs = append(bs, 3+i%2)
			}
			k = append(k, Plus(Cls("b")))
			rs[0] = &Rule{Name: "S", Body: Alt(k...)}
			w.behave(NewG(rs...), bs, n, []string{"bb", "ab", "b", "a", ""})
		}
		if w.Unit() { // a chain of rules, rejecting at depth n
			var rs []*Rule
			var bs []int
			for i := 0; i < n; i++ {
				rs = append(rs, &Rule{Name: fmt.Sprintf("C%d", i), Body: Alt(Ref(fmt.Sprintf("C%d", i+1)), Seq(Str(rep("a", i%3)), Str("b")))})
				bs = append(bs, []int{1, 3, 2}[i%3])
			}
			rs = append(rs, &Rule{Name: fmt.Sprintf("C%d", n), Body: Star(Cls("ab"))})
			bs = append(bs, 3)
			w.behave(NewG(rs...), bs, n, []string{"b", "ab", "aab", "aa", ""})
		}
		if w.Unit() { // rejected items end a repetition
			w.behave(NewG(&Rule{Name: "S", Body: Seq(Star(Ref("A")), Ref("B"))}, &Rule{Name: "A", Body: Cls("ab")}, &Rule{Name: "B", Body: Star(Cls("ab"))}), []int{1, 3, 2}, n, []string{rep("a", n) + "b" + rep("a", n), rep("a", n), rep("b", n)})
		}
	}
	v := 0
	namesSuite(w, 3, func(g *G, ins []string) {
		v++
		w.behave(g, [][]int{{1}, {1, 0, 3}, {2, 3, 0, 1}, {0, 2, 1, 7}}[v%4], v, ins)
	})
	hugeSuite(w, w.Pick(16, 17), flatKinds, func(g *G, ins []string) {
		v++
		w.behave(g, [][]int{{1}, {1, 0, 3}, {2, 3, 0, 1}, {0, 2, 1, 7}}[v%4], v, ins)
	})
	sizesSuite(w, append(plainKernels(), recursiveKernels()...), [3]int{w.Pick(9, 11), w.Pick(7, 9), w.Pick(10, 12)}, func(g *G, ins []string) {
		v++
		w.behave(g, [][]int{{1}, {1, 0, 3}, {2, 3, 0, 1}, {0, 2, 1, 7}}[v%4], v, ins)
	})
}

type bombT struct{ n int }

// p21panics: a callback panics at its k-th call, for every k.
func p21panics(w *W, shapes []func() *G) {
	ins := []string{"a", "b", "ab", "ba", "aab", "abab"}
	w.Suite("panics", fmt.Sprintf("the grammars above plus left-recursive ones, all callbacks wrapping; panic at the k-th callback call for every k, with 5 kinds of values; %d inputs", len(ins)))
	all := append([]func() *G{}, shapes...)
	all = append(all, func() *G {
		return NewG(&Rule{Name: "S", Body: Alt(Seq(Ref("S"), Ref("A")), Ref("A"))}, &Rule{Name: "A", Body: Cls("ab")})
	}, func() *G {
		return NewG(&Rule{Name: "S", Body: Alt(Ref("Q"), Ref("A"))}, &Rule{Name: "Q", Body: Seq(Ref("S"), Opt(Str("b")), Ref("A"))}, &Rule{Name: "A", Body: Cls("ab")})
	})
	for si, mk := range all {
		for _, in := range ins {
			if !w.Unit() {
				continue
			}
			g := mk()
			rec := &recorder{bomb: -1}
			gm, e := g.Compile(func() func(r *Rule) []any {
				i := 0
				return func(r *Rule) []any { i++; return []any{rec.cb(1, si+i, r.Name)} }
			}())
			gt := g.Text()
			w.About(gt)
			if e != "" {
				w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e})
				return
			}
			rec.in = in
			w.Case(in)
			ref := parse(gm, in)
			total := len(rec.calls)
			for k := 0; k < total; k++ {
				for _, v := range []any{"a string", &bombT{k}, errors.New("an error"), j.NewParseError(nil, "a parse error"), 42} {
					w.Case(fmt.Sprintf("%q, panic %T at call %d", in, v, k))
					rec.calls, rec.bomb, rec.bombVal = rec.calls[:0], k, v
					var got any
					func() {
						defer func() { got = recover() }()
						gm.ParseString(in)
					}()
					w.cur.States++
					w.cur.Transitions += k + 1
					if !samePanic(got, v) || len(rec.calls) != k+1 {
						w.Fail(Failure{What: "the panic of a callback does not reach the caller as it is", Grammar: gt, Input: in, Expected: fmt.Sprintf("panic %v after %d calls", v, k+1), Got: fmt.Sprintf("%v after %d calls", got, len(rec.calls))})
						return
					}
					w.Outcome("aborted")
				}
			}
			rec.bomb = -1
			if o := parse(gm, in); o.String() != ref.String() {
				w.Fail(Failure{What: "after an aborted parse the result differs", Grammar: gt, Input: in, Expected: ref.String(), Got: o.String()})
			}
		}
	}
}

func samePanic(a, b any) bool {
	if x, ok := a.(j.ParseError); ok {
		y, ok := b.(j.ParseError)
		return ok && x.Attr == y.Attr && x.ErrorString == y.ErrorString
	}
	if _, ok := b.(j.ParseError); ok {
		return false
	}
	return a == b
}

// p21tokens: callbacks see the context of a parse of tokens.
func p21tokens(w *W, shapes []func() *G) {
	w.Suite("tokens", fmt.Sprintf("%d grammars, one-character tokens separated by blanks: what callbacks see when tokens are parsed", len(shapes)))
	ins := strs(chars("ab"), 4)
	for si, mk := range shapes {
		if !w.Unit() {
			continue
		}
		g := mk()
		rec := &recorder{bomb: -1}
		i := 0
		id := map[*Rule]string{}
		gm, e := g.Compile(func(r *Rule) []any {
			i++
			id[r] = r.Name
			r.Cb = behaveModel(1, r.Name)
			return []any{rec.cb(1, 1+(si+i)%2, r.Name)}
		})
		gt := g.Text()
		w.About(gt)
		if e != "" {
			w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e})
			return
		}
		for _, in := range ins[1:] {
			want := map[cbCall]bool{}
			x := w.modelWith(g, in, modelBudget, func(m *Interp) {
				m.OnMatch = func(r *Rule, v *Val, start, end int) { want[cbCall{id[r], v.String(), end}] = true }
			})
			var toks []j.Token
			src := ""
			for k, c := range in {
				toks = append(toks, j.Token{Repr: string(c), OriginalOffset: len(src), WorkOffset: k})
				src += string(c) + " "
			}
			w.Case(in)
			rec.calls, rec.in, rec.bad = rec.calls[:0], src, ""
			o := runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(src, toks)) })
			what, exp, got := agree(x, o, in, aAccept|aTree)
			if what == "" && rec.bad != "" {
				what, got = "a callback is given a wrong context", rec.bad
			}
			had := map[cbCall]bool{}
			for _, c := range rec.calls {
				had[c] = true
			}
			if a, b := callList(want), callList(had); what == "" && a != b {
				what, exp, got = "the callbacks called differ", a, b
			}
			if what != "" {
				w.Fail(Failure{What: "parsing tokens: " + what, Grammar: gt, Input: src, Expected: exp, Got: got})
				return
			}
			w.Outcome("compared")
		}
	}
}
