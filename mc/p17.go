package main

import (
	"fmt"
	"os"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P17", p17, "all 48 combinations of trace options x options of the rules x options of the calls, on the stated grammars and inputs; the oracle is the same grammar compiled and run with everything muted")
}

// traced captures what the library prints (into a file of the worker).
type capture struct {
	f        *os.File
	out, err *os.File
}

func startCapture() *capture {
	f, e := os.CreateTemp("", "vmc-trace-")
	if e != nil {
		panic(e)
	}
	os.Remove(f.Name())
	c := &capture{f, os.Stdout, os.Stderr}
	os.Stdout, os.Stderr = f, f
	return c
}

func (c *capture) size() int64 {
	s, e := c.f.Seek(0, 1)
	if e != nil {
		panic(e)
	}
	return s
}

// mark is the size from which to look at what gets printed next. A file that has become large
// is emptied here, so never between a mark and the look.
func (c *capture) mark() int64 {
	s := c.size()
	if s > 64<<20 {
		c.f.Truncate(0)
		c.f.Seek(0, 0)
		return 0
	}
	return s
}

func (c *capture) stop() {
	os.Stdout, os.Stderr = c.out, c.err
	c.f.Close()
}

func traceCombos() []j.TraceOptions {
	var all []j.TraceOptions
	for m := 0; m < 16; m++ {
		for _, l := range []int{-1, 0, 1} {
			all = append(all, j.TraceOptions{Stack: m&1 != 0, Loop: m&2 != 0, Grammar: m&4 != 0, SkipSetup: m&8 != 0, FilterLine: l})
		}
	}
	return all
}

var callOptions = []struct {
	name string
	o    []j.ParseOption
}{
	{"", nil},
	{"Debug", []j.ParseOption{j.Debug{Bool: true}}},
	{"Debug{false}", []j.ParseOption{j.Debug{Bool: false}}},
	{"SkipLog", []j.ParseOption{j.SkipLog{Bool: true}}},
	{"Debug SkipLog", []j.ParseOption{j.Debug{Bool: true}, j.SkipLog{Bool: true}}},
	{"SkipLog{false} Debug Debug{false}", []j.ParseOption{j.SkipLog{Bool: false}, j.Debug{Bool: true}, j.Debug{Bool: false}}},
}

// tg is a grammar to trace.
type tg struct {
	g    *G
	ins  []string
	opts int // number of rules that get options
	skip []string
}

func traceGrammars() []tg {
	R := func(n string, b *E, node bool) *Rule { return &Rule{Name: n, Body: b, Node: node} }
	return []tg{
		{NewG(R("E", Alt(Seq(Lab("l", Ref("E")), Str("+"), Lab("r", Ref("T"))), Ref("T")), true), R("T", Alt(Seq(Ref("T"), Str("*"), Ref("F")), Ref("F")), false), R("F", Alt(Seq(Str("("), Ref("E"), Str(")")), Rgx("[0-9]+")), true)),
			[]string{"1", "1+2*3", "(1+2)*3", "1+", "", "x", "(1", "1\n+2"}, 3, nil},
		{NewG(R("S", Star(Ref("L")), true), R("L", Seq(Lab("k", Ref("W")), Opt(Seq(Str("="), Lab("v", Ref("W")))), Str("\n")), true), R("W", Plus(Cls("a-zé")), false)),
			[]string{"a=b\n", "a\nb=é\n", "a=\n", "a=b\n!\n", "\xff\n", "a\xff", "", "aé\n\nb"}, 3, []string{"W"}},
		{NewG(&Rule{Name: "S", Rank: []*Rule{{Name: "A", Body: Seq(Ref("S"), Str("a")), Node: true}, {Name: "R", Rank: []*Rule{{Name: "", Body: Seq(Not(Str("b")), Look(Cls("c\n")), Ref("C"))}, {Name: "B", Body: Str("b"), Node: true}}}}}, R("C", Rep(Cls("c\n"), 1, 2), false)),
			[]string{"baa", "caa", "cc", "c\na", "ccca", "", "ab", "\n\na", "b\xff"}, 2, []string{"C"}},
		{NewG(R("S", Alt(Seq(Ref("X"), Str("!")), Seq(Ref("X"), Opt(Ref("X")))), false), R("X", Star(Opt(Str("a"))), true), R("_N", Str(""), false)),
			[]string{"", "a", "aa!", "b", "a!!", "!\n"}, 2, []string{"S", "X"}},
		{NewG(R("S", Alt(Ref("A"), Str("b")), true), R("A", Seq(Ref("B"), Str("a")), false), R("B", Alt(Ref("S"), Str("c")), true)),
			[]string{"ba", "baa", "ca", "b", "c", "", "a\n", "caaa"}, 3, nil},
		{NewG(R("S", StarJ(Lab("x", Ref("D")), Rgx(`[,\n]`)), false), R("D", Alt(Seq(Str("["), Ref("S"), Str("]")), Seq(Lab("i", Rgx("[0-9]*")))), true)),
			[]string{"1,2", "[1,[2\n3],,]", "[", "", ",", "1]\n", "[1\n,x"}, 2, []string{"D"}},
	}
}

// ruleOption: option number n of a rule (0: none).
func ruleOption(n int) []any {
	switch n {
	case 1:
		return []any{j.Debug{Bool: true}}
	case 2:
		return []any{j.SkipLog{Bool: true}}
	case 3:
		return []any{j.SkipCache{Bool: true}, j.Debug{Bool: true}}
	case 4:
		return []any{j.Debug{Bool: true}, j.SkipLog{Bool: true}}
	}
	return nil
}

func (g *G) compileWith(o j.GrammarOptions, extra func(r *Rule) []any) (gm *j.Grammar, err string) {
	defer func() {
		if e := recover(); e != nil {
			gm, err = nil, "PANIC "+firstLine(fmt.Sprint(e))
		}
	}()
	return j.GrammarWithOptionsFromLines("g", o, g.Lines(extra)), ""
}

func p17(w *W) {
	os.Unsetenv("TRACE")
	os.Unsetenv("trace")
	c := startCapture()
	defer c.stop()
	w.Suite("options", "6 grammars x all assignments of {none, Debug, SkipLog, uncached and Debug, Debug and SkipLog} to their rules x 48 trace options x 6 call options x 6-9 inputs")
	for gi, t := range traceGrammars() {
		rules := t.g.Rules
		if t.g.Rules[0].Rank != nil {
			rules = append(append([]*Rule{}, t.g.Rules[0].Rank...), t.g.Rules[1:]...)
		}
		no := 5
		tuples(no, t.opts, func(ix []int) {
			if !w.Thorough() && gi > 0 && len(ix) > 2 && (ix[0]+ix[1]+ix[2])%2 == 1 {
				return
			}
			byRule := map[string]int{}
			for i, r := range rules {
				if i < len(ix) {
					n := ix[i]
					if n == 3 {
						ok := false
						for _, s := range t.skip {
							ok = ok || s == r.Name
						}
						if !ok {
							return // left recursion needs the cache
						}
					}
					byRule[r.Name] = n
				}
			}
			if !w.Unit() {
				return
			}
			extra := func(r *Rule) []any { return ruleOption(byRule[r.Name]) }
			// rule options other than SkipCache must not matter
			plain := func(r *Rule) []any {
				if byRule[r.Name] == 3 {
					return []any{j.SkipCache{Bool: true}}
				}
				return nil
			}
			traceCase(w, c, t.g, t.ins, extra, plain, fmt.Sprint("rule options ", byRule), traceCombos(), gi%3 == 0 && ix[0] == 0)
		})
	}

	// options of another grammar
	w.Suite("neighbours", "3 grammars muted by Mute(), TRACE or nothing, made before and after another one muted in each of these ways whose trace options are then each of the 48; they stay silent")
	for _, g := range []*G{NewG(&Rule{Name: "S", Body: Seq(Str("a"), Opt(Ref("X")))}, &Rule{Name: "X", Body: Star(Cls("ab"))}), NewG(&Rule{Name: "S", Body: Alt(Seq(Ref("S"), Str("b")), Str("a"))}), NewG(&Rule{Name: "S", Body: Star(Str("a")), Node: true})} {
		ways := []func() *j.TraceOptions{j.Mute, func() *j.TraceOptions { return j.Mute().Copy() }, func() *j.TraceOptions { return j.TraceOptionsFromEnvironmentOrUse(j.Mute()) }, func() *j.TraceOptions { return nil }}
		none := func(*Rule) []any { return nil }
		for w1, way1 := range ways {
			for w2, way2 := range ways {
				if !w.Unit() {
					continue
				}
				w.About(g.Text())
				for _, to := range traceCombos() {
					w.Case(fmt.Sprintf("ways %d and %d, then %+v", w1, w2, to))
					make1 := func(way func() *j.TraceOptions) *j.Grammar {
						gm, err := g.compileWith(j.GrammarOptions{TraceOptions: way(), LazyGrammar: jo()}, none)
						if err != "" {
							w.Fail(Failure{What: "the grammar is refused", Grammar: g.Text(), Expected: "compiled", Got: err})
						}
						return gm
					}
					first := make1(way2)
					if first == nil {
						return
					}
					exp := calling(func() string { return snap(parse(first, "aab")) })
					other := make1(way1)
					if other == nil {
						return
					}
					opt := other.TraceOptions
					*opt = to
					before := c.mark()
					second := make1(way2)
					if second == nil {
						return
					}
					for _, gm := range []*j.Grammar{first, second} {
						got := calling(func() string { return snap(parse(gm, "aab")) })
						if got == exp && c.size() != before {
							got = "printed " + c.text(before)
						}
						w.cur.States++
						if got != exp {
							w.Fail(Failure{What: "a muted grammar depends on the trace options of another one", Grammar: g.Text(), Input: fmt.Sprintf("ways %d and %d, then %+v", w1, w2, to), Expected: exp, Got: got})
							return
						}
					}
					w.Outcome("silent")
				}
			}
		}
	}

	// many grammars, fewer options
	atoms := []*E{Str("a"), Cls(`a\n`), Rgx("b?"), Ref("X"), Ref("S")}
	l1 := dedup(grow(atoms, unaries, binaries))
	var some []j.TraceOptions
	for i, o := range traceCombos() {
		if i%5 == 3 || w.Thorough() {
			some = append(some, o)
		}
	}
	ins := strs([]string{"a", "b", "\n"}, w.Pick(2, 3))
	w.Suite("grammars", fmt.Sprintf("S: x | 'b' S, for all expressions x of depth<=1 over %d atoms, X: S 'b' | 'a'?, left recursion included; %d trace options, 6 call options; inputs over {a,b,newline}^<=%d", len(atoms), len(some), w.Pick(2, 3)))
	for _, e := range l1 {
		for v := 0; v < 2; v++ {
			if !w.Unit() {
				continue
			}
			g := NewG(&Rule{Name: "S", Body: Alt(e, Seq(Str("b"), Ref("S"))), Node: v == 1}, &Rule{Name: "X", Body: []*E{Opt(Str("a")), Alt(Seq(Ref("S"), Str("b")), Opt(Str("a")))}[v], Node: v == 0})
			traceCase(w, c, g, ins, func(r *Rule) []any { return ruleOption((len(r.Name) + v) % 3) }, func(*Rule) []any { return nil }, "", some, false)
		}
	}
}

func traceCase(w *W, c *capture, g *G, ins []string, extra, plain func(r *Rule) []any, ro string, combos []j.TraceOptions, own bool) {
	gt := g.Text() + " " + ro
	w.About(gt)
	w.Case("muted")
	fail := func(what, in, exp, got string) bool {
		w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: got})
		return false
	}
	ref, err := g.compileWith(j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: jo()}, plain)
	if err != "" {
		fail("the grammar is refused", "", "compiled", err)
		return
	}
	exp := map[string]string{}
	// rules with Debug print even when muted: only grammars without it must be silent
	silent := !hasDebug(g, extra)
	before := c.mark()
	for _, in := range ins {
		exp[in] = calling(func() string { return snap(parse(ref, in)) })
	}
	if c.size() != before {
		fail("muted parses print something", "", "nothing", fmt.Sprint(c.size()-before, " bytes"))
		return
	}
	// no options at all: as muted ones
	w.Case("without options")
	before = c.mark()
	if gm, err := g.compileWith(j.GrammarOptions{LazyGrammar: jo()}, plain); err != "" {
		fail("the grammar is refused without trace options", "", "compiled", err)
		return
	} else {
		for _, in := range ins {
			if got := calling(func() string { return snap(parse(gm, in)) }); got != exp[in] {
				fail("the parse differs without trace options", in, exp[in], got)
				return
			}
		}
		if n := c.size() - before; silent && n != 0 {
			fail("a grammar without trace options prints something", "", "nothing", c.text(before))
			return
		}
	}
	for ti, to := range combos {
		opt := to
		desc := fmt.Sprintf("%+v", to)
		w.Case("compile with " + desc)
		o := j.GrammarOptions{TraceOptions: &opt, LazyGrammar: jo()}
		if own {
			o.LazyGrammar = nil // the grammar of grammars is traced too
		}
		muted := !to.Stack && !to.Loop && !to.Grammar
		before := c.mark()
		gm, err := g.compileWith(o, extra)
		if err != "" {
			fail("compiling crashes with "+desc, "", "compiled", err)
			return
		}
		if muted && c.size() != before {
			fail("compiling with everything muted prints something", desc, "nothing", fmt.Sprint(c.size()-before, " bytes"))
			return
		}
		for _, co := range callOptions {
			for _, in := range ins {
				w.Case(desc + " " + co.name + " " + in)
				w.cur.Transitions++
				before := c.mark()
				got := calling(func() string { return snap(parse(gm, in, co.o...)) })
				if got != exp[in] {
					fail("the parse differs with "+desc+" and call options ("+co.name+")", in, exp[in], got)
					return
				}
				if opt != to {
					fail("the parse changed the trace options of the grammar", in, desc, fmt.Sprintf("%+v", opt))
					return
				}
				if !to.Stack && !to.Loop && silent && co.name != "Debug" && co.name != "Debug SkipLog" {
					if n := c.size(); n != before {
						fail("a parse that is not traced prints something ("+co.name+"), with "+desc, in, "nothing", fmt.Sprint(n-before, " bytes"))
						return
					}
				}
			}
			// over tokens
			in := ins[len(ins)-1] // tokens
			toks := []j.Token{}
			for i := 0; i < len(in); i++ {
				toks = append(toks, j.Token{Repr: in[i : i+1], OriginalOffset: i, WorkOffset: i})
			}
			w.Case(desc + " " + co.name + " tokens of " + in)
			if got := runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(in, toks), co.o...) }); got.Kind == "panic" || got.Accept() && snapNoLine(got) != snapNoLine(parse(ref, in)) {
				fail("the parse of tokens differs with "+desc+" and call options ("+co.name+")", in, exp[in], snap(got))
				return
			}
		}
		// histories of two calls: what is printed depends on the call alone
		amount := map[string]int64{}
		in := ins[ti%len(ins)]
		for _, c1 := range callOptions {
			for _, c2 := range callOptions {
				for _, co := range []int{0, 1} {
					o := []string{c1.name, c2.name}[co]
					w.Case(desc + " after (" + c1.name + "): " + o + " " + in)
					w.cur.Transitions++
					before := c.mark()
					got := calling(func() string { return snap(parse(gm, in, [][]j.ParseOption{c1.o, c2.o}[co]...)) })
					n := c.size() - before
					if got != exp[in] {
						fail("the parse differs with "+desc+" and call options ("+o+") after a call with ("+c1.name+")", in, exp[in], got)
						return
					}
					if m, ok := amount[o]; n >= 0 && ok && m != n {
						fail("the options given to a call apply to another one: calls with ("+c1.name+") then ("+c2.name+"), with "+desc, in, fmt.Sprint(m, " bytes printed by a call with (", o, ")"), fmt.Sprint(n, " bytes"))
						return
					} else if n >= 0 {
						amount[o] = n
					}
				}
			}
		}
		w.cur.States++
	}
	w.Outcome("same")
	if len(ro) > 0 {
		w.Sample(gt)
	}
}

func snapNoLine(o Out) string { return o.String() }

func hasDebug(g *G, extra func(r *Rule) []any) bool {
	var any1 func(rs []*Rule) bool
	any1 = func(rs []*Rule) bool {
		for _, r := range rs {
			for _, o := range extra(r) {
				if d, ok := o.(j.Debug); ok && d.Bool {
					return true
				}
			}
			if any1(r.Rank) {
				return true
			}
		}
		return false
	}
	return any1(g.Rules)
}
