package main

// P24: the trace of a parse tells what the parser did.
//
// Without left recursion, the whole trace is computed from the reference
// interpreter run with a memory of the rules it evaluated, and compared line
// by line. With left recursion, the trace is read back as a tree of attempts,
// whose structure, positions and results are checked.

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P24", p24, "expressions up to the stated depth, inputs up to the stated length; the position displayed on a line telling that a rule failed is left unspecified, as are colours; with left recursion the structure of the trace and the results it reports are checked instead of every line")
}

// shown is how the library prints a production.
func (v *Val) shown() string {
	switch v.K {
	case VStr:
		return v.S
	case VUndef:
		return "<NativeUndefined>"
	case VArr:
		var a []string
		for _, x := range v.A {
			a = append(a, x.shown())
		}
		return "[" + strings.Join(a, ",") + "]"
	case VMap:
		var a []string
		for i, x := range v.A {
			a = append(a, v.Keys[i]+":"+x.shown())
		}
		return "NativeMap{" + strings.Join(a, ", ") + "}"
	case VNode:
		return "<" + v.S + " " + v.A[0].shown() + ">"
	}
	panic("value")
}

func (v *Val) typeName() string {
	switch v.K {
	case VStr:
		return fmt.Sprintf("%T", j.NewNativeString(""))
	case VUndef:
		return fmt.Sprintf("%T", j.NewNativeUndefined())
	case VArr:
		return fmt.Sprintf("%T", j.NewEmptyNativeArray())
	case VMap:
		return fmt.Sprintf("%T", j.NewEmptyNativeMap())
	case VNode:
		return fmt.Sprintf("%T", &node{})
	}
	panic("value")
}

// tline is one line of a trace: where it was printed (-1: unspecified), the
// number of bars, and the message.
type tline struct {
	pos, depth int
	msg        string
	rule       string
}

func runesBefore(s string, pos, n int) string {
	r := []rune(s[:pos])
	return string(r[max(0, len(r)-n):])
}

func runesAfter(s string, pos, n int) string {
	r := []rune(s[pos:])
	return string(r[:min(len(r), n)])
}

// where is what precedes the bars at a position of the (valid) text. Of the
// text before the position the library shows up to 5 characters, fewer near
// its beginning: how many is left unspecified (the field is masked by whereIs).
func where(in string, pos int) string {
	l, c := lineCol(in, pos)
	a := printEsc.Replace(runesAfter(in, pos, 20))
	a = a[:min(len(a), 20)]
	end := "]"
	if pos+20 < len(in) {
		end = ">"
	}
	return fmt.Sprintf("%d,%d\t     %s%s ", l, c, padRow(a, 20), end)
}

// whereIs masks the text before the position, once it is known to be a part
// of it.
func whereIs(in string, pos int, pre string) string {
	t := strings.IndexByte(pre, '\t') + 1
	if b := printEsc.Replace(in[:pos]); strings.HasSuffix(b, strings.TrimLeft(pre[t:t+5], " ")) || strings.HasSuffix("     "+b, pre[t:t+5]) {
		return pre[:t] + "     " + pre[t+5:]
	}
	return pre
}

// split takes a printed line apart: what precedes the bars, bars, message.
func splitTrace(s string) (pre string, depth int, msg string, ok bool) {
	t := strings.IndexByte(s, '\t')
	if t < 0 || len(s) < t+1+27 {
		return
	}
	pre, msg = s[:t+1+27], s[t+1+27:]
	for strings.HasPrefix(msg, "| ") {
		depth++
		msg = msg[2:]
	}
	return pre, depth, msg, true
}

// finalNames gives the rules their names in the library.
func (g *G) finalNames() map[*Rule]string {
	m := map[*Rule]string{}
	var f func(r *Rule, name string)
	f = func(r *Rule, name string) {
		if r.Name != "" {
			name = r.Name
		}
		m[r] = name
		for i, k := range r.Rank {
			f(k, fmt.Sprintf("%s[%d]", name, i))
		}
	}
	for _, r := range g.Rules {
		f(r, r.Name)
	}
	return m
}

func (r *Rule) spell(names map[*Rule]string) string {
	if r.Rank == nil {
		return r.Body.bare()
	}
	var a []string
	for _, k := range r.Rank {
		a = append(a, names[k])
	}
	return "Rank(" + strings.Join(a, ",") + ")"
}

// traceOf is the trace of a parse without left recursion; uncached rules have
// no memory.
func traceOf(g *G, in string, names map[*Rule]string, uncached map[string]bool) (lines []tline, over bool) {
	m := NewInterp(g, in)
	m.Limit = modelBudget + 40*len(in)
	memo := map[seedKey]*res{}
	depth := 0
	result := func(x res) string {
		if !x.ok {
			return "nil"
		}
		return printEsc.Replace(x.val.shown()) + " " + x.val.typeName()
	}
	m.OnRule = func(r *Rule, pos int) (x res) {
		n := names[r]
		lines = append(lines, tline{pos, depth, fmt.Sprintf("* %s: %s", n, r.spell(names)), n})
		k := seedKey{r, pos}
		if y := memo[k]; y != nil && !uncached[n] {
			lines = append(lines, tline{pos, depth, "`-hit: " + result(*y), n})
			return *y
		}
		depth++
		x = m.rule0(r, pos)
		depth--
		memo[k] = &x
		end, what := x.end, "`-set: "
		if !x.ok {
			end = -1
		}
		if uncached[n] {
			what = "`->: "
		}
		lines = append(lines, tline{end, depth, what + result(x), n})
		return x
	}
	m.rule(g.Rules[0], 0)
	return lines, m.Over
}

// sameTrace compares printed lines with the expected ones.
func sameTrace(in string, exp []tline, got []string) (what, e, o string) {
	count := 0 // what was evaluated so far, told by the lines of the attempts
	for i := 0; i < len(exp) || i < len(got); i++ {
		if i >= len(got) {
			return "the trace lacks a line", fmt.Sprintf("%s%s%s", wherePos(in, exp[i].pos), strings.Repeat("| ", exp[i].depth), exp[i].msg), "end of the trace"
		}
		pre, d, msg, ok := splitTrace(got[i])
		if i >= len(exp) {
			return "the trace has a line too many", "end of the trace", got[i]
		}
		x := exp[i]
		if k := strings.LastIndexByte(msg, ' '); k > 0 && strings.HasPrefix(msg, "* ") {
			if n, e := strconv.Atoi(msg[k+1:]); e != nil || n < count {
				return "the amount of rules evaluated so far", fmt.Sprint("at least ", count), got[i]
			} else {
				count, msg = n, msg[:k]
			}
		}
		if !ok || d != x.depth || msg != x.msg || x.pos >= 0 && whereIs(in, x.pos, pre) != where(in, x.pos) {
			return fmt.Sprintf("a line of the trace differs (line %d)", i), wherePos(in, x.pos) + strings.Repeat("| ", x.depth) + x.msg, got[i]
		}
	}
	return
}

func wherePos(in string, pos int) string {
	if pos < 0 {
		return "(anywhere) "
	}
	return where(in, pos)
}

func splitLines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// traceLines checks everything about one grammar without left recursion.
func traceLines(w *W, c *capture, g *G, ins []string, uncached map[string]bool) bool {
	gt := g.Text()
	for n := range uncached {
		gt += " (uncached " + n + ")"
	}
	w.About(gt)
	names := g.finalNames()
	bad := func(what, in, exp, got string) bool {
		w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: got})
		return false
	}
	var rules []string // those which may get Debug
	for _, r := range g.Rules {
		rules = append(rules, r.Name)
	}
	build := func(to j.TraceOptions, debug string) *j.Grammar {
		gm, e := g.compileWith(j.GrammarOptions{TraceOptions: &to, LazyGrammar: jo()}, func(r *Rule) (a []any) {
			if r.Name != "" && uncached[r.Name] {
				a = append(a, j.SkipCache{Bool: true})
			}
			if r.Name != "" && r.Name == debug {
				a = append(a, j.Debug{Bool: true})
			}
			return
		})
		if e != "" {
			bad("the grammar is refused", "", "compiled", e)
		}
		return gm
	}
	mute := *j.Mute()
	stack := mute
	stack.Stack = true
	stack.SkipSetup = true
	before := c.mark()
	gms := build(stack, "")
	gmm := build(mute, "")
	if gms == nil || gmm == nil {
		return false
	}
	if n := c.size() - before; n != 0 {
		return bad("building a grammar prints something although the setup is not to be traced", "", "nothing", c.text(before))
	}
	byLine := map[int]*j.Grammar{}
	for l := 0; l < 3; l++ {
		o := stack
		o.FilterLine = l
		if byLine[l] = build(o, ""); byLine[l] == nil {
			return false
		}
	}
	dbg := map[string]*j.Grammar{}
	for _, n := range rules {
		if dbg[n] = build(mute, n); dbg[n] == nil {
			return false
		}
	}
	for _, in := range ins {
		exp, over := traceOf(g, in, names, uncached)
		if over {
			w.cur.Skipped++
			continue
		}
		w.cur.States += len(exp)
		run := func(gm *j.Grammar, po ...j.ParseOption) []string {
			w.Case(in)
			w.cur.Transitions += len(exp)
			before := c.mark()
			if o := parse(gm, in, po...); o.Kind == "panic" {
				return []string{o.String()}
			}
			return splitLines(plainText(c.text(before)))
		}
		full := run(gms)
		if what, e, o := sameTrace(in, exp, full); what != "" {
			return bad(what, in, e, o)
		}
		same := func(what string, want, got []string) bool {
			if strings.Join(want, "\n") != strings.Join(got, "\n") {
				return bad(what, in, strings.Join(want, "\n"), strings.Join(got, "\n"))
			}
			return true
		}
		if !same("the trace of a call with Debug is not the one of the stack option", full, run(gmm, j.Debug{Bool: true})) ||
			!same("a call with SkipLog is traced", nil, run(gms, j.SkipLog{Bool: true})) ||
			!same("a muted call is traced", nil, run(gmm)) ||
			!same("a call with Debug{false} is traced", nil, run(gmm, j.Debug{Bool: true}, j.Debug{Bool: false})) {
			return false
		}
		for l := 0; l < 3; l++ {
			var want []string
			for _, s := range full {
				if strings.HasPrefix(s, fmt.Sprintf("%d,", l)) {
					want = append(want, s)
				}
			}
			if !same(fmt.Sprintf("with line=%d, the trace is not that of this line", l), want, run(byLine[l])) {
				return false
			}
		}
		for _, n := range rules {
			var want []string
			for i, s := range full {
				if exp[i].rule == n {
					want = append(want, s)
				}
			}
			if !same("with Debug for "+n+", the trace is not that of this rule", want, run(dbg[n])) {
				return false
			}
		}
		// tokens
		toks := []j.Token{}
		for i := range in {
			k := i + 1
			for k < len(in) && in[k]&0xc0 == 0x80 {
				k++
			}
			toks = append(toks, j.Token{Repr: in[i:k], OriginalOffset: i, WorkOffset: i})
		}
		if in != "" {
			before := c.mark()
			runParse(func() j.Ast { return gms.ParseTokens(j.NewTokenStream(in, toks)) })
			// at the end of the text, the line and column are those of the end of the last token
			if !same("the trace over tokens differs", full, splitLines(plainText(c.text(before)))) {
				return false
			}
		}
		w.Outcome(fmt.Sprintf("%d lines", (len(exp)+9)/10*10))
		if len(w.cur.Samples) < 3 && len(exp) > 6 {
			w.Sample(fmt.Sprintf("%s on %q: %d lines, the last one %q", gt, in, len(full), full[len(full)-1]))
		}
	}
	return true
}

// attempt is one attempt of a rule, as read back from a trace.
type attempt struct {
	rule, pre string
	sub       [][]*attempt // by iteration
	how, val  string
}

// readTrace reads the attempts at the given depth.
func readTrace(lines []string, depth int) (a []*attempt, rest []string, err string) {
	rest = lines
	for len(rest) > 0 {
		pre, d, msg, ok := splitTrace(rest[0])
		if !ok {
			return a, rest, "unreadable: " + rest[0]
		}
		if d < depth || !strings.HasPrefix(msg, "* ") {
			return
		}
		if d > depth {
			return a, rest, "an attempt with no attempt around it: " + rest[0]
		}
		name, _, _ := strings.Cut(msg[2:], ": ")
		x := &attempt{rule: name, pre: pre}
		first := rest[0]
		rest = rest[1:]
		for {
			var sub []*attempt
			if sub, rest, err = readTrace(rest, depth+1); err != "" {
				return
			}
			x.sub = append(x.sub, sub)
			if len(rest) == 0 {
				return a, rest, "an attempt with no result: " + first
			}
			_, d, msg, _ = splitTrace(rest[0])
			if strings.HasPrefix(msg, "|`--- loop iteration ---") && d == depth { // its own bar
				rest = rest[1:]
				continue
			}
			if d != depth {
				return a, rest, "misplaced: " + rest[0]
			}
			for _, h := range []string{"`-hit: ", "`-set: ", "`->: ", "`-base: ", "`--- loop nil --- ", "`--- loop done! --- best result: "} {
				if strings.HasPrefix(msg, h) {
					x.how, x.val = h, msg[len(h):]
				}
			}
			if x.how == "" {
				return a, rest, "not the result of an attempt: " + rest[0]
			}
			rest = rest[1:]
			break
		}
		a = append(a, x)
	}
	return
}

// loops checks the trace of a grammar whose left recursive cycles are each
// entered by one rule, which heads lists.
func traceLoops(w *W, c *capture, g *G, heads []string, ins []string) bool {
	gt := g.Text()
	w.About(gt)
	bad := func(what, in, exp, got string) bool {
		w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: got})
		return false
	}
	isHead := map[string]bool{}
	for _, h := range heads {
		isHead[h] = true
	}
	names := g.finalNames()
	byName := map[string]*Rule{}
	for r, n := range names {
		byName[n] = r
	}
	to := *j.Mute()
	to.Stack, to.SkipSetup = true, true
	gm, e := g.compileWith(j.GrammarOptions{TraceOptions: &to, LazyGrammar: jo()}, func(*Rule) []any { return nil })
	if e != "" {
		return bad("the grammar is refused", "", "compiled", e)
	}
	for _, in := range ins {
		w.Case(in)
		before := c.mark()
		o := parse(gm, in)
		lines := splitLines(plainText(c.text(before)))
		w.cur.Transitions += len(lines)
		tops, rest, err := readTrace(lines, 0)
		if err == "" && len(rest) > 0 {
			err = "a result without an attempt: " + rest[0]
		}
		if err != "" {
			return bad("the trace is not made of attempts and their results", in, "attempts, each with its result", err+"\n"+strings.Join(lines, "\n"))
		}
		if len(tops) != 1 {
			return bad("the entry rule is not attempted once", in, "1 attempt", fmt.Sprint(len(tops)))
		}
		var msg string
		var visit func(a *attempt, enclosing map[string]string)
		visit = func(a *attempt, enclosing map[string]string) {
			if msg != "" {
				return
			}
			w.cur.States++
			at := a.rule + " at " + a.pre
			r := byName[a.rule]
			if r == nil {
				msg = "no such rule: " + at
				return
			}
			pos := -1
			for p := 0; p <= len(in); p++ {
				if where(in, p) == whereIs(in, p, a.pre) {
					pos = p
				}
			}
			if pos < 0 {
				msg = "no such position: " + at
				return
			}
			n := 0
			for _, s := range a.sub {
				n += len(s)
			}
			prev, inside := enclosing[at]
			switch a.how {
			case "`-hit: ":
				if n > 0 || len(a.sub) != 1 || inside {
					msg = "remembered although it is being computed, or attempts inside: " + at
				}
			case "`-base: ":
				if !inside || n > 0 {
					msg = "the result so far is taken where there is none: " + at
				} else if v, _, _ := strings.Cut(a.val, " "); v != prev && !strings.HasPrefix(a.val, prev+" ") {
					msg = "the result so far of " + at + " is " + prev + ", not " + a.val
				}
			case "`-set: ":
				if inside || len(a.sub) != 1 {
					msg = "computed within itself, or in several iterations without left recursion: " + at
				}
			case "`--- loop nil --- ":
				if inside || len(a.sub) != 1 || !isHead[a.rule] {
					msg = "loop nil: " + at
				}
			case "`--- loop done! --- best result: ":
				if inside || len(a.sub) < 2 || !isHead[a.rule] {
					msg = "loop done: " + at
				}
			default:
				msg = a.how + ": " + at
			}
			if msg != "" {
				return
			}
			// values: those of a rule evaluated with nothing else going on are known
			if len(enclosing) == 0 || isHead[a.rule] && !inside {
				m := NewInterp(g, in)
				m.Limit = modelBudget + 40*len(in)
				x := m.rule(r, pos)
				if !m.Over {
					want := "nil"
					if x.ok {
						want = printEsc.Replace(x.val.shown())
						if a.how != "`--- loop done! --- best result: " {
							want += " " + x.val.typeName()
						}
					}
					if a.how == "`--- loop nil --- " {
						a.val = "nil"
					}
					if a.val != want && a.how != "`-base: " {
						msg = "the result of " + at + " is " + want + ", not " + a.val
						return
					}
				}
			}
			// the iterations: the result so far is the one of the previous iteration
			in2 := map[string]string{}
			for k, v := range enclosing {
				in2[k] = v
			}
			for i, s := range a.sub {
				if isHead[a.rule] {
					in2[at] = "nil"
					if i > 0 {
						m := NewInterp(g, in)
						m.Limit = modelBudget + 40*len(in)
						in2[at] = printEsc.Replace(m.seedAfter(r, pos, i).shown())
					}
				}
				for _, k := range s {
					visit(k, in2)
				}
			}
		}
		visit(tops[0], map[string]string{})
		if msg != "" {
			return bad("the trace is wrong", in, "the attempts and results of the parse", msg+"\n"+strings.Join(lines, "\n"))
		}
		w.Outcome(o.Kind)
		if len(w.cur.Samples) < 3 && len(tops[0].sub) > 1 {
			w.Sample(fmt.Sprintf("%s on %q: %d lines, %d evaluations of the entry", gt, in, len(lines), len(tops[0].sub)))
		}
	}
	return true
}

// seedAfter is the result of a left recursive rule after n evaluations of its body.
func (m *Interp) seedAfter(r *Rule, pos, n int) *Val {
	s := &seed{}
	m.seeds[seedKey{r, pos}] = s
	for i := 0; i < n; i++ {
		x := m.ruleBody(r, pos)
		if !x.ok || m.Over {
			return vundef
		}
		s.ok, s.val, s.end = true, x.val, x.end
	}
	return s.val
}

func p24(w *W) {
	os.Unsetenv("TRACE")
	os.Unsetenv("trace")
	c := startCapture()
	defer c.stop()
	R := func(n string, b *E, node bool) *Rule { return &Rule{Name: n, Body: b, Node: node} }

	atoms := []*E{Str("a"), Cls(`b\n`), Rgx("b*"), Ref("X"), Ref("_Y"), Lab("l", Ref("X"))}
	l1 := dedup(grow(atoms, unaries, binaries))
	small := []*E{Ref("X"), Ref("_Y"), Str("a")}
	l2 := dedup(append(append([]*E{}, l1...), grow(dedup(grow(small, unaries, binaries)), unaries, binaries)...))
	var pool []*E
	for _, e := range l2 {
		if !hasQuirk(e) && !labelledOperand(e) {
			pool = append(pool, e)
		}
	}
	ins := strs([]string{"a", "b", "\n"}, 2)
	ins = append(ins, "aba\nb", "\n\na", "ab\tb", "\\a\a", strings.Repeat("ab", 14), "é\na", "aébb\n")
	ins3 := append(strs([]string{"a", "b", "\n"}, 3), ins...)
	w.Suite("grammars", fmt.Sprintf("S: x, with X: 'a' (a callback), _Y: X 'b' | [b\\n], or X+ [b\\n]?, or X* k:[\\n] | [b]*, for %d expressions x (a quarter of the rules given as compiled parsers): depth<=1 over %d atoms, depth<=2 over %d; inputs over {a,b,newline}^<=2 (depth 2 quick) or 3, and %d others; for each: the stack option, Debug per call and per rule, SkipLog, each of 3 filtered lines, tokens", len(pool), len(atoms), len(small), len(ins)-13))
	ys := []*E{Alt(Seq(Ref("X"), Str("b")), Cls(`b\n`)), Seq(Plus(Ref("X")), Opt(Cls(`b\n`))), Alt(Seq(Star(Ref("X")), Lab("k", Cls(`\n`))), Star(Cls("b")))}
	for i, e := range pool {
		if i >= len(l1) && !w.Thorough() && i%17 != 0 {
			continue
		}
		if !w.Unit() {
			continue
		}
		g := NewG(R("S", e, i%3 == 0), R("X", Str("a"), true), R("_Y", ys[i%3], i%6 == 5))
		for _, r := range g.Rules {
			r.Pre = i%4 == 1
		}
		in := ins
		if i < len(l1) {
			in = ins3
		}
		if !traceLines(w, c, g, in, nil) {
			return
		}
	}

	w.Suite("layouts", "grammars with ranks, nested ranks, repeated and uncached rules, deep nesting, callbacks rejecting nothing; inputs over {a,b,newline}^<=4 and long ones")
	deep := []*Rule{R("S", Alt(Seq(Ref("R0"), Str("!")), Ref("R0")), true)}
	for i := 0; i < 12; i++ {
		deep = append(deep, R(fmt.Sprintf("R%d", i), Alt(Seq(Ref(fmt.Sprintf("R%d", i+1)), Str("b")), Ref(fmt.Sprintf("R%d", i+1))), i%2 == 0))
	}
	deep = append(deep, R("R12", Star(Str("a")), false))
	lay := []*G{
		NewG(&Rule{Name: "S", Rank: []*Rule{{Body: Seq(Ref("A"), Ref("A"))}, {Name: "T", Rank: []*Rule{{Body: Ref("A")}, {Name: "U", Body: Str("b"), Node: true}}}}}, R("A", Str("a"), true)),
		NewG(&Rule{Name: "S", Node: true, Rank: []*Rule{{Body: Seq(Lab("x", Ref("A")), Lab("y", Opt(Ref("B"))))}, {Name: "", Rank: []*Rule{{Body: Star(Ref("B"))}, {Body: Ref("A")}}}}}, R("A", Plus(Str("a")), false), R("B", Cls(`b\n`), true)),
		NewG(R("S", Star(Ref("L")), false), R("L", Seq(Lab("k", Ref("W")), Opt(Seq(Str("b"), Lab("v", Ref("W")))), Str("\n")), true), R("W", Plus(Cls("aé")), false)),
		NewG(R("S", Alt(Seq(Ref("A"), Str("b")), Seq(Ref("A"), Str("\n")), Ref("A")), false), R("A", Seq(Ref("B"), Star(Ref("B"))), false), R("B", Alt(Str("a"), Seq(Not(Ref("C")), Rgx("b"))), true), R("C", Str("bb"), false)),
		NewG(deep...),
		NewG(R("S", Alt(Seq(Str("a"), Ref("S"), Str("b")), Opt(Str("a"))), true)),
	}
	ins4 := append(strs([]string{"a", "b", "\n"}, 4), ins...)
	ins4 = append(ins4, "aaa\naba\na\n", "aéba\n", strings.Repeat("a", 30)+strings.Repeat("b", 30), strings.Repeat("a", 150)+strings.Repeat("b", 150), strings.Repeat("\n", 40), strings.Repeat("ab", 70))
	for _, g := range lay {
		for v := 0; v < 1<<len(g.Rules) && v < 8; v++ {
			if !w.Unit() {
				continue
			}
			un := map[string]bool{}
			for b := range g.Rules {
				if v>>b&1 == 1 {
					un[g.Rules[b].Name] = true
				}
			}
			if !traceLines(w, c, g, ins4, un) {
				return
			}
		}
	}

	bad := false
	sizesSuite(w, plainKernels(), [3]int{w.Pick(7, 10), w.Pick(7, 9), w.Pick(8, 11)}, func(g *G, ins []string) {
		if !bad && !traceLines(w, c, g, ins, nil) {
			bad = true
		}
	})
	if bad {
		return
	}

	cs := append(everyChar(), shortTexts()...)
	w.Suite("characters", fmt.Sprintf("%d characters and short texts, as what is parsed, as results, remembered or not, in literals, classes and regular expressions, alone, repeated and beside others", len(cs)))
	for _, ch := range cs {
		if strings.ContainsAny(ch, "\x1b") || !w.Unit() {
			continue // taken for colours
		}
		lit := Str(ch)
		gs := []*G{
			NewG(R("S", Alt(Seq(Ref("A"), Str("b")), Ref("A")), false), R("A", Plus(lit), true)),
			NewG(R("S", Star(Ref("A")), true), R("A", Alt(Seq(Str("a"), Ref("L"), Str("b")), Ref("L"), Str("a")), false), R("L", lit, false)),
		}
		if r := []rune(ch); len(r) == 1 {
			gs = append(gs, NewG(R("S", Seq(Ref("A"), Opt(Lab("l", Ref("A")))), false), R("A", Rgx(fmt.Sprintf(`[^\x{%x}]|\x{%x}+`, r[0], r[0])), false)))
		}
		for _, g := range gs {
			if !traceLines(w, c, g, []string{ch, "a" + ch, ch + "b", ch + ch + ch, ch + "\n" + ch, rep(ch, 30), rep(ch, 6) + "b", "a" + ch + "b" + ch + ch + "a"}, nil) {
				return
			}
		}
	}

	top := w.Pick(15, 17)
	w.Suite("long", fmt.Sprintf("results, literals, names, bodies, labels of n characters or parts, and parses of n attempts, n around powers of two up to 2^%d for attempts and results, 2^11 else", top))
	for _, n := range append(around(6, top, 1), 100, 1000, 10000) {
		for v := 0; v < 8; v++ {
			if n > 2100 && v >= 3 && v <= 6 || n > 5000 && n&(n-1) != 0 && n != 1<<15+1 || !w.Unit() {
				continue
			}
			as := rep("a", n)
			var g *G
			in := []string{as, as + "b"}
			switch v {
			case 0: // attempts
				g = NewG(R("S", Star(Ref("A")), false), R("A", Cls("a"), true))
			case 1: // a long text as result, remembered, and tried again
				g = NewG(R("S", Alt(Seq(Ref("A"), Str("c")), Seq(Ref("A"), Str("b")), Ref("A")), false), R("A", Rgx("a*"), false))
			case 2: // a long result of many parts, on many lines
				if n > 1<<12 {
					continue
				}
				g = NewG(R("S", Alt(Seq(Ref("A"), Str("c")), Ref("A")), false), R("A", Star(Cls(`a\n`)), n%2 == 0))
				in = []string{rep("a\n", n/2), rep("a\n", n/2) + "c"}
			case 3: // names
				p := "N" + rep("a_.Z9", n)[:n-1]
				g = NewG(R("S", Alt(Seq(Ref(p+"x"), Str("b")), Ref(p+"y")), true), R(p+"x", Str("a"), true), R(p+"y", Star(Ref(p+"x")), false))
				in = []string{"a", "ab", "aa", ""}
			case 4: // literals, bodies
				g = NewG(R("S", Alt(Seq(Ref("L"), Str("b")), Ref("L")), true), R("L", Str(as), n%2 == 0))
				in = append(in, "ab", "")
			case 5: // wide bodies
				var k []*E
				for i := 0; i < n; i++ {
					k = append(k, []*E{Str("a"), Ref("A"), Cls("a")}[i%3])
				}
				g = NewG(R("S", Seq(k...), false), R("A", Str("a"), true))
			case 6: // labels
				g = NewG(R("S", Seq(Lab("l"+as, Ref("A")), Opt(Lab("m"+as, Str("b")))), false), R("A", Star(Str("a")), true))
				in = []string{"a", "ab", "b", "aa"}
			case 7: // attempts within attempts
				if n > 1100 {
					continue
				}
				g = NewG(R("S", Alt(Seq(Ref("A"), Ref("S"), Str("b")), Ref("A")), false), R("A", Str("a"), n%2 == 0))
				in = []string{as, as + rep("b", n-1), as + "b"}
			}
			if !traceLines(w, c, g, in, nil) {
				return
			}
		}
	}

	w.Suite("left-recursion", "left recursive grammars: direct, two levels, indirect, through a nullable prefix, with operands nested in parentheses; inputs over {1,+,*,(,)}^<=4 and long ones: each attempt has its result, at its depth; iterations report the result so far")
	lr := []struct {
		g     *G
		heads []string
	}{
		{NewG(R("E", Alt(Seq(Lab("l", Ref("E")), Str("+"), Lab("r", Ref("T"))), Ref("T")), true), R("T", Alt(Seq(Ref("T"), Str("*"), Ref("F")), Ref("F")), false), R("F", Alt(Seq(Str("("), Ref("E"), Str(")")), Rgx("1")), true)), []string{"E", "T"}},
		{NewG(R("E", Alt(Seq(Ref("E"), Ref("_O"), Ref("E")), Str("1")), true), R("_O", Cls("+*"), false)), []string{"E"}},
		{NewG(R("E", Alt(Ref("A"), Rgx("1")), true), R("A", Seq(Ref("E"), Str("+"), Ref("F")), false), R("F", Alt(Seq(Str("("), Ref("E"), Str(")")), Rgx("1")), false)), []string{"E"}},
		{NewG(R("E", Alt(Seq(Opt(Str("(")), Ref("E"), Str("+")), Str("1")), false)), []string{"E"}},
		{NewG(&Rule{Name: "E", Rank: []*Rule{{Name: "P", Body: Seq(Ref("E"), Str("+"), Rgx("1")), Node: true}, {Body: Ref("E2")}, {Body: Str("1")}}}, R("E2", Seq(Str("("), Ref("E"), Str(")")), true)), []string{"E"}},
	}
	lins := append(strs(chars("1+*()"), w.Pick(4, 5)), "1+1*1+(1+1)*1", "((1))+1", "1+1+1+1+1+1+1+1", "1*1*1*1*1+1", "(1+1)*(1+1)+1", "1++", "1+(1+", "1\n+1")
	for _, x := range lr {
		for k := 0; k < len(lins); k += 40 {
			if !w.Unit() {
				continue
			}
			if !traceLoops(w, c, x.g, x.heads, lins[k:min(len(lins), k+40)]) {
				return
			}
		}
	}
}

// labelledOperand: a labelled operand of a lookahead or join.
func labelledOperand(e *E) bool {
	for i, k := range e.K {
		if k.Label != "" && (e.Op == ONot || e.Op == OLook || e.Op == OPat && i == 1) || labelledOperand(k) {
			return true
		}
	}
	return false
}
