package main

// P23: what a grammar prints about itself.
//
// A layout of lines (ranks, inert lines, names, callbacks) is enumerated; the
// table of its rules is computed from the layout by the few rules stated in
// the property, and compared row by row with what PrintRules, the grammar and
// loop trace options, String and CountRules give.

import (
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P23", p23, "expressions up to the stated depth, all layouts of lines up to the stated size; colours are ignored, the name of a kind of parser only has to be the same for all parsers of that kind and for no other")
}

// text returns what was printed since offset from.
func (c *capture) text(from int64) string {
	n := c.size() - from
	if n <= 0 {
		return ""
	}
	b := make([]byte, n)
	if _, e := c.f.ReadAt(b, from); e != nil && e != io.EOF {
		panic(e)
	}
	return string(b)
}

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

// plainText drops the colours, and the internal label of the optional groups
// whose labels are merged into those of the sequence.
func plainText(s string) string { return strings.ReplaceAll(ansiRe.ReplaceAllString(s, ""), "@:", "") }

var printEsc = strings.NewReplacer("\n", `\n`, "\r", `\r`, "\t", `\t`, `\`, `\\`, "\a", `\a`, "\f", `\f`, "\b", `\b`, "\v", `\v`)

// spell is the printed form of an expression.
func (e *E) spell() string {
	s := e.bare()
	if e.Label != "" {
		s = e.Label + ":" + s
	}
	return s
}

// bare is spell without the label of e itself.
func (e *E) bare() string {
	all := func(sep string) string {
		var a []string
		for _, k := range e.K {
			a = append(a, k.spell())
		}
		return strings.Join(a, sep)
	}
	switch e.Op {
	case OStr:
		return "'" + printEsc.Replace(e.S) + "'"
	case OClass:
		return "/" + strings.NewReplacer("\r", `\r`, "\n", `\n`, "\t", `\t`).Replace("(["+e.S+"])") + "/g"
	case ORegex:
		return "/" + strings.NewReplacer("\r", `\r`, "\n", `\n`, "\t", `\t`).Replace("("+e.S+")") + "/g"
	case ORef:
		return e.S
	case OSeq:
		return "(" + all(" ") + ")"
	case OChoice:
		return "(" + all(" | ") + ")"
	case OOpt:
		return e.K[0].spell() + "?"
	case OLook:
		return "(?" + e.K[0].spell() + ")"
	case ONot:
		return "!" + e.K[0].spell()
	case OPat:
		s := e.K[0].spell() + "*"
		if len(e.K) > 1 {
			s += e.K[1].spell()
		}
		if e.Min >= 0 || e.Max >= 0 {
			s += "{"
			if e.Min >= 0 {
				s += strconv.Itoa(e.Min)
			}
			s += ","
			if e.Max >= 0 {
				s += strconv.Itoa(e.Max)
			}
			s += "}"
		}
		return s
	}
	panic("op")
}

// pl is a line: either a body or lines below it.
type pl struct {
	inert bool
	name  string // may be empty for lines that are not inert
	body  *E
	sub   []*pl
	cb    bool
}

// row of the printed table, in the order of the ids.
type prow struct {
	name, kind, capt, label, labels, parent, body string
	// what a labelled sequence provides is either its label or its labels
	inner *string
}

func (l *pl) line() j.Line {
	var body any
	if l.sub != nil {
		var a []j.Line
		for _, k := range l.sub {
			a = append(a, k.line())
		}
		body = a
		if l.name == "" {
			body = j.NewALine(a)
		}
	} else {
		body = l.body.Text()
	}
	args := []any{body}
	if l.name != "" {
		args[0] = j.Named(l.name, body)
	}
	if l.cb {
		args = append(args, mkNode(l.name))
	}
	if l.inert {
		return j.I(args...)
	}
	return j.O(args...)
}

func (l *pl) text() string {
	s := ""
	if l.inert {
		s = "i "
	}
	s += l.name
	if l.cb {
		s += "^"
	}
	if l.sub == nil {
		return s + "=" + l.body.Text()
	}
	var a []string
	for _, k := range l.sub {
		a = append(a, k.text())
	}
	return s + "={" + strings.Join(a, "; ") + "}"
}

// names the line ends up with, below a rank of the given name as its n-th alternative.
func (l *pl) finalName(rank string, n int) string {
	if l.name != "" {
		return l.name
	}
	return rank + "[" + strconv.Itoa(n) + "]"
}

func isCapt(b bool) string {
	if b {
		return "y"
	}
	return "n"
}

// rankRows: rows of the rules of the lines below a rank, the names of its
// alternatives and whether all of them are captured.
func rankRows(rank, parent string, lines []*pl) (rows []prow, names []string, capt bool) {
	capt = true
	var alts []prow
	for pass := 0; pass < 2; pass++ {
		n := 0
		for _, l := range lines {
			if l.inert != (pass == 0) {
				continue
			}
			name := l.finalName(rank, n)
			if !l.inert {
				n++
				names = append(names, name)
			}
			var r prow
			if l.sub != nil {
				below, nm, c := rankRows(name, name, l.sub)
				r = prow{name: name, kind: "rank", capt: isCapt(c), parent: parent, body: "Rank(" + strings.Join(nm, ",") + ")"}
				rows = append(rows, below...)
			} else {
				e := l.body
				r = prow{name: name, kind: fmt.Sprint(e.kindOf()), capt: isCapt(e.capt()), label: e.Label, labels: strings.Join(e.labels(), ","), parent: parent, body: e.bare()}
				if e.Op == OSeq && e.Label != "" {
					b := *e
					b.Label = ""
					l := strings.Join(b.labels(), ",")
					r.inner = &l
				}
			}
			rows = append(rows, r)
			if !l.inert {
				alts = append(alts, r)
			}
		}
	}
	for _, a := range alts {
		capt = capt && a.capt == "y"
	}
	return
}

func (e *E) kindOf() string {
	return []string{OStr: "str", OClass: "regex", ORegex: "regex", ORef: "ref", OSeq: "sequence", OChoice: "choice", OOpt: "existential", OPat: "pattern", OLook: "lookahead", ONot: "not"}[e.Op]
}

func padRow(s string, n int) string { return s + strings.Repeat(" ", max(0, n-len(s))) }

// printCase: rows is what must be printed for the lines.
// own: also without any grammar of grammars given.
func printCase(w *W, c *capture, lines []*pl, kinds map[string]string, own bool) bool {
	var a []string
	var ls []j.Line
	for _, l := range lines {
		a = append(a, l.text())
		ls = append(ls, l.line())
	}
	gt := strings.Join(a, " ;; ")
	w.About(gt)
	rows, names, _ := rankRows("gram", "__grammar__", lines)
	w.cur.States += len(rows)
	bad := func(what, exp, got string) bool {
		w.Fail(Failure{What: what, Grammar: gt, Expected: exp, Got: got})
		return false
	}
	for opt := 0; opt < 16; opt++ {
		if opt >= 8 && !own {
			break
		}
		to := j.Mute()
		to.Grammar, to.Loop, to.SkipSetup = opt&1 != 0, opt&2 != 0, opt&4 != 0
		if opt%3 == 1 {
			to.FilterLine = 1
		}
		lazy := jo()
		if opt >= 8 {
			lazy = nil // the grammar of grammars is built for this one
		}
		w.Case(fmt.Sprintf("%+v", *to))
		w.cur.Transitions += len(rows)
		var gm *j.Grammar
		before := c.mark()
		if e := func() (e string) {
			defer func() {
				if x := recover(); x != nil {
					e = "PANIC " + firstLine(fmt.Sprint(x))
				}
			}()
			gm = j.GrammarWithOptionsFromLines("gram", j.GrammarOptions{TraceOptions: to, LazyGrammar: lazy}, ls)
			return ""
		}(); e != "" {
			return bad("the grammar is refused", "compiled", e)
		}
		built := plainText(c.text(before))
		if gm.CountRules() != len(rows) {
			return bad("CountRules is not the number of rules", fmt.Sprint(len(rows)), fmt.Sprint(gm.CountRules()))
		}
		if s := plainText(gm.String()); s != "GRAMMAR{Rank("+strings.Join(names, ",")+")}" {
			return bad("String of the grammar does not list its alternatives", "GRAMMAR{Rank("+strings.Join(names, ",")+")}", s)
		}
		before = c.mark()
		gm.PrintRules()
		table := plainText(c.text(before))
		if what, exp, got := tableSays(table, rows, names, kinds); what != "" {
			return bad(what, exp, got)
		}
		// parses change nothing
		for _, in := range []string{"", "a", "ab"} {
			parse(gm, in)
		}
		before = c.mark()
		gm.PrintRules()
		if t := plainText(c.text(before)); t != table {
			return bad("after some parses, the grammar prints something else", table, t)
		}
		// what is printed when the grammar is built
		loops := ""
		if to.Loop {
			for i, r := range rows {
				loops += "Loop " + strconv.Itoa(i) + ":\t" + r.name + ": " + r.body + "\n"
			}
		}
		exp := loops
		if to.Grammar {
			exp += table
		}
		if opt >= 8 && !to.SkipSetup && (to.Grammar || to.Loop) {
			// the grammar of grammars is described first
			i := strings.Index(built, "| name         : gram\n")
			if to.Loop {
				i = strings.LastIndex(built, "Loop 0:")
			} else if i >= 0 {
				i = strings.LastIndex(built[:i-1], "\n") + 1
			}
			if i <= 0 {
				return bad(fmt.Sprintf("what is printed when the grammar is built with %+v, the grammar of grammars being built too", *to), "two descriptions", built)
			}
			built = built[i:]
		}
		if built != exp {
			return bad(fmt.Sprintf("what is printed when the grammar is built with %+v", *to), exp, built)
		}
	}
	w.Outcome(fmt.Sprint(len(rows), " rules"))
	if len(rows) > 3 && len(w.cur.Samples) < 3 {
		w.Sample(fmt.Sprintf("%s: %d rules: %s", gt, len(rows), rows[len(rows)-1].body))
	}
	return true
}

// tableSays compares a printed table with its rows.
func tableSays(table string, rows []prow, names []string, kinds map[string]string) (what, exp, got string) {
	t := strings.Split(strings.TrimRight(table, "\n"), "\n")
	head := []string{"", "| name         : gram", "| contentString: GRAMMAR{Rank(" + strings.Join(names, ",") + ")}", "| rules        : " + strconv.Itoa(len(rows)), "|"}
	for i, h := range head {
		if i >= len(t) || i > 0 && strings.TrimRight(t[i], " ") != h {
			return "PrintRules: the head of the table", strings.Join(head, "\n"), table
		}
	}
	if len(rows) == 0 {
		return
	}
	if len(t) != len(head)+3+len(rows) {
		return "PrintRules does not print each rule once", fmt.Sprint(len(rows), " rows"), fmt.Sprint(len(t)-len(head)-3, " rows: ", table)
	}
	for i, r := range rows {
		line := strings.TrimRight(t[len(head)+2+i], " ")
		// the kind is a name of the library's: the same for the same kind
		pre := "|   " + padRow(r.name, 14) + " " + padRow(strconv.Itoa(i), 3) + " "
		if !strings.HasPrefix(line, pre) {
			return "PrintRules: name or number of a rule", pre, line
		}
		kind, rest, _ := strings.Cut(line[len(pre):], " ")
		if r.inner != nil && strings.Contains(rest, padRow(r.label, 7)+" "+padRow(*r.inner, 21)+" ") {
			r.labels = *r.inner
		}
		post := strings.TrimRight(strings.Repeat(" ", max(0, 20-len(kind)))+strings.Join([]string{padRow(r.capt, 3), padRow(r.label, 7), padRow(r.labels, 21), padRow(r.parent, 16), r.body}, " "), " ")
		if kind != kinds[r.kind] || rest != post {
			return "PrintRules: row of rule " + r.name, pre + kinds[r.kind] + " " + post, line
		}
	}
	return
}

func p23(w *W) {
	c := startCapture()
	defer c.stop()
	X := func() *pl { return &pl{inert: true, name: "X", body: Str("a")} }
	kinds := map[string]string{}
	learn := func(kind string, l *pl) {
		defer func() { recover() }()
		gm := j.GrammarWithOptionsFromLines("gram", opts(), []j.Line{l.line(), X().line()})
		before := c.mark()
		gm.PrintRules()
		for _, row := range strings.Split(plainText(c.text(before)), "\n") {
			if f := strings.Fields(row); len(f) > 4 && f[1] == "S" {
				kinds[kind] = f[3]
			}
		}
	}
	for _, e := range []*E{Str("a"), Cls("a"), Ref("X"), Seq(Str("a"), Str("b")), Alt(Str("a"), Str("b")), Opt(Str("a")), Star(Str("a")), Look(Str("a")), Not(Str("a"))} {
		learn(e.kindOf(), &pl{name: "S", body: e})
	}
	learn("rank", &pl{name: "S", sub: []*pl{{body: Str("a")}}})
	w.Suite("kinds", "the names of the kinds of parsers are different")
	if w.Unit() {
		w.About("kinds")
		names := map[string]bool{}
		for _, v := range kinds {
			names[v] = true
		}
		if len(names) != 10 {
			w.Fail(Failure{What: "PrintRules: kinds of parsers cannot be told apart", Expected: "10 names", Got: fmt.Sprint(kinds)})
		}
	}

	atoms := []*E{Str("a"), Str("b\n'\\"), Cls(`a-z\n`), Rgx("a|b?"), Ref("X"), Ref("_Y"), Lab("l", Ref("X")), Lab("_m", Str("a"))}
	un := append(append([]func(*E) *E{}, unaries...),
		func(k *E) *E { return Rep(k, 2, 3) },
		func(k *E) *E { return Lab("k", k) })
	bin := append(append([]func(a, b *E) *E{}, binaries...),
		func(a, b *E) *E { return RepJ(a, b, 1, -1) },
		func(a, b *E) *E { return RepJ(a, b, -1, 4) })
	l1 := dedup(grow(atoms, un, bin))
	l2 := l1
	small := []*E{Str("a"), Ref("_Y"), Lab("l", Ref("X")), Lab("m", Cls("b"))}
	l2 = dedup(append(l2, grow(dedup(grow(small, un, bin)), un, bin)...))
	keep := l2[:0:0]
	for _, e := range l2 {
		if printable(e) {
			keep = append(keep, e)
		}
	}
	w.Suite("bodies", fmt.Sprintf("%d expressions: depth<=1 over %d atoms, depth<=2 over %d (all operators, joins, bounds, labels), as the body of a rule beside two others", len(keep), len(atoms), len(small)))
	for i, e := range keep {
		if !w.Thorough() && i >= len(l1) && i%3 != 0 {
			continue
		}
		if !w.Unit() {
			continue
		}
		if !printCase(w, c, []*pl{{name: "S", body: e, cb: i%2 == 0}, X(), {inert: true, name: "_Y", body: Alt(Str("a"), Ref("X"))}}, kinds, i%23 == 0) {
			return
		}
	}

	// bounds of repetitions
	bs := []int{-1, 0, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 12345}
	w.Suite("bounds", fmt.Sprintf("repetitions with all pairs of bounds among %v, with and without a join, labelled or not, alone, in a sequence or within another repetition", bs))
	for _, lo := range bs {
		for _, hi := range bs {
			if hi >= 0 && lo > hi || lo < 0 && hi < 0 || !w.Unit() {
				continue
			}
			for k := 0; k < 12; k++ {
				e := Rep(Str("a"), lo, hi)
				if k&1 != 0 {
					e = RepJ(Ref("X"), Str("b"), lo, hi)
				}
				if k&2 != 0 {
					e = Lab("l", e)
				}
				switch k >> 2 {
				case 1:
					e = Seq(Str("b"), e, Opt(Ref("X")))
				case 2:
					e = Alt(Str("c"), Rep(Seq(Str("b"), e), max(hi, 0), -1))
				}
				if !printCase(w, c, []*pl{{name: "S", body: e}, X()}, kinds, false) {
					return
				}
			}
		}
	}

	// every character
	cs := append(everyChar(), "\r\n", "\n\r", "\t\n", "\r\r\n", "\\n", "\\\n", "''", "//", "\\'", "\x1b[1m")
	w.Suite("characters", fmt.Sprintf("strings, classes and regular expressions over %d characters and short texts, each alone, doubled and beside others", len(cs)))
	for _, ch := range cs {
		if !w.Unit() {
			continue
		}
		for _, t := range []string{ch, ch + ch, "a" + ch, ch + "a", "\n" + ch, ch + "\r", "a" + ch + "b" + ch + "c"} {
			es := []*E{Str(t), Lab("l", Str(t)), Opt(Str(t)), Seq(Str("a"), Lab("l", Str(t)))}
			if strings.Contains(t, "\x1b[") {
				continue // taken for colours
			}
			if !strings.ContainsAny(t, `\[]()*+?.|^${}/`) && utf8.ValidString(t) {
				es = append(es, Rgx(t), Rgx("x|"+t), Seq(Rgx(t), Star(Rgx("y"+t))))
				if !strings.ContainsAny(t, "-") {
					es = append(es, Cls(t), Plus(Cls("a-z"+t)))
				}
			}
			for _, e := range es {
				if !printCase(w, c, []*pl{{name: "S", body: e}, X()}, kinds, false) {
					return
				}
			}
		}
	}

	// many lines
	ns := append([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21, 22, 99, 100, 101, 102}, w.Pick(256, 1024)+1)
	w.Suite("many", fmt.Sprintf("grammars and ranks of %v alternatives, none, one in two or all of them named, with inert lines between or not, also as a choice or a sequence of that many operands", ns))
	for _, n := range ns {
		for k := 0; k < 12; k++ {
			if !w.Unit() {
				continue
			}
			var ls []*pl
			for i := 0; i < n; i++ {
				l := &pl{body: Str(fmt.Sprint("a", i))}
				if k%3 == 1 && i%2 == 0 || k%3 == 2 {
					l.name = fmt.Sprint("N", i)
				}
				ls = append(ls, l)
				if k%2 == 1 && i%3 == 0 {
					ls = append(ls, &pl{inert: true, name: fmt.Sprint("_I", i), body: Seq(Ref("X"), Lab("l", Str("b")))})
				}
			}
			if k >= 6 {
				ls = []*pl{{body: Str("z")}, {name: "R", sub: ls}, {inert: true, name: "In", sub: []*pl{{body: Str("y")}}}}
			}
			if !printCase(w, c, append(ls, X()), kinds, false) {
				return
			}
		}
		if n < 2 || n > 200 || !w.Unit() {
			continue
		}
		var es []*E
		for i := 0; i < n; i++ {
			es = append(es, Lab([]string{"", fmt.Sprint("l", i)}[i%2], []*E{Ref("X"), Str("b"), Opt(Ref("X"))}[i%3]))
		}
		for _, e := range []*E{Seq(es...), Alt(es...), Lab("k", Alt(es...)), Star(Seq(es...))} {
			if printable(e) && !printCase(w, c, []*pl{{name: "S", body: e}, X()}, kinds, false) {
				return
			}
		}
	}

	// names
	nm := []string{"gram", "gram0", "N", "_", "__grammar__", "Rank", "verylongnameofaruleindeed", "é", ""}
	w.Suite("names", fmt.Sprintf("ranks within ranks and rules in them, with names among %q (the grammar is called gram)", nm))
	for _, a := range nm {
		for _, b := range nm {
			for _, d := range nm {
				if a == b && a != "" || a == d && a != "" || b == d && b != "" || !w.Unit() {
					continue
				}
				leaf := func() *pl { return &pl{name: d, body: Alt(Str("a"), Ref("X"))} }
				for _, f := range [][]*pl{
					{{name: a, sub: []*pl{{body: Str("c")}, {name: b, sub: []*pl{{body: Str("b")}, leaf()}}}}},
					{{name: a, sub: []*pl{{name: b, body: Str("c")}, leaf()}}, {body: Str("b")}},
					{{name: a, body: Str("c")}, {name: b, sub: []*pl{leaf()}}},
				} {
					if !printCase(w, c, append(f, X()), kinds, false) {
						return
					}
				}
			}
		}
	}

	// layouts: all forests of n lines
	bodies := []*E{Str("b"), Ref("X"), Seq(Lab("l", Ref("X")), Str("c")), Alt(Str("a"), Str("b"))}
	N := w.Pick(5, 6)
	w.Suite("layouts", fmt.Sprintf("all forests of at most %d lines (inert or not, named or not, nested), bodies of %d kinds in turn, with an inert rule X", N, len(bodies)))
	for n := 1; n <= N; n++ {
		for _, f := range forests(n, n) {
			if !w.Unit() {
				continue
			}
			k := 0
			var dress func(ls []*pl)
			dress = func(ls []*pl) {
				for _, l := range ls {
					if l.name != "" {
						l.name = fmt.Sprintf("N%d", k)
						if l.inert {
							l.name = fmt.Sprintf("In%d", k)
						}
					}
					k++
					if l.sub != nil {
						dress(l.sub)
					} else {
						l.body = bodies[k%len(bodies)]
						l.cb = k%3 == 0
					}
				}
			}
			f = clonePl(f)
			dress(f)
			if !printCase(w, c, append(f, X()), kinds, len(f) == 1 || ranks(f) > 1) {
				return
			}
		}
	}
}

// ranks is the number of lines that hold other lines.
func ranks(f []*pl) (n int) {
	for _, l := range f {
		if l.sub != nil {
			n += 1 + ranks(l.sub)
		}
	}
	return
}

func clonePl(f []*pl) (g []*pl) {
	for _, l := range f {
		m := *l
		if l.sub != nil {
			m.sub = clonePl(l.sub)
		}
		g = append(g, &m)
	}
	return
}

// forests lists the forests of exactly n lines in which every rank holds at
// least one alternative, as does the top level.
func forests(n, depth int) [][]*pl {
	var out [][]*pl
	var lines func(n, depth int) [][]*pl // all lists of lines with n lines in total
	lines = func(n, depth int) [][]*pl {
		if n == 0 {
			return [][]*pl{nil}
		}
		var all [][]*pl
		for k := 1; k <= n; k++ { // size of the first line's tree
			var first []*pl
			var subs [][]*pl
			if k == 1 {
				subs = [][]*pl{nil}
			} else if depth > 1 {
				subs = lines(k-1, depth-1)
			}
			for _, s := range subs {
				if s != nil && !hasAlt(s) {
					continue
				}
				first = append(first, &pl{inert: true, name: "N", sub: s}, &pl{name: "N", sub: s}, &pl{sub: s})
			}
			for _, rest := range lines(n-k, depth) {
				for _, f := range first {
					all = append(all, append([]*pl{f}, rest...))
				}
			}
		}
		return all
	}
	for _, f := range lines(n, depth) {
		if hasAlt(f) {
			out = append(out, f)
		}
	}
	return out
}

func hasAlt(ls []*pl) bool {
	for _, l := range ls {
		if !l.inert {
			return true
		}
	}
	return false
}

// printable leaves out the labelled operands the rule syntax does not have.
func printable(e *E) bool {
	return !hasQuirk(e)
}
