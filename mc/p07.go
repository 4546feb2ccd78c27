package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

func init() {
	register("P07", p07,
		"scheduling points are the evaluation of every rule body (an uncached probe rule with a callback in front of it) and every callback; between two points a parse runs alone",
		"data races are decided on every one of these schedules by the race detector of Go, which sees no synchronisation by the scheduler, so that two unordered accesses are reported whatever their order in the schedule",
		"two and three parses on one grammar in all schedules; nesting depth, parses within one callback and parses in flight over powers of two and their neighbours, in the stated orders")
}

// ---- cooperative scheduler ---------------------------------------------------

type thread struct {
	id     int
	resume chan bool
	done   bool
	out    Out
	points int
}

type sched struct {
	cur  *thread
	back chan *thread
}

// point is called by the callbacks of the grammar: give the control back.
//
//go:norace
func (s *sched) point() {
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	t.points++
	raceHide()
	s.back <- t
	<-t.resume
	raceShow()
}

//go:norace
func (s *sched) give(t *thread) {
	s.cur = t
	t.resume <- true
	<-s.back
}

//go:norace
func (t *thread) wait() {
	raceHide()
	<-t.resume
	raceShow()
}

//go:norace
func (t *thread) finish() { t.done = true }

//go:norace
func (t *thread) finished() bool { return t.done }

// running is the index of the running thread, -1 when there is none.
//
//go:norace
func (s *sched) running() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.id
}

// run executes the bodies under the schedule: choices[i] is the index, among
// the enabled threads (the running one first), taken at the i-th point.
func (s *sched) run(bodies []func() Out, choices []int) (outs []Out, taken []int, enabled [][]int, ids []int) {
	s.back = make(chan *thread)
	var ts []*thread
	for i, b := range bodies {
		t := &thread{id: i, resume: make(chan bool)}
		ts = append(ts, t)
		b := b
		go func() {
			t.wait()
			t.out = b()
			t.finish()
			s.back <- t
		}()
	}
	last := -1
	for {
		var en []int
		if last >= 0 && !ts[last].finished() {
			en = append(en, last)
		}
		for i, t := range ts {
			if i != last && !t.finished() {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			break
		}
		c := 0
		if k := len(taken); k < len(choices) {
			c = choices[k]
		}
		if c >= len(en) {
			panic("schedule diverges while being replayed")
		}
		taken = append(taken, c)
		enabled = append(enabled, en)
		t := ts[en[c]]
		ids = append(ids, t.id)
		last = t.id
		s.give(t)
	}
	s.cur = nil
	for _, t := range ts {
		outs = append(outs, t.out)
	}
	return
}

type concG struct {
	name  string
	lines func(s *sched, special func(string, *j.ParseContext)) []j.Line
	ins   []string
}

func concGrammars() []concG {
	N := j.Named
	mk := func(s *sched, name string, sp func(string, *j.ParseContext)) func(j.Ast, *j.ParseContext) j.Ast {
		return func(it j.Ast, ctx *j.ParseContext) j.Ast {
			s.point()
			sp(name, ctx)
			return &node{j.NewAttr(), name, it, ""}
		}
	}
	pt := func(s *sched, sp func(string, *j.ParseContext)) j.Line {
		return j.I(N("_p", "''"), func(it j.Ast, ctx *j.ParseContext) j.Ast { s.point(); sp("_p", ctx); return it }, j.SkipCache{Bool: true})
	}
	return []concG{
		{"leftrec", func(s *sched, sp func(string, *j.ParseContext)) []j.Line {
			return []j.Line{
				j.O(N("E", "_p (l:E '+' r:T) | T"), mk(s, "E", sp)),
				j.I(N("T", "[0-9]"), mk(s, "T", sp)),
				pt(s, sp),
			}
		}, []string{"1+2", "3", "4+", "3+2", ""}},
		{"labels", func(s *sched, sp func(string, *j.ParseContext)) []j.Line {
			return []j.Line{
				j.O(N("S", "_p head:W tail:(',' W)* opt:(x:W y:'!')? _p")),
				j.I(N("W", "[ab]"), mk(s, "W", sp)),
				pt(s, sp),
			}
		}, []string{"a,b", "ab!", "b", "a,", "bx"}},
		{"compiled", func(s *sched, sp func(string, *j.ParseContext)) []j.Line {
			c := func(text string) j.Parser { return jo().Get().ParseString(text).(j.Parser) }
			return []j.Line{
				j.O(N("S", c("_p (S X | l:X m:(Y X)?)"))),
				j.I(N("X", c("Y 'b'* | 'a'")), mk(s, "X", sp)),
				j.I(N("Y", c("'c' 'a'?"))),
				pt(s, sp),
			}
		}, []string{"ab", "acb", "ca", "acab", "x"}},
		{"ranks", func(s *sched, sp func(string, *j.ParseContext)) []j.Line {
			return []j.Line{
				j.O(N("S", []j.Line{
					j.O("_p A 'x'"),
					j.O(N("R2", []j.Line{j.O("A 'y'{1,2}"), j.O("!'q' A*'-'")})),
				})),
				j.I(N("A", "/[a-c]+/"), mk(s, "A", sp)),
				pt(s, sp),
			}
		}, []string{"abx", "ayy", "a-b", "q", "c-"}},
	}
}

func noSpecial(string, *j.ParseContext) {}

func p07(w *W) {
	bound2 := w.Pick(3, 5)
	for _, cg := range concGrammars() {
		s := &sched{}
		// two threads
		w.Suite("two-"+cg.name, fmt.Sprintf("two parses of every pair out of %d inputs, one of them optionally aborted by a panicking callback, traced, or of a token stream; all schedules with at most %d preemptions", len(cg.ins), bound2))
		for a := range cg.ins {
			for b := range cg.ins {
				for mode := 0; mode < 5; mode++ {
					if !w.Unit() {
						continue
					}
					conc(w, s, cg, []string{cg.ins[a], cg.ins[b]}, mode, bound2)
				}
			}
		}
		w.Suite("three-"+cg.name, fmt.Sprintf("three parses, all schedules with at most %d preemptions", bound2-1))
		for a := range cg.ins {
			for b := range cg.ins {
				for c := range cg.ins {
					if !w.Unit() {
						continue
					}
					conc(w, s, cg, []string{cg.ins[a], cg.ins[b], cg.ins[c]}, 0, bound2-1)
				}
			}
		}
		w.Suite("nested-"+cg.name, "every parse started from within the k-th callback of another one, for every pair of inputs and every k, and a parse within that one; plain, aborted, of tokens, on the same grammar")
		for a := range cg.ins {
			for b := range cg.ins {
				for mode := 0; mode < 6; mode++ {
					if !w.Unit() {
						continue
					}
					nested(w, cg, cg.ins[a], cg.ins[b], mode)
				}
			}
		}
	}
	top := w.Pick(6, 9)
	for _, cg := range concGrammars() {
		w.Suite("deep-"+cg.name, fmt.Sprintf("parses nested in the k-th callback of one another, 2^k-1, 2^k, 2^k+1 deep up to 2^%d, and as many parses started in a row in the k-th callback of one, for every k and every first input, the others following in order; results and number of callbacks of every parse", top))
		for _, n := range around(1, top, 1) {
			for a := range cg.ins {
				for _, row := range []bool{false, true} {
					if w.Unit() {
						deep(w, cg, n, a, row)
					}
				}
			}
		}
		w.Suite("crowd-"+cg.name, fmt.Sprintf("2^k-1, 2^k, 2^k+1 parses up to 2^%d at the same time, all brought to their k-th callback for every k, then ended in the order of their start, in the opposite order, or in turns", top))
		for _, n := range around(1, top, 1) {
			for order := 0; order < 3; order++ {
				if w.Unit() {
					crowd(w, cg, n, order)
				}
			}
		}
	}
	w.Suite("races", fmt.Sprintf("Go's race detector on two parses of every pair of inputs of %d grammars, on a grammar compiled anew for every schedule, in 10 modes (aborted, traced, tokens, silenced, printing, building a grammar, building two grammars with a shared grammar of grammars; building and parsing what was never seen before in any part); all schedules with at most %d preemptions, the scheduler being hidden from the detector", len(raceGrammars()), w.Pick(1, 2)))
	for gi, cg := range raceGrammars() {
		for a := range cg.ins {
			if w.Unit() {
				raceSched(w, gi, a, w.Pick(1, 2))
			}
		}
	}
}

// conc explores the schedules of concurrent parses, by number of preemptions.
func conc(w *W, s *sched, cg concG, ins []string, mode, bound int) {
	restore := silence()
	defer restore()
	boom := 0 // of thread 0
	special := func(name string, ctx *j.ParseContext) {
		if mode == 1 && s.running() == 0 {
			boom++
			if boom == 3 {
				panic("callback panic")
			}
		}
	}
	gm := j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(s, special))
	bodies := make([]func() Out, len(ins))
	for i, in := range ins {
		i, in := i, in
		bodies[i] = func() Out {
			if i == 0 {
				boom = 0
			}
			switch {
			case mode == 2 && i == 0:
				return parse(gm, in, j.Debug{Bool: true})
			case mode == 3 && i == 0 && in != "":
				return runParse(func() j.Ast {
					return gm.ParseTokens(j.NewTokenStream(in, []j.Token{{Repr: in, OriginalOffset: 0, WorkOffset: 0}}))
				})
			case mode == 4 && i == 0:
				return parse(gm, in, j.SkipLog{Bool: true}, j.Debug{Bool: true})
			}
			return parse(gm, in)
		}
	}
	desc := fmt.Sprintf("%s %q mode %d", cg.name, ins, mode)
	w.About(desc)
	// alone: each body under a scheduler of its own, on its own grammar
	var alone []string
	for i := range bodies {
		// keep the thread id: the other bodies do nothing
		bs := make([]func() Out, len(bodies))
		for k := range bs {
			bs[k] = func() Out { return Out{} }
		}
		bs[i] = bodies[i]
		o, _, _, _ := s.run(bs, nil)
		alone = append(alone, snap(o[i]))
		// the same without any scheduler must agree with a fresh grammar
	}
	stack := [][]int{nil}
	n := 0
	outcomes := map[string]bool{}
	for len(stack) > 0 {
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		n++
		w.Case(fmt.Sprint(desc, " schedule ", prefix))
		outs, taken, enabled, ids := s.run(bodies, prefix)
		w.cur.Transitions += len(taken)
		w.cur.States++
		for i, o := range outs {
			if got := snap(o); got != alone[i] {
				w.Fail(Failure{What: "a concurrent parse does not return what it returns alone", Grammar: cg.name, Input: fmt.Sprintf("%q, parse %d, threads in order %v", ins, i, ids), Expected: alone[i], Got: got, Extra: fmt.Sprintf("mode %d schedule %v", mode, taken)})
				return
			}
		}
		outcomes[fmt.Sprint(ids)] = true
		// deviations after the prefix
		cost := 0
		for i := range taken {
			run := i > 0 && enabled[i][0] == ids[i-1]
			if i >= len(prefix) {
				c := cost
				if run {
					c++
				}
				if c <= bound {
					for alt := 1; alt < len(enabled[i]); alt++ {
						stack = append(stack, append(append([]int{}, taken[:i]...), alt))
					}
				}
			}
			if run && taken[i] > 0 {
				cost++
			}
		}
		if n > 400000 {
			w.res.Capped = true
			break
		}
	}
	w.Outcome("units with several schedules")
	w.cur.Outcomes["schedules"] += n
	w.Sample(fmt.Sprintf("%s: %d schedules, results %v", desc, n, alone))
}

// nested starts a parse from within each callback of another one.
func nested(w *W, cg concG, outer, inner string, mode int) {
	restore := silence()
	defer restore()
	var gm, plain *j.Grammar
	plain = j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(nil, noSpecial))
	count, trigger, depth := 0, -1, 0
	var innerOuts []Out
	abort := false
	special := func(name string, ctx *j.ParseContext) {
		if depth > 0 {
			if abort && depth == 1 && name != "_p" {
				panic("inner panic")
			}
			if mode == 3 && depth == 1 {
				depth = 2
				innerOuts = append(innerOuts, parse(gm, outer))
				depth = 1
			}
			return
		}
		count++
		if count-1 != trigger {
			return
		}
		depth = 1
		switch mode {
		case 0, 3:
			innerOuts = append(innerOuts, parse(gm, inner))
		case 1:
			abort = true
			parse(gm, inner)
			abort = false
		case 2:
			if inner != "" {
				innerOuts = append(innerOuts, runParse(func() j.Ast {
					return gm.ParseTokens(j.NewTokenStream(inner, []j.Token{{Repr: inner}}))
				}))
			} else {
				innerOuts = append(innerOuts, parse(gm, inner))
			}
		case 4:
			innerOuts = append(innerOuts, parse(gm, inner, j.Debug{Bool: true}))
		case 5:
			// several in a row, and the printing of the grammar
			innerOuts = append(innerOuts, parse(gm, inner))
			_ = gm.String()
			innerOuts = append(innerOuts, parse(gm, inner))
		}
		depth = 0
	}
	gm = j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(nil, special))
	wantOuter, wantInner := snap(parse(plain, outer)), snap(parse(plain, inner))
	w.About(fmt.Sprintf("nested %s %q in %q mode %d", cg.name, inner, outer, mode))
	for trigger = 0; trigger < 60; trigger++ {
		count = 0
		innerOuts = nil
		w.Case(fmt.Sprintf("trigger %d", trigger))
		o := parse(gm, outer)
		w.cur.States++
		w.cur.Transitions += count
		d := fmt.Sprintf("outer %q, inner %q started in callback #%d, mode %d", outer, inner, trigger, mode)
		if got := snap(o); got != wantOuter {
			w.Fail(Failure{What: "a nested parse changes the outer parse", Grammar: cg.name, Input: d, Expected: wantOuter, Got: got})
			return
		}
		for k, io := range innerOuts {
			exp := wantInner
			if mode == 3 && k < len(innerOuts)-1 {
				exp = wantOuter
			}
			if got := snap(io); got != exp {
				w.Fail(Failure{What: "a nested parse differs from the same parse alone", Grammar: cg.name, Input: d, Expected: exp, Got: got})
				return
			}
		}
		if count <= trigger {
			break
		}
		w.Outcome("nested")
	}
}

// deep: parses nested n deep, each started in the k-th callback of the previous
// one; or (row) n of them in a row in the k-th callback of one.
func deep(w *W, cg concG, n, first int, row bool) {
	restore := silence()
	defer restore()
	var gm *j.Grammar
	type run struct{ calls int }
	var stack []*run
	trigger := 0
	var failed *Failure
	want := map[string]string{}
	for _, in := range cg.ins {
		calls := 0
		plain := j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(nil, func(string, *j.ParseContext) { calls++ }))
		want[in] = snap(parse(plain, in)) + fmt.Sprintf(", %d callbacks", calls)
	}
	w.About(fmt.Sprintf("deep %s %d from %q row %v", cg.name, n, cg.ins[first], row))
	next := 0
	once := func() {
		in := cg.ins[next%len(cg.ins)]
		next++
		r := &run{}
		stack = append(stack, r)
		o := parse(gm, in)
		stack = stack[:len(stack)-1]
		w.cur.States++
		w.cur.Transitions += r.calls
		if got := snap(o) + fmt.Sprintf(", %d callbacks", r.calls); got != want[in] && failed == nil {
			failed = &Failure{What: "a parse among many nested ones differs from the same parse alone", Grammar: cg.name, Input: fmt.Sprintf("%q at depth %d of %d (in a row: %v), nested in callback #%d", in, len(stack), n, row, trigger), Expected: want[in], Got: got}
		}
	}
	special := func(string, *j.ParseContext) {
		if len(stack) == 0 {
			return
		}
		r := stack[len(stack)-1]
		r.calls++
		if r.calls-1 != trigger {
			return
		}
		if row && len(stack) == 1 {
			for i := 0; i < n; i++ {
				once()
			}
		} else if !row && len(stack) <= n {
			once()
		}
	}
	gm = j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(nil, special))
	for trigger = 0; trigger < 60; trigger++ {
		next = first
		w.Case(fmt.Sprintf("trigger %d", trigger))
		once()
		if failed != nil {
			w.Fail(*failed)
			return
		}
		if next == first+1 { // no such callback
			break
		}
		w.Outcome("nested")
	}
}

// crowd: n parses at once, all brought to their k-th callback, then ended.
func crowd(w *W, cg concG, n, order int) {
	restore := silence()
	defer restore()
	s := &sched{}
	calls := make([]int, n)
	gm := j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(s, func(string, *j.ParseContext) {
		if i := s.running(); i >= 0 {
			calls[i]++
		}
	}))
	want := map[string]string{}
	most := 0
	for _, in := range cg.ins {
		c := 0
		plain := j.GrammarWithOptionsFromLines(cg.name, opts(), cg.lines(nil, func(string, *j.ParseContext) { c++ }))
		want[in] = snap(parse(plain, in)) + fmt.Sprintf(", %d callbacks", c)
		most = max(most, c)
	}
	w.About(fmt.Sprintf("crowd %s %d order %d", cg.name, n, order))
	for k := 0; k <= most; k++ {
		w.Case(fmt.Sprintf("all brought to callback %d", k))
		s.back = make(chan *thread)
		var ts []*thread
		for i := 0; i < n; i++ {
			calls[i] = 0
			t := &thread{id: i, resume: make(chan bool)}
			ts = append(ts, t)
			in := cg.ins[i%len(cg.ins)]
			go func() {
				t.wait()
				t.out = parse(gm, in)
				t.finish()
				s.back <- t
			}()
		}
		for i := range ts {
			for c := 0; c <= k && !ts[i].finished(); c++ {
				s.give(ts[i])
				w.cur.Transitions++
			}
		}
		for left := true; left; {
			left = false
			for i := range ts {
				if order == 1 {
					i = n - 1 - i
				}
				for !ts[i].finished() {
					s.give(ts[i])
					w.cur.Transitions++
					if order == 2 {
						left = true
						break
					}
				}
			}
		}
		s.cur = nil
		for i, t := range ts {
			w.cur.States++
			in := cg.ins[i%len(cg.ins)]
			if got := snap(t.out) + fmt.Sprintf(", %d callbacks", calls[i]); got != want[in] {
				w.Fail(Failure{What: "a parse among many at the same time differs from the same parse alone", Grammar: cg.name, Input: fmt.Sprintf("%q, parse %d of %d, all brought to callback %d, ended in order %d", in, i, n, k, order), Expected: want[in], Got: got})
				return
			}
		}
		w.Outcome("crowd")
	}
}

// raceGrammars: those of the other suites, as grammars to be scheduled.
func raceGrammars() []concG {
	gs := concGrammars()
	for _, h := range histGrammars() {
		gs = append(gs, concG{h.name, func(s *sched, sp func(string, *j.ParseContext)) []j.Line {
			tickHook = func() {
				if s.running() >= 0 {
					s.point()
					sp("", nil)
				}
			}
			return h.lines(nil)
		}, h.ins[:6]})
	}
	return gs
}

func raceSched(w *W, gi, a, bound int) {
	exe := os.Getenv("VMC_RACE")
	if exe == "" {
		w.Outcome("no race build")
		return
	}
	w.Case(fmt.Sprintf("grammar %d, input %d", gi, a))
	cmd := exec.Command(exe, "races", fmt.Sprint(gi), fmt.Sprint(a), fmt.Sprint(bound))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=2")
	var sb, eb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &eb
	err := cmd.Run()
	unit, n := "", 0
	for _, l := range strings.Split(sb.String(), "\n") {
		if strings.HasPrefix(l, "PAIR ") {
			unit = l
		}
		var k int
		if c, _ := fmt.Sscanf(l, "DONE %d", &k); c == 1 {
			n += k
		}
	}
	w.cur.States += n
	w.cur.Transitions += n
	switch {
	case strings.Contains(eb.String(), "DATA RACE"):
		w.Fail(Failure{What: "data race between concurrent parses of one grammar", Key: "race", Input: unit, Got: tail(eb.String(), 3500)})
	case strings.Contains(eb.String(), "MISMATCH"):
		w.Fail(Failure{What: "a concurrent parse does not return what it returns alone (cold grammar)", Key: "race-mismatch", Input: unit, Got: tail(eb.String(), 2000)})
	case err != nil:
		w.Fail(Failure{What: "concurrent parses crash", Key: "race-crash", Input: unit, Got: err.Error() + " " + tail(eb.String(), 3000)})
	}
	w.Outcome("grammar and first input")
	w.cur.Outcomes["schedules"] += n
}

var unseenNo int

// unseen makes a grammar and an input of it, every part of which is new.
func unseen() ([]j.Line, string) {
	unseenNo++
	f := func(t string) string { return strings.ReplaceAll(t, "#", fmt.Sprint(unseenNo)) }
	return []j.Line{
		j.O(j.Named(f("S#"), f("A# l#:B#? | !'z#' m#:(C# ',#')* R# | 'a#'{1,7#}"))),
		j.I(j.Named(f("A#"), f("'a#'")), j.Debug{Bool: false}),
		j.I(j.Named(f("B#"), f("/b#+/")), func(it j.Ast) j.Ast { return it }),
		j.I(j.Named(f("C#"), f("[c#]")), j.SkipCache{Bool: true}),
		j.I(j.Named(f("R#"), []j.Line{j.O(f("'r#'")), j.O(j.Named(f("Q#"), f("A# (?B#) R#")))})),
	}, f("a#b#")
}

// racesMain explores, in the race-detector build, the schedules of every pair
// (a, b) of inputs of a grammar.
func racesMain(gi, a, bound int) int {
	stdout := os.Stdout
	restore := silence()
	defer restore()
	cg := raceGrammars()[gi]
	in := cg.ins[a]
	for _, other := range cg.ins {
		for mode := 0; mode < 10; mode++ {
			if mode >= 6 && other != in || mode >= 8 && a > 0 {
				continue
			}
			fmt.Fprintf(stdout, "PAIR %s %q mode %d\n", cg.name, []string{in, other}, mode)
			s := &sched{}
			mk := func() []func() Out {
				boom := 0
				special := func(string, *j.ParseContext) {
					if mode == 1 && s.running() == 0 {
						if boom++; boom == 2 {
							panic("callback panic")
						}
					}
				}
				lines, lines2 := cg.lines(s, special), cg.lines(s, special)
				build := func(ls []j.Line, o j.GrammarOptions, in string) Out {
					return parse(j.GrammarWithOptionsFromLines(cg.name, o, ls), in)
				}
				if mode >= 8 { // what was never seen before: nothing can be there already
					t1, in1 := unseen()
					t2, in2 := unseen()
					if mode == 8 {
						mk := func(t []j.Line, in string) func() Out {
							return func() Out {
								gm := j.GrammarWithOptionsFromLines("g"+in, j.GrammarOptions{TraceOptions: j.Mute()}, t)
								o := parse(gm, in)
								return Out{Kind: o.Kind + parse(gm, in+"!").Kind}
							}
						}
						return []func() Out{mk(t1, in1), mk(t2, in2)}
					}
					gm := j.GrammarWithOptionsFromLines("g", j.GrammarOptions{TraceOptions: j.Mute()}, []j.Line{j.O(j.Named("S", "(W | _B)*")), j.I(j.Named("W", "/[a-z0-9A-Z;,]+/"), func(it j.Ast) j.Ast { s.point(); return it }), j.I(j.Named("_B", "' '"))})
					mk := func(in string) func() Out {
						return func() Out {
							k := ""
							for _, x := range []string{in, in + " " + in, in + "!" + in} {
								k += parse(gm, x).Kind + parse(gm, x, j.Debug{Bool: true}).Kind
								k += runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(x, []j.Token{{Repr: x}})) }).Kind
							}
							return Out{Kind: k}
						}
					}
					return []func() Out{mk(in1), mk(in2)}
				}
				if mode == 7 {
					o := j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: helpers.LazyFromValue(j.NewJoesonWithOptions(j.Mute()))}
					return []func() Out{
						func() Out { return build(lines, o, in) },
						func() Out { return build(lines2, o, other) },
					}
				}
				gm := j.GrammarWithOptionsFromLines(cg.name, opts(), lines)
				return []func() Out{func() Out {
					switch {
					case mode == 6:
						return build(lines2, j.GrammarOptions{TraceOptions: j.Mute()}, in)
					case mode == 2:
						return parse(gm, in, j.Debug{Bool: true})
					case mode == 3 && in != "":
						return runParse(func() j.Ast { return gm.ParseTokens(j.NewTokenStream(in, []j.Token{{Repr: in}})) })
					case mode == 4:
						return parse(gm, in, j.SkipLog{Bool: true})
					case mode == 5:
						return Out{Kind: "ok", Val: fmt.Sprint(gm.String(), gm.CountRules(), gm.IsReady())}
					}
					return parse(gm, in)
				}, func() Out { return parse(gm, other) }}
			}
			nothing := func() Out { return Out{} }
			b := mk()
			o, _, _, _ := s.run([]func() Out{b[0], nothing}, nil)
			alone := []string{snap(o[0]), ""}
			b = mk()
			o, _, _, _ = s.run([]func() Out{nothing, b[1]}, nil)
			alone[1] = snap(o[1])
			n := 0
			for stack := [][]int{nil}; len(stack) > 0; n++ {
				prefix := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				outs, taken, enabled, ids := s.run(mk(), prefix)
				for i, o := range outs {
					if got := snap(o); got != alone[i] {
						fmt.Fprintf(os.Stderr, "MISMATCH %s parse %d, threads in order %v: %s, alone %s\n", cg.name, i, ids, got, alone[i])
						return 1
					}
				}
				cost := 0
				for i := range taken {
					run := i > 0 && enabled[i][0] == ids[i-1]
					c := cost
					if run {
						c++
					}
					if i >= len(prefix) && c <= bound {
						for alt := 1; alt < len(enabled[i]); alt++ {
							stack = append(stack, append(append([]int{}, taken[:i]...), alt))
						}
					}
					if run && taken[i] > 0 {
						cost++
					}
				}
			}
			fmt.Fprintf(stdout, "DONE %d\n", n)
		}
	}
	return 0
}
