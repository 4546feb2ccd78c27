package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P18", p18, "lists of names up to the stated length, in TRACE or trace, malformed names at every place")
}

// traceSpec is what a value of TRACE selects; ok is false when it is refused.
func traceSpec(v string) (o j.TraceOptions, ok bool) {
	o = *j.Mute()
	o = j.TraceOptions{FilterLine: -1}
	for _, n := range strings.Split(v, ",") {
		switch n {
		case "none":
			o = j.TraceOptions{FilterLine: -1}
		case "stack":
			o.Stack = true
		case "loop":
			o.Loop = true
		case "grammar":
			o.Grammar = true
		case "skipsetup":
			o.SkipSetup = true
		case "all":
			o = j.TraceOptions{Stack: true, Grammar: true, SkipSetup: true, FilterLine: -1}
		default:
			n, isLine := strings.CutPrefix(n, "line=")
			if !isLine {
				return o, false
			}
			x, e := strconv.Atoi(n)
			if e != nil {
				return o, false
			}
			o.FilterLine = x
		}
	}
	return o, true
}

func p18(w *W) {
	names := []string{"none", "stack", "loop", "grammar", "skipsetup", "all", "line=0", "line=12", "line=3", "line=010"}
	badNames := []string{"", "foo", "Stack", " stack", "stack ", "line", "line=", "line=x", "line=1=2", "line= 1", "line=0x1", "line=1_0", "line=1e3", "line=08x", "line=1.0", "line=1 ", "allx", "stackloop", "none;all", "lines=2", "*"}
	given := []j.TraceOptions{
		*j.Mute(), *j.Verbose(),
		{Stack: true, Loop: true, Grammar: true, SkipSetup: true, FilterLine: 7},
		{Grammar: true, SkipSetup: true, FilterLine: -1},
	}
	desc := func(o *j.TraceOptions) string {
		if o == nil {
			return "nil"
		}
		return fmt.Sprintf("%+v", *o)
	}
	set := func(name string, v *string) {
		if v == nil {
			os.Unsetenv(name)
		} else {
			os.Setenv(name, *v)
		}
	}
	try := func(TRACE, trace *string) {
		set("TRACE", TRACE)
		set("trace", trace)
		show := "TRACE "
		v := ""
		if trace != nil && *trace != "" {
			v = *trace
		}
		if TRACE != nil {
			show += strconv.Quote(*TRACE)
			if *TRACE != "" {
				v = *TRACE
			}
		} else {
			show += "missing"
		}
		if trace != nil {
			show += " trace " + strconv.Quote(*trace)
		}
		w.Case(show)
		w.cur.States++
		for i := -1; i < len(given); i++ {
			// given[i] is the default; -1: DefaultTraceOptions
			var def, arg j.TraceOptions
			var exp string
			if v != "" {
				o, ok := traceSpec(v)
				exp = desc(&o)
				if !ok {
					exp = "panic"
				}
			} else if i >= 0 {
				exp = desc(&given[i])
			} else {
				exp = desc(&j.TraceOptions{Grammar: true, SkipSetup: true, FilterLine: -1}) // "only show succint trace"
			}
			call := func() (r *j.TraceOptions) {
				if i < 0 {
					return j.DefaultTraceOptions()
				}
				def = given[i]
				arg = def
				return j.TraceOptionsFromEnvironmentOrUse(&def)
			}
			what := "TraceOptionsFromEnvironmentOrUse"
			if i < 0 {
				what = "DefaultTraceOptions"
			}
			for round := 0; round < 2; round++ {
				var r *j.TraceOptions
				got := noPanic(func() string { r = call(); return desc(r) })
				w.cur.Transitions++
				if got != exp {
					f := Failure{What: what + " does not select the listed options", Input: show, Expected: exp, Got: got}
					if v == "" && got == desc(&j.TraceOptions{FilterLine: -1}) {
						f.What = what + " ignores the given default when TRACE is empty or missing: everything is muted"
						f.Key = "default-trace-options-ignored"
						f.Input = "TRACE empty or missing"
					}
					w.Fail(f)
					break
				}
				if i >= 0 && v != "" && def != arg {
					w.Fail(Failure{What: "the default given is modified", Input: show, Expected: desc(&arg), Got: desc(&def)})
					break
				}
				// what is returned can be changed without any effect on the next call
				if r != nil && (v != "" || i < 0) {
					*r = j.TraceOptions{Stack: true, Loop: true, FilterLine: 99}
				}
			}
			if exp == "panic" {
				w.Outcome("refused")
			} else if v == "" {
				w.Outcome("default")
			} else {
				w.Outcome("selected")
			}
		}
		os.Unsetenv("TRACE")
		os.Unsetenv("trace")
	}
	n := w.Pick(5, 6)
	w.Suite("names", fmt.Sprintf("all lists of <=%d out of %q", n, names))
	for k := 1; k <= n; k++ {
		tuples(len(names), k, func(ix []int) {
			if k > 2 && !allZero(ix[2:]) {
				return
			}
			if !w.Unit() {
				return
			}
			tuples(len(names), max(0, k-2), func(rest []int) {
				var l []string
				for _, i := range append(append([]int{}, ix[:min(2, k)]...), rest...) {
					l = append(l, names[i])
				}
				s := strings.Join(l, ",")
				try(&s, nil)
				if k <= 3 {
					try(nil, &s)
				}
			})
			w.Sample(fmt.Sprint("TRACE of ", k, " names beginning with ", names[ix[0]]))
		})
	}
	w.Suite("malformed", fmt.Sprintf("lists of <=3 names with one of %q at each place; TRACE and trace both given, empty or missing", badNames))
	for _, b := range badNames {
		if !w.Unit() {
			continue
		}
		for k := 0; k <= 2; k++ {
			tuples(len(names), k, func(ix []int) {
				for p := 0; p <= k; p++ {
					var l []string
					for q, i := range ix {
						if q == p {
							l = append(l, b)
						}
						l = append(l, names[i])
					}
					if p == k {
						l = append(l, b)
					}
					s := strings.Join(l, ",")
					try(&s, nil)
				}
			})
		}
	}
	for n := -3; n <= 300; n++ {
		if w.Unit() {
			s := fmt.Sprintf("line=%d", n)
			try(&s, nil)
			s = fmt.Sprintf("stack,line=%d,loop,line=%d", n+1, n)
			try(&s, nil)
		}
	}
	for _, n := range around(8, 31, 1) { // and numbers with leading zeros
		if w.Unit() {
			s := fmt.Sprintf("line=%d,stack", n)
			try(&s, nil)
			for k := 2; k < 24; k++ {
				s = fmt.Sprintf("all,line=%0*d", k, n)
				try(&s, nil)
			}
		}
	}
	for n := 0; n < 100; n++ {
		if w.Unit() {
			s := fmt.Sprintf("line=%03d", n)
			try(&s, nil)
			s = strings.Join([]string{rep("stack,", n), rep("loop,", n), "line=", fmt.Sprint(n), ",", rep("skipsetup,", n), "grammar"}, "")
			try(&s, nil)
			s = rep("all,", n) + "loop"
			try(&s, nil)
			s = rep("all,line=7,", n) + "none"
			try(&s, nil)
		}
	}
	empty := ""
	vals := []*string{nil, &empty}
	for _, x := range append(append(append([]string{}, names...), "stack,line=5", "  ", "\t", "\n", ",", ",,", "0", "false"), badNames...) {
		x := x
		vals = append(vals, &x)
	}
	for _, a := range vals {
		for _, b := range vals {
			if w.Unit() {
				try(a, b)
			}
		}
	}

	// options in use elsewhere
	w.Suite("changed", "the same, for each name, after any of the 32 assignments to the fields of the options given by Mute(), Verbose(), Copy() and DefaultTraceOptions()")
	for m := 0; m < 32; m++ {
		if !w.Unit() {
			continue
		}
		other := j.TraceOptions{Stack: m&1 != 0, Loop: m&2 != 0, Grammar: m&4 != 0, SkipSetup: m&8 != 0, FilterLine: m/16*6 - 1}
		for _, n := range names {
			n := n
			*j.Mute() = other
			*j.Verbose() = other
			*j.Verbose().Copy() = other
			*j.Mute().Copy() = other
			os.Setenv("TRACE", n)
			*j.DefaultTraceOptions() = other
			try(&n, nil)
			try(&empty, &n)
			for _, c := range []struct {
				what string
				f    func() *j.TraceOptions
				exp  j.TraceOptions
			}{
				{"Mute()", j.Mute, j.TraceOptions{FilterLine: -1}},
				{"Verbose()", j.Verbose, j.TraceOptions{Stack: true, Grammar: true, SkipSetup: true, FilterLine: -1}},
				{"Copy()", func() *j.TraceOptions { return other.Copy() }, other},
			} {
				w.cur.Transitions++
				if got := noPanic(func() string { return desc(c.f()) }); got != desc(&c.exp) {
					w.Fail(Failure{What: "the options of " + c.what + " depend on others", Input: n, Expected: desc(&c.exp), Got: got})
				}
			}
		}
	}

	// the options reach the grammars
	w.Suite("grammars", "the options of the grammars made without options, for all lists of <=2 names")
	c := startCapture()
	defer c.stop()
	for k := 1; k <= 2; k++ {
		tuples(len(names), k, func(ix []int) {
			if !w.Unit() {
				return
			}
			var l []string
			for _, i := range ix {
				l = append(l, names[i])
			}
			s := strings.Join(l, ",")
			os.Setenv("TRACE", s)
			defer os.Unsetenv("TRACE")
			o, _ := traceSpec(s)
			w.Case(s)
			c.mark()
			got := noPanic(func() string {
				gm := j.GrammarFromLines("g", []j.Line{j.O(j.Named("S", "'a'"))})
				r := gm.ParseString("a")
				if r == nil || j.IsParseError(r) {
					return "the parse fails"
				}
				return desc(gm.TraceOptions)
			})
			if got != desc(&o) {
				w.Fail(Failure{What: "a grammar made without options has other trace options than TRACE", Input: s, Expected: desc(&o), Got: got})
			}
			w.cur.States++
			w.Outcome("selected")
		})
	}
}

func allZero(ix []int) bool {
	for _, i := range ix {
		if i != 0 {
			return false
		}
	}
	return true
}
