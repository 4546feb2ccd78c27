package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"regexp"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P15", p15, "sources as stated per suite", "Go's own scanner is the specification of Go tokens", "a token may have one blank in front of it in the tokenized text; it is located either by that blank or by its first character")
}

type gotok struct {
	tok token.Token
	lit string
	off int
}

func (t gotok) String() string {
	if t.lit == "" || t.tok == token.SEMICOLON {
		return t.tok.String()
	}
	return fmt.Sprintf("%s(%q)", t.tok, t.lit)
}

func goscan(src string) (ts []gotok, errs []string) {
	var s scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("", fset.Base(), len(src))
	s.Init(f, []byte(src), func(p token.Position, m string) { errs = append(errs, fmt.Sprint(p.Offset, " ", m)) }, 0)
	for {
		p, t, l := s.Scan()
		if t == token.EOF {
			return
		}
		ts = append(ts, gotok{t, l, f.Offset(p)})
	}
}

var anything = regexp.MustCompile(`(?s).*`)

var lastErr error // of the last goStream

// goStream tokenizes with the library; work is the tokenized text.
func goStream(src string) (s *j.TokenStream, work string, err string) {
	defer func() {
		if e := recover(); e != nil {
			err = "PANIC " + firstLine(fmt.Sprint(e))
		}
	}()
	s, e := j.TokenStreamFromGoCode(src)
	lastErr = e
	if e != nil {
		if s != nil {
			return nil, "", "PANIC: an error and a stream"
		}
		return nil, "", "error " + e.Error()
	}
	if s == nil {
		return nil, "", "PANIC: neither an error nor a stream"
	}
	_, work = s.MatchRegexp(*anything)
	s.SetPos(0)
	return s, work, ""
}

// goCase checks one source; "" when it is right.
func goCase(src string) (what, exp, got string) {
	ts, errs := goscan(src)
	s, work, err := goStream(src)
	if strings.HasPrefix(err, "PANIC") {
		return "tokenizing panics", "a token stream", err
	}
	if len(errs) > 0 {
		if err == "" {
			return "a scan error is not reported", fmt.Sprint("error ", errs), fmt.Sprintf("%q", work)
		}
		return
	}
	if err != "" {
		return "an error is reported for good tokens", fmt.Sprint(ts), err
	}
	return goStreamSays(src, ts, s, work)
}

func goStreamSays(src string, ts []gotok, s *j.TokenStream, work string) (what, exp, got string) {
	wt, werrs := goscan(work)
	if len(werrs) > 0 {
		return "the tokenized text does not scan", fmt.Sprint(ts), fmt.Sprintf("%q: %v", work, werrs)
	}
	if fmt.Sprint(wt) != fmt.Sprint(ts) {
		return "the tokenized text scans to other tokens", fmt.Sprint(ts), fmt.Sprintf("%q: %v", work, wt)
	}
	starts := []int{0} // of the lines of src
	for i := range src {
		if src[i] == '\n' {
			starts = append(starts, i+1)
		}
	}
	for i, t := range wt {
		if t.tok == token.SEMICOLON && t.lit != ";" {
			return "an automatic semicolon is not explicit", fmt.Sprint(ts), fmt.Sprintf("%q", work)
		}
		at := func(p int) int { // offset in the source of a position
			l, c := s.PosToLine(p), s.PosToCol(p)
			if l < 0 || l >= len(starts) {
				return -1
			}
			return starts[l] + c
		}
		shift := 0
		if at(t.off) != ts[i].off && t.off > 0 && work[t.off-1] == ' ' {
			shift = 1
		}
		n := len(t.lit)
		if t.tok == token.SEMICOLON || n == 0 || strings.Contains(src, "\r") {
			n = 1
		}
		for k := 0; k < n; k++ {
			if x := at(t.off - shift + k); x != ts[i].off+k {
				return fmt.Sprintf("token %d (%s) is not located at its offset in the source", i, t), fmt.Sprint(ts[i].off + k), fmt.Sprintf("%d, in %q", x, work)
			}
		}
	}
	if s.Code() != src || s.Length() != len(src) {
		return "Code and Length are not those of the source", fmt.Sprintf("%q", src), fmt.Sprintf("%q %d", s.Code(), s.Length())
	}
	return
}

func p15(w *W) {
	do := func(src string) bool {
		w.Case(src)
		w.cur.States++
		what, exp, got := goCase(src)
		if what != "" {
			w.Fail(Failure{What: what, Input: src, Expected: exp, Got: got})
			return false
		}
		w.Outcome("faithful")
		w.cur.Transitions++
		if len(w.cur.Samples) < 3 && len(src) > 6 {
			_, work, err := goStream(src)
			w.Sample(fmt.Sprintf("%q => %q %s", src, work, err))
		}
		return true
	}
	toks := []string{"a", "α", "_", "func", "return", "1", "0x1F", "1.5", ".5", "1e3", "2i", "'x'", `"s"`, `"//"`, "`r`", "`r\nq`", "+", "++", "-", "--", "&", "&&", "&^", "=", "==", ":=", "<", "<-", "<<", ".", "...", "(", ")", "[", "]", "{", "}", ",", ";", ":", "/", "~", "!", "*", "%=", "|", "^", ">>=", "break", "if", "07", "'\\n'"}
	seps := []string{"", " ", "\n", "/*c*/", "//c\n", "/*c\n*/", "\t\r\n"}
	w.Suite("pairs", fmt.Sprintf("all sources t1 sep t2 sep over %d tokens and %d separators", len(toks), len(seps)))
	for _, a := range toks {
		for _, b := range toks {
			if !w.Unit() {
				continue
			}
			tuples(len(seps), 3, func(ix []int) {
				do(seps[ix[0]] + a + seps[ix[1]] + b + seps[ix[2]])
			})
		}
	}
	dirs := []string{"", "\n", "//line x.go:7\n", "//line 1\n", "//line x.go:3:5\n", "/*line x.go:9:2*/", "/*line :2*/", "//line x.go:99999999\n", "//go:build a\n", "//line x.go\n", "// line x.go:7\n", "//export f\n"}
	w.Suite("directives", fmt.Sprintf("all sources d1 t1 d2 t2 d3 t3 with the d among %d comments, mostly //line directives, and the t among 3 tokens", len(dirs)))
	tuples(len(dirs), 3, func(ix []int) {
		if !w.Unit() {
			return
		}
		tuples(3, 3, func(iy []int) {
			ts := []string{"a", "+", "`r\nq`\n"}
			do(dirs[ix[0]] + ts[iy[0]] + dirs[ix[1]] + ts[iy[1]] + "\n" + dirs[ix[2]] + ts[iy[2]])
		})
	})
	seps3 := []string{"", " ", "/**/"}
	w.Suite("triples", fmt.Sprintf("all sources of three tokens out of %d, with %d separators in between", len(toks), len(seps3)))
	for _, a := range toks {
		for _, b := range toks {
			if !w.Unit() {
				continue
			}
			for _, c := range toks {
				tuples(len(seps3), 2, func(ix []int) {
					do(a + seps3[ix[0]] + b + seps3[ix[1]] + c)
				})
			}
		}
	}
	small := []string{"a", "1", ".5", "+", "++", "-", "&", "=", ".", "(", ")", "}", ",", "/", `"s"`, "return", "`\n`", "<"}
	if w.Thorough() {
		small = append(small, "α", "*", "^", ":", ";", "'x'", "...", "&&")
	}
	w.Suite("quads", fmt.Sprintf("all sources of four tokens out of %d, separated by nothing, blanks, line ends or empty comments", len(small)))
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				if !w.Unit() {
					continue
				}
				for _, d := range small {
					for _, s := range []string{"", " ", "\n", "/**/"} {
						do(a + s + b + s + c + s + d)
					}
				}
			}
		}
	}
	cs := []string{"a", "1", ".", "\"", "'", "`", "/", "*", "\n", "+", " ", "\\", "é", "\xff", "\r", "#", "=", "<", "\x00", "0x", "e", "_", "\uFEFF"}
	n := w.Pick(4, 5)
	w.Suite("chars", fmt.Sprintf("all sources of <=%d out of %d characters and bytes, good and bad", n, len(cs)))
	for k := 0; k <= n; k++ {
		var batch []string
		flush := func() {
			if len(batch) > 0 && w.Unit() {
				for _, t := range batch {
					do(t)
				}
			}
			batch = batch[:0]
		}
		tuples(len(cs), k, func(ix []int) {
			var b strings.Builder
			for _, i := range ix {
				b.WriteString(cs[i])
			}
			batch = append(batch, b.String())
			if len(batch) == 256 {
				flush()
			}
		})
		flush()
	}
	// histories of calls
	srcs := []string{"", "a", "a b\n", "x := 1\ny", "\"", "a 'bc' d", "`\n`; 08", "/*", "func f() { return }\n", "\xff", "a\n\nb"}
	w.Suite("histories", fmt.Sprintf("all histories of <=4 calls over %d sources: each result is that of the call alone, and earlier streams are unchanged", len(srcs)))
	tuples(len(srcs), w.Pick(3, 4), func(ix []int) {
		if !w.Unit() {
			return
		}
		type res struct {
			s    *j.TokenStream
			work string
			err  string
			kept error
		}
		var rs []res
		for _, i := range ix {
			s, work, err := goStream(srcs[i])
			rs = append(rs, res{s, work, err, lastErr})
			w.cur.Transitions++
		}
		for k, r := range rs {
			if strings.HasPrefix(r.err, "error ") && (r.kept == nil || "error "+r.kept.Error() != r.err) {
				w.Fail(Failure{What: "an error returned earlier was changed by a later call", Input: fmt.Sprintf("sources %v, call %d", ix, k), Expected: r.err, Got: fmt.Sprint(r.kept)})
				return
			}
		}
		for k, i := range ix {
			w.Case(fmt.Sprint(ix, " call ", k))
			src, r := srcs[i], rs[k]
			ts, errs := goscan(src)
			f := func(what, exp, got string) {
				w.Fail(Failure{What: what, Input: fmt.Sprintf("sources %v, call %d on %q", ix, k, src), Expected: exp, Got: got})
			}
			if (len(errs) > 0) != strings.HasPrefix(r.err, "error ") || strings.HasPrefix(r.err, "PANIC") {
				f("a call depends on earlier calls: errors", fmt.Sprint(errs), r.err)
				return
			}
			if len(errs) > 0 {
				// exactly the errors of this source
				if _, _, again := goStream(src); again != r.err {
					f("a call depends on earlier calls: errors", fmt.Sprint(errs, " ", again), r.err)
					return
				}
				continue
			}
			_, work := r.s.MatchRegexp(*anything)
			r.s.SetPos(0)
			if what, exp, got := goStreamSays(src, ts, r.s, work); what != "" {
				f("a call depends on other calls: "+what, exp, got)
				return
			}
		}
		w.Outcome("independent")
	})
	top := w.Pick(11, 13)
	top2 := w.Pick(17, 18)
	w.Suite("big", fmt.Sprintf("identifiers, numbers, strings, raw strings, comments, blanks, line ends, operators of n characters, n lines or n tokens or n tokens in a line, between other tokens, n around powers of two up to 2^%d (many tokens) or 2^%d", top, top2))
	for _, n := range append(around(4, top2, 1), 100, 1000) {
		for v := 0; v < 16; v++ {
			if n > 1<<top+1 && (v == 5 || v >= 10) || !w.Unit() {
				continue
			}
			x := []string{
				rep("aé_9", n)[:n-n%5] + "Z", "1" + rep("0", n), "\"" + rep("é\\n'x", n/3) + "\"", "`" + rep("a\n`", n)[:1] + rep("a\né", n/2) + "`", "/*" + rep("c\n", n/2) + "*/1", rep("a\n\n", n/2) + "b", rep(" ", n) + "c", rep("\n", n) + "d", "//" + rep("/*\"", n/3) + "\ne", "'a'" + rep("\t\r\n", n/3) + "f",
				rep("x-", n) + "y", rep("(", n) + rep(")", n), rep("a b ", n) + "1", rep("f(x);", n) + "g", rep("- -", n) + "1", rep("a.", n) + "b\n",
			}[v]
			_ = do("p "+x+" q\n") && do(x) && do("a=\n"+x+";\n\"s\"")
		}
	}
	N := w.Pick(40, 120)
	w.Suite("long", fmt.Sprintf("programs of 1..%d declarations", N))
	for n := 1; n <= N; n++ {
		if !w.Unit() {
			continue
		}
		var b strings.Builder
		b.WriteString("package p // c\n\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "func (α *T%d) f%d(x, y int, z ...string) (r map[string]int, err error) { // comment\n\tif x<-y && x !=+1 /* multi\nline */ { return r [0:x+ +y], nil }\n\tfor i:=range z { x-- ; ch <- `raw\n\tstring`+\"s\\\"\" }\n\treturn\n}\n\n", i, i)
		}
		if !do(b.String()) {
			continue
		}
		do(b.String() + "'")
		do(strings.TrimRight(b.String(), "\n"))
		do(strings.ReplaceAll(b.String(), "\n", "\r\n"))
	}
}
