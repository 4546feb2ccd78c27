package main

// Cursors (P12) and token streams (P13): every operation sequence of a bounded
// depth, from every position, compared with a byte-offset cursor.

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P12", p12, "texts, operations and sequence lengths as stated per suite", "PeekRunes on invalid UTF-8 is compared up to the replacement of invalid bytes by U+FFFD", "GetUntil is only called with strings that occur")
	register("P13", p13, "texts, tokenizations, operations and sequence lengths as stated per suite", "line and column are decided for positions inside a token, as the property states; GetUntil is only called with strings that occur")
}

// cursor is the specification.
type cursor struct {
	work string // what is matched
	code string // what is shown
	pos  int
	orig func(pos int) (off int, known bool) // position in code of a position in work
}

func (c *cursor) lineCol(pos int) (l, col int, known bool) {
	off, known := c.orig(pos)
	if !known {
		return 0, 0, false
	}
	l, col = lineCol(c.code, off)
	return l, col, true
}

// an operation: runs on the implementation and on the specification; the
// results are compared as strings. skip: the specification claims nothing.
type op struct {
	name string
	impl func(s j.CodeStream) string
	spec func(c *cursor) (res string, skip bool)
	ok   func(work string, pos int) bool // whether it may be called there
}

func noPanic(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic"
		}
	}()
	return f()
}

func runes(s string) string { return string([]rune(s)) }

// textOps are operations on the pieces of <= n runes of the text that the
// fixed ones do not cover.
func textOps(text string, n int) []op {
	fixed := map[string]bool{}
	for _, t := range strs([]string{"a", "b", "\n", "é"}, 2) {
		fixed[t] = true
	}
	var offs []int
	for i := range text {
		offs = append(offs, i)
	}
	offs = append(offs, len(text))
	var ops []op
	for i := range offs {
		for k := i + 1; k < len(offs) && k <= i+n; k++ {
			t := text[offs[i]:offs[k]]
			if fixed[t] {
				continue
			}
			fixed[t] = true
			ops = append(ops, stringOps(t)...)
		}
	}
	return ops
}

func peekOp(k int) op {
	return op{name: fmt.Sprintf("PeekRunes(%d)", k), impl: func(s j.CodeStream) string { return fmt.Sprintf("%q", runes(s.PeekRunes(k))) }, spec: func(c *cursor) (string, bool) {
		var r []rune
		if k <= 0 {
			r = []rune(c.work[:c.pos])
			r = r[max(0, len(r)+k):]
		} else {
			r = []rune(c.work[c.pos:])
			r = r[:min(k, len(r))]
		}
		return fmt.Sprintf("%q", string(r)), false
	}}
}

// mixedRunes: a character of each kind among many others.
func mixedRunes(w *W, n int, mk func(t string) func() (j.CodeStream, *cursor)) {
	w.Suite("runes", fmt.Sprintf("a character or byte of each of 8 kinds after i = 0..%d letters and around powers of two up to 2^10, once or twice, and letters after it: from the start, around it and at the end, PeekRunes of every number up to the ends of the text (near the interesting ones in long texts)", n))
	for _, i := range widths(n, 10) {
		if !w.Unit() {
			continue
		}
		for _, c := range []string{"é", "世", "𝘧", "\xff", "\xe4\xb8", "\n", "\ufffd", "a\u0301"} {
			for _, t := range []string{rep("a", i) + c + rep("b", 10), rep("a", i) + c + c, rep("b", 10) + c + rep("a", i), rep("a", i) + c + rep("b", i) + c} {
				at := strings.Index(t, c)
				L := len(t)
				for _, p := range []int{0, 1, at - 1, at, at + len(c), L - 1, L} {
					if p < 0 || p > L {
						continue
					}
					R := len([]rune(t))
					var ops []op
					for _, k := range append([]int{0, 1, 2, 8, 16, 64}, i-1, i, i+1, i+2, i+9, R-2, R-1, R, R+1, 2*i+1) {
						if k >= 0 {
							ops = append(ops, peekOp(k), peekOp(-k))
						}
					}
					if i < 40 {
						for k := 3; k < R; k++ {
							ops = append(ops, peekOp(k), peekOp(-k))
						}
					}
					mk := mk(t)
					explore(w, fmt.Sprintf("text %q", short(t)), func() (j.CodeStream, *cursor) {
						s, c := mk()
						s.SetPos(p)
						c.pos = p
						return s, c
					}, ops, 1)
				}
			}
		}
		w.Outcome("agree")
	}
}

// pieceOps: operations with every piece of <=n characters of the text.
func pieceOps(text string, n int) []op {
	done := map[string]bool{}
	var ops []op
	for i := range text {
		k := 0
		for e := range text[i:] {
			if t := text[i : i+e]; k > 0 && !done[t] {
				done[t] = true
				ops = append(ops, stringOps(t)...)
			}
			if k++; k > n {
				break
			}
		}
		if t := text[i:]; k <= n && !done[t] {
			done[t] = true
			ops = append(ops, stringOps(t)...)
		}
	}
	return ops
}

func stringOps(t string) []op {
	re := regexp.MustCompile(regexp.QuoteMeta(strings.ToValidUTF8(t, "\uFFFD")))
	return []op{
		{name: fmt.Sprintf("MatchString(%q)", t), impl: func(s j.CodeStream) string { ok, m := s.MatchString(t); return fmt.Sprintf("%v %q", ok, m) }, spec: func(c *cursor) (string, bool) {
			if strings.HasPrefix(c.work[c.pos:], t) {
				c.pos += len(t)
				return fmt.Sprintf("true %q", t), false
			}
			return "false", false
		}},
		{name: fmt.Sprintf("GetUntil(%q)", t), impl: func(s j.CodeStream) string { return fmt.Sprintf("%q", s.GetUntil(t)) }, spec: func(c *cursor) (string, bool) {
			i := strings.Index(c.work[c.pos:], t) + len(t)
			m := c.work[c.pos : c.pos+i]
			c.pos += i
			return fmt.Sprintf("%q", m), false
		}, ok: func(work string, pos int) bool { return strings.Contains(work[pos:], t) }},
		{name: fmt.Sprintf("MatchRegexp(%s)", re), impl: func(s j.CodeStream) string { ok, m := s.MatchRegexp(*re); return fmt.Sprintf("%v %q", ok, m) }, spec: func(c *cursor) (string, bool) {
			if loc := re.FindStringIndex(c.work[c.pos:]); loc != nil && loc[0] == 0 {
				m := c.work[c.pos : c.pos+loc[1]]
				c.pos += loc[1]
				return fmt.Sprintf("true %q", m), false
			}
			return "false", false
		}},
	}
}

func cursorOps(n int) []op {
	var ops []op
	add := func(name string, impl func(s j.CodeStream) string, spec func(c *cursor) (string, bool)) {
		ops = append(ops, op{name: name, impl: impl, spec: spec})
	}
	for k := -1; k <= n+1; k++ {
		k := k
		add(fmt.Sprintf("SetPos(%d)", k), func(s j.CodeStream) string { s.SetPos(k); return "" }, func(c *cursor) (string, bool) {
			if k < 0 || k > len(c.work) {
				return "panic", false
			}
			c.pos = k
			return "", false
		})
	}
	for _, t := range []string{"", "a", "b", "ab", "ba", "\n", "é", "\xc3", "a\n", "aab", "ab\nab"} {
		t := t
		add(fmt.Sprintf("MatchString(%q)", t), func(s j.CodeStream) string { ok, m := s.MatchString(t); return fmt.Sprintf("%v %q", ok, m) }, func(c *cursor) (string, bool) {
			if strings.HasPrefix(c.work[c.pos:], t) {
				c.pos += len(t)
				return fmt.Sprintf("true %q", t), false
			}
			return "false", false
		})
	}
	for _, t := range []string{"a*", "b", "", "$", "^a", "[^a]", `\n`, "é|b", "a+b", "(a|b)*\n?", "(?s).*", "(?s)..", "a|ab", `\ba`} {
		re := regexp.MustCompile(t)
		anch := regexp.MustCompile(`\A(?:` + t + `)`)
		add(fmt.Sprintf("MatchRegexp(%s)", t), func(s j.CodeStream) string { ok, m := s.MatchRegexp(*re); return fmt.Sprintf("%v %q", ok, m) }, func(c *cursor) (string, bool) {
			if loc := anch.FindStringIndex(c.work[c.pos:]); loc != nil {
				m := c.work[c.pos : c.pos+loc[1]]
				c.pos += loc[1]
				return fmt.Sprintf("true %q", m), false
			}
			return "false", false
		})
	}
	for _, p := range []struct {
		n string
		f func(r rune) bool
	}{{"any", func(rune) bool { return true }}, {"none", func(rune) bool { return false }}, {"a", func(r rune) bool { return r == 'a' }}, {"é", func(r rune) bool { return r == 'é' }}, {"not newline", func(r rune) bool { return r != '\n' }}} {
		p := p
		add(fmt.Sprintf("MatchRune(%s)", p.n), func(s j.CodeStream) string {
			calls := 0
			ok, m := s.MatchRune(func(r rune) bool { calls++; return p.f(r) })
			return fmt.Sprintf("%v %q", ok, string(m))
		}, func(c *cursor) (string, bool) {
			if c.pos < len(c.work) {
				r, n := utf8.DecodeRuneInString(c.work[c.pos:])
				if p.f(r) {
					c.pos += n
					return fmt.Sprintf("true %q", string(r)), false
				}
			}
			return "false", false
		})
	}
	for _, t := range []string{"", "a", "b", "ab", "\n", "é", "aa"} {
		t := t
		add(fmt.Sprintf("GetUntil(%q)", t), func(s j.CodeStream) string { return fmt.Sprintf("%q", s.GetUntil(t)) }, func(c *cursor) (string, bool) {
			i := strings.Index(c.work[c.pos:], t) + len(t)
			m := c.work[c.pos : c.pos+i]
			c.pos += i
			return fmt.Sprintf("%q", m), false
		})
		ops[len(ops)-1].ok = func(work string, pos int) bool { return strings.Contains(work[pos:], t) }
	}
	for k := -4; k <= 4; k++ {
		k := k
		o := peekOp(k)
		add(o.name, o.impl, o.spec)
	}
	for _, a := range [][]int{{}, {0}, {1}, {-1}, {2}, {-2}, {-9}, {9}, {-1, 1}, {1, 2}, {2, 1}, {-2, -1}, {-1, -1}, {1, 1}, {3, 5}, {-5, -3}, {0, 1, -1}, {-9, 9}} {
		a := a
		add(fmt.Sprintf("PeekLines(%v)", a), func(s j.CodeStream) string { return fmt.Sprintf("%q", s.PeekLines(a...)) }, func(c *cursor) (string, bool) {
			l, _, known := c.lineCol(c.pos)
			if !known {
				return "", true
			}
			lo, hi := 0, 0
			if len(a) > 1 {
				lo, hi = a[0], a[0]
			}
			for _, x := range a {
				lo, hi = min(lo, x), max(hi, x)
			}
			lines := strings.Split(c.code, "\n")
			lo, hi = max(0, l+lo), min(len(lines)-1, l+hi)
			if lo > hi {
				return `""`, false
			}
			return fmt.Sprintf("%q", strings.Join(lines[lo:hi+1], "\n")), false
		})
	}
	return ops
}

// norm: what comes with a failed match is not claimed.
func norm(s string) string {
	if strings.HasPrefix(s, "false") {
		return "false"
	}
	return s
}

// observe compares the state of the stream with that of the cursor.
func observe(s j.CodeStream, c *cursor) string {
	if s.Pos() != c.pos {
		return fmt.Sprintf("position %d instead of %d", s.Pos(), c.pos)
	}
	if l, col, known := c.lineCol(c.pos); known {
		if got := noPanic(func() string { return fmt.Sprint(s.Line(), " ", s.Col()) }); got != fmt.Sprint(l, " ", col) {
			return fmt.Sprintf("line and column %s instead of %d %d", got, l, col)
		}
	}
	return ""
}

// explore runs every sequence of <= depth operations.
func explore(w *W, desc string, mk func() (j.CodeStream, *cursor), ops []op, depth int) {
	w.About(desc)
	hist := make([]int, 0, depth)
	names := func() string {
		var b []string
		for _, i := range hist {
			b = append(b, ops[i].name)
		}
		return strings.Join(b, "; ")
	}
	var rec func(c cursor) bool
	rec = func(c0 cursor) bool {
		if len(hist) == depth {
			return true
		}
		for i := range ops {
			if ops[i].ok != nil && !ops[i].ok(c0.work, c0.pos) {
				continue
			}
			hist = append(hist, i)
			// replay the history on a fresh stream
			s, c := mk()
			for _, k := range hist[:len(hist)-1] {
				noPanic(func() string { return ops[k].impl(s) })
			}
			*c = c0
			got := norm(noPanic(func() string { return ops[i].impl(s) }))
			exp, skip := ops[i].spec(c)
			w.cur.Transitions++
			d := ""
			if !skip && got != exp {
				d = "result " + got + " instead of " + exp
			} else if skip && got == "panic" {
				d = "panics"
			} else {
				d = observe(s, c)
			}
			if d != "" {
				w.Case(names())
				w.Fail(Failure{What: "the cursor differs from its specification after: " + names(), Grammar: desc, Input: names(), Expected: "the result and position of a byte cursor", Got: d})
				return false
			}
			if !rec(*c) {
				return false
			}
			hist = hist[:len(hist)-1]
		}
		return true
	}
	_, c := mk()
	w.Case("")
	rec(*c)
	w.cur.States += len(c.work) + 1
}

// positions compares what is said of every position.
func positions(w *W, desc string, mk func() (j.CodeStream, *cursor)) {
	s, c := mk()
	w.Case("positions")
	for p := 0; p <= len(c.work); p++ {
		w.cur.States++
		l, col, known := c.lineCol(p)
		if !known {
			continue
		}
		got := noPanic(func() string { return fmt.Sprint(s.PosToLine(p), " ", s.PosToCol(p)) })
		if got != fmt.Sprint(l, " ", col) {
			w.Fail(Failure{What: "wrong line and column", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprint(l, " ", col), Got: got})
			return
		}
	}
	if s.Code() != c.code || s.Length() != len(c.code) {
		w.Fail(Failure{What: "wrong code or length", Grammar: desc, Expected: fmt.Sprintf("%q", c.code), Got: fmt.Sprintf("%q %d", s.Code(), s.Length())})
	}
	w.Outcome("agree")
}

func textCursor(t string) func() (j.CodeStream, *cursor) {
	return func() (j.CodeStream, *cursor) {
		return j.NewRuneStream(t), &cursor{work: t, code: t, orig: func(p int) (int, bool) { return p, true }}
	}
}

var oddTexts = []string{"\xff", "a\xffb", "\xc3", "\xc3\xa9\xc3", "a\xe4\xb8", "\uFFFD", "a\uFFFDb\n", "\r\n", "a\r\nb", "\x00a", "世界\né", "a\n\n\nb", "\n\n\n\n", "日本\n語", "\xf0\x9f\x98\x80\na", "ab\nab\nab\nab"}

func p12(w *W) {
	do := func(texts []string, depth int) {
		for _, t := range texts {
			if !w.Unit() {
				continue
			}
			desc := fmt.Sprintf("text %q", t)
			positions(w, desc, textCursor(t))
			explore(w, desc, textCursor(t), cursorOps(len(t)), depth)
			w.Sample(fmt.Sprintf("%s: all sequences of <=%d of %d operations", desc, depth, len(cursorOps(len(t)))))
		}
	}
	al := []string{"a", "b", "\n", "é"}
	w.Suite("depth2", fmt.Sprintf("all sequences of <=2 operations on all texts over {a,b,newline,é}^<=%d and %d odd texts", w.Pick(4, 5), len(oddTexts)))
	do(append(strs(al, w.Pick(4, 5)), oddTexts...), 2)
	w.Suite("depth3", fmt.Sprintf("all sequences of <=3 operations on all texts over {a,newline,é}^<=%d", w.Pick(4, 5)))
	do(strs([]string{"a", "\n", "é"}, w.Pick(4, 5)), 3)
	if w.Thorough() {
		w.Suite("depth4", "all sequences of <=4 operations on 5 texts")
		for _, t := range []string{"", "a", "a\n", "é", "\na"} {
			for i := range cursorOps(len(t)) {
				if w.Unit() {
					ops := cursorOps(len(t))
					explore4(w, t, ops, i)
				}
			}
		}
	}
	w.Suite("characters", fmt.Sprintf("each of %d characters: all sequences of <=2 operations, some of them on the pieces of the text, on 7 texts of it and another character, and every operation after each position of all texts of <=4 of them", len(everyChar())))
	for _, c := range everyChar() {
		if !w.Unit() {
			continue
		}
		x, ts := charTexts(c, 4)
		for _, t := range ts {
			fromEachOps(w, fmt.Sprintf("text %q", t), textCursor(t), len(t), append(cursorOps(0), textOps(t, 3)...))
		}
		for _, t := range []string{c, c + c, c + x, x + c, c + "\n", c + x + c, c + c + x} {
			positions(w, fmt.Sprintf("text %q", t), textCursor(t))
			explore(w, fmt.Sprintf("text %q", t), textCursor(t), append(cursorOps(len(t)), textOps(t, 2)...), 2)
		}
	}
	nt := w.Pick(10, 12)
	w.Suite("search", fmt.Sprintf("all texts over {a,b}^<=%d and {a,é}^<=6: from every position, every piece of <=5 characters matched, searched with GetUntil, matched by a regular expression", nt))
	for _, t := range append(strs(chars("ab"), nt), strs([]string{"a", "é"}, 6)...) {
		if w.Unit() {
			fromEachOps(w, fmt.Sprintf("text %q", t), textCursor(t), len(t), pieceOps(t, 5))
		}
	}
	mixedRunes(w, w.Pick(40, 100), textCursor)
	w.Suite("big", fmt.Sprintf("texts of 2^k-1, 2^k, 2^k+1 bytes up to 2^%d: every operation, some of them on long pieces, around the start and end", w.Pick(12, 16)))
	for _, n := range around(6, w.Pick(12, 16), 1) {
		if !w.Unit() {
			continue
		}
		for _, t := range []string{rep("a", n) + "b", rep("\n", n), rep("aé\n", n/4) + rep("b", n%4), rep("é", n/2) + "\n"} {
			desc := fmt.Sprintf("a text of %d bytes, %q...", len(t), t[:12])
			s, c := textCursor(t)()
			for _, p := range []int{0, 1, n/2 - 1, n / 2, n/2 + 1, n - 1, n, len(t)} {
				l, col, _ := c.lineCol(min(p, len(t)))
				if got := fmt.Sprint(s.PosToLine(min(p, len(t))), " ", s.PosToCol(min(p, len(t)))); got != fmt.Sprint(l, " ", col) {
					w.Fail(Failure{What: "wrong line and column", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprint(l, " ", col), Got: got})
				}
			}
			ops := append(cursorOps(0), stringOps(t)...)
			ops = append(ops, stringOps(t[1:])...)
			ops = append(ops, stringOps(t[len(t)/2:])...)
			fromEachOps(w, desc, textCursor(t), len(t), ops)
		}
	}
	w.Suite("bigger", fmt.Sprintf("texts of 2^k-1, 2^k, 2^k+1 bytes up to 2^%d: every operation around the start and end", w.Pick(17, 20)))
	for _, n := range around(13, w.Pick(17, 20), 1) {
		for v, t := range []string{rep("a", n) + "b", rep("\n", n), rep("aé\n", n/4) + rep("b", n%4), rep("é", n/2) + "\n"} {
			if !w.Unit() {
				continue
			}
			desc := fmt.Sprintf("a text of %d bytes (%d)", len(t), v)
			allPositions(w, desc, textCursor(t))
			ops := append(append(cursorOps(0), stringOps(t[len(t)-3:])...), stringOps(t[len(t)/2:])[:2]...)
			for _, p := range []int{0, 1, n/2 + n/2%2, n - 2 + n%2, n, len(t)} {
				p := min(p, len(t))
				explore(w, desc, func() (j.CodeStream, *cursor) {
					s, c := textCursor(t)()
					s.SetPos(p)
					c.pos = p
					return s, c
				}, ops, 1)
			}
		}
	}
	w.Suite("many-lines", fmt.Sprintf("texts of 2^k-1, 2^k, 2^k+1 lines up to 2^%d, of very different lengths: the long ones first, last, in the middle, everywhere: lines and columns of all positions, in ascending and in descending order, on one stream", w.Pick(11, 14)))
	for _, n := range around(3, w.Pick(11, 14), 1) {
		for v, t := range unevenTexts(n) {
			if w.Unit() {
				w.About(fmt.Sprintf("%d lines, of shape %d", n, v))
				allPositions(w, fmt.Sprintf("%d lines, of shape %d", n, v), textCursor(t))
			}
		}
	}
	w.Suite("alike", fmt.Sprintf("pairs of texts of the same length that differ in the place of one or two newlines, for all places, lengths 2^k-1, 2^k, 2^k+1 up to 2^%d (and some places up to 2^%d): a stream of one, then of the other, all positions of both", w.Pick(5, 6), w.Pick(12, 14)))
	for _, n := range around(2, w.Pick(12, 14), 1) {
		alike(n, w.Pick(33, 65), func(a string) {
			if !w.Unit() {
				return
			}
			alike(n, w.Pick(33, 65), func(b string) {
				pairOf(w, fmt.Sprintf("texts of %d bytes with newlines at %v, then %v", n, newlines(a), newlines(b)), textCursor(a), textCursor(b))
			})
		})
	}
	N := w.Pick(64, 300)
	w.Suite("long", fmt.Sprintf("texts of 1..%d lines: all positions, and all operations after each of the last 12 and first 4 positions", N))
	for n := 1; n <= N; n++ {
		if !w.Unit() {
			continue
		}
		for _, t := range []string{rep("aé\n", n), rep("\n", n), rep("b", n), rep("\nab", n), rep("世", n)} {
			desc := fmt.Sprintf("text %q", t)
			positions(w, desc, textCursor(t))
			fromEach(w, desc, textCursor(t), len(t))
		}
	}
}

// unevenTexts: n lines of very different lengths.
func unevenTexts(n int) []string {
	long := rep("ab", 2*n)
	sq := ""
	for i := 0; i < n; i++ {
		sq += rep("x", i*i%97) + "\n"
	}
	return []string{
		rep("\n", n) + long, long + rep("\n", n), rep("\n", n/2) + long + rep("\n", n-n/2), rep("\n", n/2) + rep("abcdefgh\n", n-n/2), rep("abcdefgh\n", n/2) + rep("\n", n-n/2), rep("\n"+rep("é", 20)+"\n\n", n/3), sq, "a" + rep("\n", n-1) + "b", long + "\n" + rep("a\n", n-2) + long,
	}
}

// alike: texts of n bytes that differ in the place of newlines.
func alike(n, full int, f func(t string)) {
	at := func(ps ...int) string {
		b := []byte(rep("a", n))
		for _, p := range ps {
			b[p] = '\n'
		}
		return string(b)
	}
	f(at())
	for p := 0; p < n; p++ {
		if n <= full || p&(p-1) == 0 && p > n/8 || p == n/2+n/4 || p == n/3 || p == n-1 {
			f(at(p))
		}
	}
	if n <= 5 {
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				f(at(p, q))
			}
		}
	}
	if n > 5 {
		f(at(n/2, n/2+1))
		f(at(n/2-1, n/2+1))
	}
}

func newlines(t string) (ps []int) {
	for i := range t {
		if t[i] == '\n' {
			ps = append(ps, i)
		}
	}
	return
}

// pairOf: one stream is made after the other; all positions of the second one,
// of the first one, then of both in turns.
func pairOf(w *W, desc string, mka, mkb func() (j.CodeStream, *cursor)) {
	w.About(desc)
	w.Case("positions")
	sa, ca := mka()
	sb, cb := mkb()
	check := func(s j.CodeStream, c *cursor, p int) bool {
		if p > len(c.work) {
			return true
		}
		l, col, known := c.lineCol(p)
		if !known {
			return true
		}
		w.cur.States++
		s.SetPos(p)
		if got := noPanic(func() string { return fmt.Sprint(s.PosToLine(p), s.PosToCol(p), s.Line(), s.Col()) }); got != fmt.Sprint(l, col, l, col) {
			w.Fail(Failure{What: "wrong line and column (two streams)", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprint(l, col, l, col), Got: got})
			return false
		}
		if len(c.code) < 70 || p == len(c.work)/2 {
			lines := strings.Split(c.code, "\n")
			if got := noPanic(func() string { return s.PeekLines(0) }); got != lines[l] {
				w.Fail(Failure{What: "wrong line shown (two streams)", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprintf("%q", lines[l]), Got: fmt.Sprintf("%q", got)})
				return false
			}
		}
		return true
	}
	for _, p := range somePositions(len(cb.work)) {
		if !check(sb, cb, p) {
			return
		}
	}
	for _, p := range somePositions(len(ca.work)) {
		if !check(sa, ca, p) || !check(sb, cb, p) {
			return
		}
	}
	w.Outcome("agree")
}

// somePositions: all of them, or those around powers of two and fractions.
func somePositions(n int) (ps []int) {
	for p := 0; p <= n; p++ {
		q := p - p%4
		if n < 140 || p < 3 || p > n-3 || q&(q-1) == 0 && q > n/8 || p >= n/2-1 && p <= n/2+2 || p == n/3 || p == n/3+1 || p == n/2+n/4 || p == n/2+n/4+1 {
			ps = append(ps, p)
		}
	}
	return
}

// allPositions: lines and columns of all positions, in both orders, against
// counts kept along the way.
func allPositions(w *W, desc string, mk func() (j.CodeStream, *cursor)) {
	s, c := mk()
	w.Case("positions")
	n := len(c.work)
	type lc struct{ l, col int }
	offs := make([]lc, len(c.code)+1)
	l, last := 0, 0
	for i := 0; i <= len(c.code); i++ {
		offs[i] = lc{l, i - last}
		if i < len(c.code) && c.code[i] == '\n' {
			l, last = l+1, i+1
		}
	}
	for pass := 0; pass < 2; pass++ {
		for i := 0; i <= n; i++ {
			p := i
			if pass == 1 {
				p = n - i
			}
			w.cur.States++
			off, known := c.orig(p)
			if !known {
				continue
			}
			s.SetPos(p)
			var got, gotCur lc
			noPanic(func() string {
				got = lc{s.PosToLine(p), s.PosToCol(p)}
				gotCur = lc{s.Line(), s.Col()}
				return ""
			})
			if exp := offs[off]; got != exp || gotCur != exp {
				w.Fail(Failure{What: "wrong line and column", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprint(exp), Got: fmt.Sprint(got, gotCur)})
				return
			}
		}
	}
	w.Outcome("agree")
}

func explore4(w *W, t string, ops []op, first int) {
	f := ops[first]
	explore(w, fmt.Sprintf("text %q after %s", t, f.name), func() (j.CodeStream, *cursor) {
		s, c := textCursor(t)()
		if f.ok == nil || f.ok(c.work, 0) {
			noPanic(func() string { return f.impl(s) })
			f.spec(c)
		}
		return s, c
	}, ops, 3)
}

// fromEach runs every operation after SetPos to the first and last positions.
func fromEach(w *W, desc string, mk func() (j.CodeStream, *cursor), n int) {
	fromEachOps(w, desc, mk, n, cursorOps(0))
}

func fromEachOps(w *W, desc string, mk func() (j.CodeStream, *cursor), n int, ops []op) {
	for p := 0; p <= n; p++ {
		if p > 4 && p < n-12 {
			continue
		}
		p := p
		explore(w, desc, func() (j.CodeStream, *cursor) {
			s, c := mk()
			s.SetPos(p)
			c.pos = p
			return s, c
		}, ops, 1)
	}
}

// ---- token streams -----------------------------------------------------------

// piece is a token: a piece of the original text.
type piece struct{ from, to int }

// tokenizations calls f with every sequence of disjoint pieces of t, in order
// (pieces respect rune boundaries).
func tokenizations(t string, f func(ps []piece)) {
	var offs []int
	for i := range t {
		offs = append(offs, i)
	}
	offs = append(offs, len(t))
	n := len(offs) - 1
	tuples(3, n, func(ix []int) { // 0: not in a token, 1: starts a token, 2: continues it
		var ps []piece
		for i := 0; i < n; i++ {
			switch ix[i] {
			case 1:
				ps = append(ps, piece{offs[i], offs[i+1]})
			case 2:
				if i == 0 || ix[i-1] == 0 {
					return
				}
				ps[len(ps)-1].to = offs[i+1]
			}
		}
		f(ps)
	})
}

// withRuns calls f with every way of inserting up to three empty tokens in each
// gap between tokens, where the gap begins, where it ends, or both.
func withRuns(n int, ps []piece, f func(ps []piece)) {
	tuples(6, len(ps)+1, func(ix []int) {
		var qs []piece
		for i := 0; i <= len(ps); i++ {
			lo, hi := 0, n
			if i > 0 {
				lo = ps[i-1].to
			}
			if i < len(ps) {
				hi = ps[i].from
			}
			for _, at := range [][]int{{}, {lo}, {lo, lo}, {hi, hi}, {lo, hi}, {lo, lo, hi}}[ix[i]] {
				qs = append(qs, piece{at, at})
			}
			if i < len(ps) {
				qs = append(qs, ps[i])
			}
		}
		f(qs)
	})
}

// withEmpties calls f with every way of inserting empty tokens among ps, at
// most one between two tokens, where the next token starts.
func withEmpties(n int, ps []piece, f func(ps []piece)) {
	for m := 1; m < 1<<(len(ps)+1); m++ {
		var qs []piece
		for i := 0; i <= len(ps); i++ {
			if m>>i&1 == 1 {
				at := n
				if i < len(ps) {
					at = ps[i].from
				}
				qs = append(qs, piece{at, at})
			}
			if i < len(ps) {
				qs = append(qs, ps[i])
			}
		}
		f(qs)
	}
}

func pieceStream(t string, ps []piece) (toks []j.Token, work string) {
	for _, p := range ps {
		toks = append(toks, j.Token{Repr: t[p.from:p.to], OriginalOffset: p.from, WorkOffset: len(work)})
		work += t[p.from:p.to]
	}
	return
}

func tokenCursor(t string, ps []piece) func() (j.CodeStream, *cursor) {
	toks, work := pieceStream(t, ps)
	orig := func(p int) (int, bool) {
		for i, k := range toks {
			if p >= k.WorkOffset && p < k.WorkOffset+len(k.Repr) {
				return ps[i].from + p - k.WorkOffset, true
			}
		}
		return 0, false
	}
	return func() (j.CodeStream, *cursor) {
		return j.NewTokenStream(t, toks), &cursor{work: work, code: t, orig: orig}
	}
}

func p13(w *W) {
	do := func(texts []string, depth int) {
		for _, t := range texts {
			t := t
			tokenizations(t, func(ps []piece) {
				if !w.Unit() {
					return
				}
				mk := tokenCursor(t, ps)
				toks, work := pieceStream(t, ps)
				desc := fmt.Sprintf("text %q, tokens %v", t, tokNames(toks))
				positions(w, desc, mk)
				explore(w, desc, mk, cursorOps(len(work)), depth)
				w.Sample(desc)
			})
		}
	}
	al := []string{"a", "b", "\n", "é"}
	w.Suite("depth2", fmt.Sprintf("all sequences of <=2 operations on all tokenizations of all texts over {a,b,newline,é}^<=%d", w.Pick(4, 5)))
	do(strs(al, w.Pick(4, 5)), 2)
	w.Suite("odd", "the same on tokenizations of some odd texts")
	do([]string{"\r\na", "a\xffb", "世\n界", "\n\n\n", "a\uFFFD", "\n a\n"}, 2)
	w.Suite("depth3", "all sequences of <=3 operations on all tokenizations of 6 texts of 3 characters")
	if w.Thorough() {
		do(strs([]string{"a", "\n"}, 3), 3)
	} else {
		do([]string{"a\nb", "\na\n", "aéb"}, 3)
	}
	w.Suite("positions", fmt.Sprintf("lines and columns of all positions, and every operation after each position, for all tokenizations of all texts over {a,newline}^<=%d and {a,newline,é}^<=%d", w.Pick(6, 8), w.Pick(5, 6)))
	for _, t := range append(strs([]string{"a", "\n"}, w.Pick(6, 8)), strs([]string{"a", "\n", "é"}, w.Pick(5, 6))...) {
		if !w.Unit() {
			continue
		}
		tokenizations(t, func(ps []piece) {
			mk := tokenCursor(t, ps)
			toks, work := pieceStream(t, ps)
			desc := fmt.Sprintf("text %q, tokens %v", t, tokNames(toks))
			w.About(desc)
			positions(w, desc, mk)
			if len(t) <= 5 {
				fromEach(w, desc, mk, len(work))
			}
		})
	}
	nt := w.Pick(10, 12)
	w.Suite("search", fmt.Sprintf("all texts over {a,b}^<=%d as one token, as characters apart from each other, as two tokens: from every position, every piece of <=5 characters matched, searched with GetUntil, matched by a regular expression", nt))
	for _, t := range strs(chars("ab"), nt) {
		if !w.Unit() {
			continue
		}
		h := len(t) / 2
		apart := ""
		var ps []piece
		for i := range t {
			apart += "\n" + t[i:i+1]
			ps = append(ps, piece{2*i + 1, 2*i + 2})
		}
		for _, x := range []struct {
			t  string
			ps []piece
		}{{t, []piece{{0, len(t)}}}, {apart, ps}, {t[:h] + "ab" + t[h:], []piece{{0, h}, {h + 2, len(t) + 2}}}} {
			fromEachOps(w, fmt.Sprintf("text %q, tokens %v", x.t, x.ps), tokenCursor(x.t, x.ps), len(t), pieceOps(t, 5))
		}
	}
	mixedRunes(w, w.Pick(40, 100), func(t string) func() (j.CodeStream, *cursor) {
		return tokenCursor("\n"+t+" ", []piece{{1, len(t) + 1}})
	})
	w.Suite("empty-runs", fmt.Sprintf("the lines and columns of all positions, with up to 3 empty tokens, next to or apart from each other, in every place between tokens, for all tokenizations of all texts over {a,newline}^<=%d", w.Pick(4, 5)))
	for _, t := range strs([]string{"a", "\n"}, w.Pick(4, 5)) {
		if !w.Unit() {
			continue
		}
		tokenizations(t, func(ps []piece) {
			withRuns(len(t), ps, func(ps []piece) {
				mk := tokenCursor(t, ps)
				desc := fmt.Sprintf("text %q, tokens %v", t, ps)
				w.About(desc)
				positions(w, desc, mk)
			})
		})
	}
	w.Suite("empty-tokens", fmt.Sprintf("the same with empty tokens inserted at every subset of the places between tokens, for all texts over {a,newline}^<=%d and {a,newline,é}^<=%d", w.Pick(4, 5), w.Pick(3, 4)))
	for _, t := range append(strs([]string{"a", "\n"}, w.Pick(4, 5)), strs([]string{"a", "\n", "é"}, w.Pick(3, 4))...) {
		if !w.Unit() {
			continue
		}
		tokenizations(t, func(ps []piece) {
			withEmpties(len(t), ps, func(ps []piece) {
				mk := tokenCursor(t, ps)
				toks, work := pieceStream(t, ps)
				desc := fmt.Sprintf("text %q, tokens %v", t, tokNames(toks))
				w.About(desc)
				positions(w, desc, mk)
				fromEach(w, desc, mk, len(work))
			})
		})
	}
	w.Suite("characters", fmt.Sprintf("each of %d characters: all tokenizations of all texts of <=%d of it and another one: positions, and every operation, some of them on the pieces of the text, after each position; sequences of 2 operations on 4 texts", len(everyChar()), w.Pick(3, 4)))
	for _, c := range everyChar() {
		if !w.Unit() {
			continue
		}
		x, ts := charTexts(c, w.Pick(3, 4))
		for _, t := range ts {
			tokenizations(t, func(ps []piece) {
				mk := tokenCursor(t, ps)
				toks, work := pieceStream(t, ps)
				desc := fmt.Sprintf("text %q, tokens %v", t, tokNames(toks))
				w.About(desc)
				positions(w, desc, mk)
				ops := append(cursorOps(0), textOps(work, 3)...)
				fromEachOps(w, desc, mk, len(work), ops)
				if t == c+c || t == c+x || t == x+c || t == c+x+c && len(ps) == 3 {
					explore(w, desc, mk, append(cursorOps(len(work)), textOps(work, 2)...), 2)
				}
			})
		}
	}
	w.Suite("big", fmt.Sprintf("token streams of 2^k-1, 2^k, 2^k+1 tokens up to 2^%d, of long tokens, of tokens far apart", w.Pick(10, 14)))
	for _, n := range around(6, w.Pick(10, 14), 1) {
		if !w.Unit() {
			continue
		}
		for v := 0; v < 4; v++ {
			t := rep("aé\nb", n/2)
			var ps []piece
			switch v {
			case 0: // one character, one token
				for i, r := range t {
					ps = append(ps, piece{i, i + utf8.RuneLen(r)})
				}
			case 1: // a long token between two short ones
				ps = []piece{{0, 1}, {1, len(t) - 1}, {len(t) - 1, len(t)}}
			case 2: // far apart
				ps = []piece{{0, 1}, {len(t) - 1, len(t)}}
			case 3: // every second
				for i, r := range t {
					if i%5 < 3 && r != 'b' {
						ps = append(ps, piece{i, i + utf8.RuneLen(r)})
					}
				}
			}
			mk := tokenCursor(t, ps)
			_, work := pieceStream(t, ps)
			desc := fmt.Sprintf("%d tokens (%d) of a text of %d bytes", len(ps), v, len(t))
			if n < 200 {
				positions(w, desc, mk)
			}
			s, c := mk()
			for _, p := range []int{0, 1, len(work)/2 - 1, len(work) / 2, len(work) - 2, len(work) - 1} {
				if p < 0 {
					continue
				}
				l, col, known := c.lineCol(p)
				if got := fmt.Sprint(s.PosToLine(p), " ", s.PosToCol(p)); known && got != fmt.Sprint(l, " ", col) {
					w.Fail(Failure{What: "wrong line and column", Grammar: desc, Input: fmt.Sprint("position ", p), Expected: fmt.Sprint(l, " ", col), Got: got})
				}
			}
			fromEachOps(w, desc, mk, len(work), append(append(cursorOps(0), stringOps(work)...), stringOps(work[1:])...))
		}
	}
	w.Suite("many-lines", fmt.Sprintf("tokens of texts of 2^k-1, 2^k, 2^k+1 lines up to 2^%d, of very different lengths: all non-blank stretches, all characters, lines, every third character as tokens: lines and columns of all positions in ascending and in descending order", w.Pick(9, 11)))
	for _, n := range around(3, w.Pick(9, 11), 1) {
		for v, t := range unevenTexts(n) {
			for k := 0; k < 4; k++ {
				if !w.Unit() {
					continue
				}
				var ps []piece
				for i, r := range t {
					z := i + utf8.RuneLen(r)
					more := len(ps) > 0 && ps[len(ps)-1].to == i
					switch {
					case k == 0 && r == '\n' || k == 3 && i%3 != 0:
					case k == 0 && more, k == 2 && more && t[i-1] != '\n':
						ps[len(ps)-1].to = z
					default:
						ps = append(ps, piece{i, z})
					}
				}
				toks, work := pieceStream(t, ps)
				at := make([]int, len(work)) // where each byte is in t
				for i, q := range ps {
					for b := q.from; b < q.to; b++ {
						at[toks[i].WorkOffset+b-q.from] = b
					}
				}
				desc := fmt.Sprintf("%d tokens (%d) of %d lines of shape %d", len(ps), k, n, v)
				w.About(desc)
				allPositions(w, desc, func() (j.CodeStream, *cursor) {
					return j.NewTokenStream(t, toks), &cursor{work: work, code: t, orig: func(p int) (int, bool) {
						if p < len(at) {
							return at[p], true
						}
						return 0, false
					}}
				})
			}
		}
	}
	w.Suite("bigger", fmt.Sprintf("long tokens, tokens far apart, after long blanks, in texts of 2^k-1, 2^k, 2^k+1 characters up to 2^%d: all positions of the tokens and every operation around them", w.Pick(17, 20)))
	for _, n := range around(10, w.Pick(17, 20), 1) {
		for v := 0; v < 3; v++ {
			if !w.Unit() {
				continue
			}
			t := []string{rep("aé\nb", n/5), rep("\n", n) + "ab\nc", rep("a", n) + "\nb\n"}[v]
			ps := [][]piece{{{0, 1}, {1, len(t) - 1}, {len(t) - 1, len(t)}}, {{n, n + 1}, {n + 1, n + 2}, {n + 3, n + 4}}, {{0, 1}, {n - 1, n + 1}, {n + 1, n + 2}}}[v]
			toks, work := pieceStream(t, ps)
			at := make([]int, len(work))
			for i, q := range ps {
				for b := q.from; b < q.to; b++ {
					at[toks[i].WorkOffset+b-q.from] = b
				}
			}
			mk := func() (j.CodeStream, *cursor) {
				return j.NewTokenStream(t, toks), &cursor{work: work, code: t, orig: func(p int) (int, bool) {
					if p < len(at) {
						return at[p], true
					}
					return 0, false
				}}
			}
			desc := fmt.Sprintf("3 tokens of a text of %d bytes (%d)", len(t), v)
			w.About(desc)
			allPositions(w, desc, mk)
			for _, p := range []int{0, 1, 2, len(work) - 2, len(work) - 1, len(work)} {
				p := max(p, 0)
				explore(w, desc, func() (j.CodeStream, *cursor) {
					s, c := mk()
					s.SetPos(p)
					c.pos = p
					return s, c
				}, append(append(cursorOps(0), stringOps(work)[:2]...), stringOps(work[len(work)-2:])...), 1)
			}
		}
	}
	w.Suite("alike", fmt.Sprintf("pairs of token streams of texts of the same length that differ in the place of newlines, of the same text with other tokens, for lengths around powers of two up to 2^%d: a stream of one, then of the other, all positions of both", w.Pick(10, 12)))
	for _, n := range around(2, w.Pick(10, 12), 1) {
		alike(n, w.Pick(17, 33), func(a string) {
			if !w.Unit() {
				return
			}
			as := cuts(n)
			alike(n, w.Pick(9, 17), func(b string) {
				for i, pa := range as {
					for k, pb := range as {
						if i == k || a == b || (i+k)%3 == 0 {
							pairOf(w, fmt.Sprintf("texts of %d bytes with newlines at %v (tokens %d), then %v (tokens %d)", n, newlines(a), i, newlines(b), k), tokenCursor(a, pa), tokenCursor(b, pb))
						}
					}
				}
			})
		})
	}
	N := w.Pick(40, 120)
	w.Suite("long", fmt.Sprintf("1..%d tokens: words of multi-line texts, with blanks and line ends skipped or not", N))
	for n := 1; n <= N; n++ {
		for v := 0; v < 3; v++ {
			if !w.Unit() {
				continue
			}
			t := rep("ab é\n\n c", n)
			var ps []piece
			for i, r := range t {
				z := i + utf8.RuneLen(r)
				switch {
				case r == ' ' || r == '\n' && v != 1:
				case len(ps) > 0 && ps[len(ps)-1].to == i && (v == 2 || r != '\n' && t[i-1] != '\n'):
					ps[len(ps)-1].to = z
				default:
					ps = append(ps, piece{i, z})
				}
			}
			mk := tokenCursor(t, ps)
			_, work := pieceStream(t, ps)
			desc := fmt.Sprintf("%d tokens of %q", len(ps), t)
			positions(w, desc, mk)
			fromEach(w, desc, mk, len(work))
		}
	}
}

// cuts: ways of cutting a text of n bytes in tokens.
func cuts(n int) [][]piece {
	third := n / 3
	return [][]piece{
		{{0, n}},
		{{0, third}, {third, n}},
		{{0, third}, {third + 1, n}},
		{{0, n - 1}, {n - 1, n}},
		{{1, n/2 + 1}, {n/2 + 1, n}},
		{{0, n / 2}},
		{{n / 2, n}},
	}
}

func tokNames(toks []j.Token) string {
	var b []string
	for _, k := range toks {
		b = append(b, fmt.Sprintf("%q@%d", k.Repr, k.OriginalOffset))
	}
	return "[" + strings.Join(b, " ") + "]"
}
