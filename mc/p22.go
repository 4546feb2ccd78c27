package main

import (
	"fmt"
	"math"
	"slices"
	"strings"

	j "github.com/grepsuzette/joeson"
	h "github.com/grepsuzette/joeson/helpers"
)

func init() {
	register("P22", p22, "lists, strings, indices, and operation sequences up to the stated sizes")
}

func guarded(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic: " + firstLine(fmt.Sprint(e))
		}
	}()
	return f()
}

// eq compares one call with its model.
func (w *W) eq(what, call, want string, f func() string) bool {
	w.Case(call)
	w.cur.States++
	w.cur.Transitions++
	if got := guarded(f); got != want {
		w.Fail(Failure{What: what, Input: call, Expected: want, Got: got})
		return false
	}
	return true
}

func p22(w *W) {
	p22bisect(w)
	p22slice(w)
	p22runes(w)
	p22mixed(w)
	p22lazy(w)
	p22text(w)
	p22big(w)
}

func p22bisect(w *W) {
	n := w.Pick(6, 8)
	check := func(a []int, x int) bool {
		l, r := 0, 0
		for _, v := range a {
			if v < x {
				l++
			}
			if v <= x {
				r++
			}
		}
		c := func() []int { return append([]int{}, a...) }
		ins := slices.Insert(c(), l, x)
		in := fmt.Sprintf("(%v, %d)", a, x)
		return w.eq("wrong insertion point", "BisectLeft"+in, fmt.Sprint(l), func() string { return fmt.Sprint(h.BisectLeft(c(), x)) }) &&
			w.eq("wrong insertion point", "BisectRight"+in, fmt.Sprint(r), func() string { return fmt.Sprint(h.BisectRight(c(), x)) }) &&
			w.eq("wrong insertion", "InsortLeft"+in, fmt.Sprint(ins), func() string { return fmt.Sprint(h.InsortLeft(c(), x)) }) &&
			w.eq("wrong insertion", "InsortRight"+in, fmt.Sprint(ins), func() string { return fmt.Sprint(h.InsortRight(c(), x)) }) &&
			w.eq("wrong insertion in a list with spare capacity", "InsortRight"+in, fmt.Sprint(ins), func() string {
				return fmt.Sprint(h.InsortRight(append(make([]int, 0, len(a)+3), a...), x))
			}) &&
			w.eq("wrong insertion in a list with spare capacity", "InsortLeft"+in, fmt.Sprint(ins), func() string {
				return fmt.Sprint(h.InsortLeft(append(make([]int, 0, len(a)+3), a...), x))
			})
	}
	w.Suite("bisect", fmt.Sprintf("all sorted lists of up to %d numbers among 0..3, all numbers -1..4", n))
	var rec func(a []int)
	rec = func(a []int) {
		if w.Unit() {
			w.About(fmt.Sprint(a))
			for x := -1; x <= 4; x++ {
				if !check(a, x) {
					return
				}
				w.Outcome("agreed")
			}
		}
		if len(a) < n {
			lo := 0
			if len(a) > 0 {
				lo = a[len(a)-1]
			}
			for v := lo; v <= 3; v++ {
				rec(append(append([]int{}, a...), v))
			}
		}
	}
	rec([]int{})
	ext := []int{math.MinInt, math.MinInt + 1, -1, 0, 1, math.MaxInt - 1, math.MaxInt}
	w.Suite("bisect-extremes", "all sorted lists of up to 4 of 7 extreme numbers, each of them searched and inserted")
	for k := 0; k <= 4; k++ {
		tuples(len(ext), k, func(ix []int) {
			if !slices.IsSorted(ix) || !w.Unit() {
				return
			}
			a := []int{}
			for _, i := range ix {
				a = append(a, ext[i])
			}
			w.About(fmt.Sprint(a))
			for _, x := range ext {
				if !check(a, x) {
					return
				}
				w.Outcome("agreed")
			}
		})
	}
	N := w.Pick(130, 300)
	w.Suite("bisect-scale", fmt.Sprintf("lists 0,2,2,4,6,6,8.. of length 1..%d, every number up to two beyond the ends", N))
	for k := 1; k <= N; k++ {
		if !w.Unit() {
			continue
		}
		var a []int
		for i := 0; len(a) < k; i++ {
			a = append(a, 2*i)
			if i%2 == 1 && len(a) < k {
				a = append(a, 2*i)
			}
		}
		w.About(fmt.Sprint("length ", k))
		for x := -2; x <= a[len(a)-1]+2; x++ {
			if !check(a, x) {
				break
			}
		}
		w.Outcome("agreed")
	}
	w.Suite("sorted-keys", "all subsets of 8 keys, as strings and as ints")
	sk := []string{"", "a", "A", "b", "ab", "é", "10", "9"}
	ik := []int{math.MinInt, -10, -1, 0, 2, 9, 10, math.MaxInt}
	for mask := 0; mask < 256; mask++ {
		if !w.Unit() {
			continue
		}
		ms, mi := map[string]bool{}, map[int]string{}
		ws, wi := []string{}, []int{}
		for i := range sk {
			if mask>>i&1 == 1 {
				ms[sk[i]], mi[ik[i]] = i%2 == 0, sk[i]
				ws, wi = append(ws, sk[i]), append(wi, ik[i])
			}
		}
		slices.Sort(ws)
		slices.Sort(wi)
		w.eq("wrong sorted keys", fmt.Sprintf("SortStringKeys(%q)", ws), fmt.Sprintf("%q", ws), func() string { return fmt.Sprintf("%q", h.SortStringKeys(ms)) })
		w.eq("wrong sorted keys", fmt.Sprintf("SortIntKeys(%v)", wi), fmt.Sprint(wi), func() string { return fmt.Sprint(h.SortIntKeys(mi)) })
		w.Outcome("agreed")
	}
}

func p22slice(w *W) {
	n := w.Pick(7, 10)
	w.Suite("slice", fmt.Sprintf("strings of length 0..%d (ASCII, and with two-byte characters), all pairs of indices from -%d to %d and four extreme ones, against JavaScript's String.slice", n, n+3, n+3))
	ix := []int{math.MinInt, math.MinInt + 1, math.MaxInt - 1, math.MaxInt}
	for i := -n - 3; i <= n+3; i++ {
		ix = append(ix, i)
	}
	rel := func(i, l int) int {
		if i < 0 {
			if i < -l {
				return 0
			}
			return l + i
		}
		if i > l {
			return l
		}
		return i
	}
	for l := 0; l <= n; l++ {
		for _, s := range []string{"abcdefghijkl"[:l], rep("é", l)} {
			for _, a := range ix {
				if !w.Unit() {
					continue
				}
				w.About(fmt.Sprintf("SliceString(%q, %d, _)", s, a))
				for _, b := range ix {
					want := ""
					if f, t := rel(a, len(s)), rel(b, len(s)); f < t {
						want = s[f:t]
					}
					if !w.eq("not JavaScript's slice", fmt.Sprintf("SliceString(%q, %d, %d)", s, a, b), want, func() string { return h.SliceString(s, a, b) }) {
						break
					}
					w.Outcome(map[bool]string{true: "empty", false: "not empty"}[want == ""])
				}
			}
		}
	}
}

func p22runes(w *W) {
	n := w.Pick(5, 6)
	alpha := []string{"a", "é", "世", "😀", "\uFFFD", "\xff", "\xe4\xb8", "\x00"}
	w.Suite("runes", fmt.Sprintf("LastNRunes and LastNRunesReversed of all strings of up to %d of 8 pieces (1 to 4 byte characters, U+FFFD, invalid and truncated UTF-8), n from -1 to %d", n, 2*n+1))
	for _, s := range strs(alpha, n) {
		if !w.Unit() {
			continue
		}
		w.About(fmt.Sprintf("%q", s))
		var starts []int
		for i := range s {
			starts = append(starts, i)
		}
		for k := -1; k <= len(starts)+1; k++ {
			at := len(s)
			if k > 0 && len(starts) > 0 {
				at = starts[max(0, len(starts)-k)]
			}
			want := s[at:]
			if !w.eq("not the last runes", fmt.Sprintf("LastNRunes(%q, %d)", s, k), want, func() string { return h.LastNRunes(s, k) }) {
				break
			}
			revd := ""
			for i := len(starts) - 1; i >= 0 && len(starts)-i <= k; i-- {
				e := len(s)
				if i+1 < len(starts) {
					e = starts[i+1]
				}
				revd += s[starts[i]:e]
			}
			if !w.eq("not the last runes reversed", fmt.Sprintf("LastNRunesReversed(%q, %d)", s, k), revd, func() string { return h.LastNRunesReversed(s, k) }) {
				break
			}
			w.Outcome("agreed")
		}
	}
}

// lastRunes checks both functions for a text and a number of runes.
func lastRunes(w *W, s string, k int) bool {
	var starts []int
	for i := range s {
		starts = append(starts, i)
	}
	at := len(s)
	if k > 0 && len(starts) > 0 {
		at = starts[max(0, len(starts)-k)]
	}
	revd := ""
	for i := len(starts) - 1; i >= 0 && len(starts)-i <= k; i-- {
		e := len(s)
		if i+1 < len(starts) {
			e = starts[i+1]
		}
		revd += s[starts[i]:e]
	}
	return w.eq("not the last runes", fmt.Sprintf("LastNRunes(%q, %d)", s, k), s[at:], func() string { return h.LastNRunes(s, k) }) &&
		w.eq("not the last runes reversed", fmt.Sprintf("LastNRunesReversed(%q, %d)", s, k), revd, func() string { return h.LastNRunesReversed(s, k) })
}

// p22mixed: narrow and wide runes at every place of longer texts.
func p22mixed(w *W) {
	n := w.Pick(11, 14)
	w.Suite("mixed", fmt.Sprintf("LastNRunes and LastNRunesReversed of all strings of 7 to %d narrow and wide runes, for 4 wide runes, and of strings of up to 70 with one or two wide runes at every place, for every n", n))
	for _, c := range []string{"é", "世", "😀", "\xff"} {
		for k := 7; k <= n; k++ {
			if !w.Unit() {
				continue
			}
			for m := 0; m < 1<<k; m++ {
				var b strings.Builder
				for i := 0; i < k; i++ {
					if m>>i&1 != 0 {
						b.WriteString(c)
					} else {
						b.WriteByte(byte('a' + i))
					}
				}
				for t := 0; t <= k+1; t++ {
					if !lastRunes(w, b.String(), t) {
						return
					}
				}
				w.Outcome("agreed")
			}
		}
		for _, k := range []int{16, 17, 32, 33, 64, 70} {
			if !w.Unit() {
				continue
			}
			for p := 0; p < k; p++ {
				for _, q := range []int{p, 0, k / 2, k - 1} {
					var b strings.Builder
					for i := 0; i < k; i++ {
						if i == p || i == q {
							b.WriteString(c)
						} else {
							b.WriteByte(byte('a' + i%26))
						}
					}
					for t := 0; t <= k+1; t++ {
						if !lastRunes(w, b.String(), t) {
							return
						}
					}
					w.Outcome("agreed")
				}
			}
		}
	}
}

func p22lazy(w *W) {
	depth := w.Pick(6, 7)
	ops := []string{"Set(1)", "Set(0)", "SetLazy(f)", "SetLazy(g)", "Clear", "Get", "IsSet"}
	w.Suite("lazy", fmt.Sprintf("all sequences of %d operations among %d, from each of the 3 constructors, for int and for pointers (nil included): results, and evaluations of the functions", depth, len(ops)))
	for ctor := 0; ctor < 3; ctor++ {
		tuples(len(ops), 2, func(pre []int) {
			if !w.Unit() {
				return
			}
			failed := false
			tuples(len(ops), depth-2, func(suf []int) {
				if failed {
					return
				}
				ix := append(append([]int{}, pre...), suf...)
				failed = !lazyRun(w, ctor, ix, ops)
			})
			w.Outcome("agreed")
		})
	}
}

func lazyRun(w *W, ctor int, ix []int, ops []string) bool {
	evals, want := "", ""
	one := 1
	f := func() int { evals += "f"; return 7 }
	g := func() int { evals += "g"; return 0 }
	fp := func() *int { evals += "F"; return nil }
	gp := func() *int { evals += "G"; return &one }
	var a *h.Lazy[int]
	var b *h.Lazy[*int]
	set, val := false, 0
	fn := byte(0)
	switch ctor {
	case 0:
		a, b = h.NewLazy[int](), h.NewLazy[*int]()
	case 1:
		a, b = h.LazyFromValue(5), h.LazyFromValue[*int](nil)
		set, val = true, 5
	case 2:
		a, b = h.LazyFromFunc(f), h.LazyFromFunc(fp)
		fn = 'f'
	}
	bval := (*int)(nil)
	seq := ""
	for _, i := range ix {
		seq += " " + ops[i]
	}
	w.Case(fmt.Sprintf("constructor %d:%s", ctor, seq))
	for _, i := range ix {
		w.cur.Transitions++
		got, exp := "", ""
		switch i {
		case 0:
			a.Set(1)
			b.Set(&one)
			set, val, bval = true, 1, &one
		case 1:
			a.Set(0)
			b.Set(nil)
			set, val, bval = true, 0, nil
		case 2:
			a.SetLazy(f)
			b.SetLazy(fp)
			fn = 'f'
		case 3:
			a.SetLazy(g)
			b.SetLazy(gp)
			fn = 'g'
		case 4:
			a.Clear()
			b.Clear()
			set, fn = false, 0
		case 5:
			if !set && fn == 0 {
				continue // nothing to get
			}
			if !set {
				set = true
				if fn == 'f' {
					val, bval, want = 7, nil, want+"fF"
				} else {
					val, bval, want = 0, &one, want+"gG"
				}
			}
			exp = fmt.Sprint(val, bval == nil)
			got = guarded(func() string { x := a.Get(); y := b.Get(); return fmt.Sprint(x, y == nil) })
		case 6:
			exp = fmt.Sprint(set, set)
			got = guarded(func() string { return fmt.Sprint(a.IsSet(), b.IsSet()) })
		}
		if got != exp || evals != want {
			w.Fail(Failure{What: "a lazy value differs", Input: fmt.Sprintf("constructor %d:%s, at %s", ctor, seq, ops[i]), Expected: fmt.Sprintf("%s, evaluations %q", exp, want), Got: fmt.Sprintf("%s, evaluations %q", got, evals)})
			return false
		}
	}
	w.cur.States++
	return true
}

func p22text(w *W) {
	n := w.Pick(4, 5)
	pieces := []string{"a", " ", "m", "[", "1;2", "é", "\n"}
	colours := []struct {
		name string
		f    func(string) string
		code string
	}{
		{"Black", j.Black, "30"}, {"Red", j.Red, "31"}, {"Green", j.Green, "32"}, {"Yellow", j.Yellow, "33"}, {"Blue", j.Blue, "34"}, {"Magenta", j.Magenta, "35"}, {"Cyan", j.Cyan, "36"}, {"White", j.White, "37"},
		{"BoldBlack", j.BoldBlack, "1;30"}, {"BoldRed", j.BoldRed, "1;31"}, {"BoldGreen", j.BoldGreen, "1;32"}, {"BoldYellow", j.BoldYellow, "1;33"}, {"BoldBlue", j.BoldBlue, "1;34"}, {"BoldMagenta", j.BoldMagenta, "1;35"}, {"BoldCyan", j.BoldCyan, "1;36"}, {"BoldWhite", j.BoldWhite, "1;37"}, {"Bold", j.Bold, "1"},
	}
	texts := strs(pieces, n)
	w.Suite("strip", fmt.Sprintf("StripAnsi of all texts of up to %d of %d pieces, plain, wrapped in each of %d colours, within nested and adjacent colours", n, len(pieces), len(colours)))
	for _, t := range texts {
		if !w.Unit() {
			continue
		}
		w.About(fmt.Sprintf("%q", t))
		if !w.eq("a plain text is changed", fmt.Sprintf("StripAnsi(%q)", t), t, func() string { return h.StripAnsi(t) }) {
			continue
		}
		for i, c := range colours {
			ok := w.eq("wrong colour", fmt.Sprintf("%s(%q)", c.name, t), "\x1b["+c.code+"m"+t+"\x1b[0m", func() string { return c.f(t) }) &&
				w.eq("colour codes not removed exactly", fmt.Sprintf("StripAnsi(%s(%q))", c.name, t), t, func() string { return h.StripAnsi(c.f(t)) })
			d := colours[(i*5+3)%len(colours)]
			k := len(t) / 2
			ok = ok && w.eq("colour codes not removed exactly", fmt.Sprintf("StripAnsi(%s(%q+%s(%q))+%q)", c.name, t[:k], d.name, t[k:], t), t+t, func() string { return h.StripAnsi(c.f(t[:k]+d.f(t[k:])) + t) })
			if !ok {
				break
			}
		}
		w.Outcome("agreed")
	}
	params := []string{"", "0", "1", "31", "97", "38", "255"}
	np := w.Pick(5, 6)
	w.Suite("codes", fmt.Sprintf("StripAnsi of a text having a colour code of 0..%d parameters, each one of %d, at its start, end, or between two pieces, and of two adjacent codes", np, len(params)))
	tuplesUpTo(len(params), np, func(ix []int) {
		if !w.Unit() {
			return
		}
		var ps []string
		for _, i := range ix {
			ps = append(ps, params[i])
		}
		code := "\x1b[" + strings.Join(ps, ";") + "m"
		if len(ps) > 0 && ps[0] == "" && len(ps) > 1 { // ESC[;1m has no first number: not a form that StripAnsi knows
			w.Outcome("leading empty parameter, not here")
			return
		}
		for _, t := range [][2]string{{"", ""}, {"a", ""}, {"", "b"}, {"a[1;2m", ";3mé"}, {"\n", "m"}} {
			w.eq("a colour code is not removed exactly", fmt.Sprintf("StripAnsi(%q)", t[0]+code+t[1]), t[0]+t[1], func() string { return h.StripAnsi(t[0] + code + t[1]) })
			w.eq("a colour code is not removed exactly", fmt.Sprintf("StripAnsi(%q)", t[0]+code+j.Red(t[1])+code), t[0]+t[1], func() string { return h.StripAnsi(t[0] + code + j.Red(t[1]) + code) })
		}
		w.Outcome("agreed")
	})
	esc := []string{"a", "\n", "\r", "\t", `\`, "\a", "\f", "\b", "\v", "é", "n", "'"}
	name := map[string]string{"\n": `\n`, "\r": `\r`, "\t": `\t`, `\`: `\\`, "\a": `\a`, "\f": `\f`, "\b": `\b`, "\v": `\v`}
	w.Suite("escape", fmt.Sprintf("Escape of all strings of up to %d of %d characters; padding to every width", n, len(esc)))
	tuplesUpTo(len(esc), n, func(ix []int) {
		if !w.Unit() {
			return
		}
		s, want := "", ""
		for _, i := range ix {
			s += esc[i]
			if x, ok := name[esc[i]]; ok {
				want += x
			} else {
				want += esc[i]
			}
		}
		w.eq("wrong escapes", fmt.Sprintf("Escape(%q)", s), want, func() string { return h.Escape(s) })
		for k := -1; k <= len(s)+2; k++ {
			pad := strings.Repeat(" ", max(0, k-len(s)))
			w.eq("wrong padding", fmt.Sprintf("PadLeft(%q, %d)", s, k), s+pad, func() string { return h.PadLeft(s, k) })
			w.eq("wrong padding", fmt.Sprintf("PadRight(%q, %d)", s, k), pad+s, func() string { return h.PadRight(s, k) })
		}
		w.Outcome("agreed")
	})
}

// p22big: long texts, and long lists.
func p22big(w *W) {
	top := w.Pick(17, 18)
	w.Suite("big", fmt.Sprintf("lists, texts, paddings of 2^k-1, 2^k, 2^k+1 elements, k up to %d: searched and inserted around the start, middle and end; sliced at 11 places; the last n runes; stripped of many or long coloured parts; escaped", top))
	for _, n := range around(3, top, 1) {
		if w.Unit() { // lists
			w.About(fmt.Sprint("length ", n))
			a := make([]int, n)
			for i := range a {
				a[i] = i / 3 * 2
			}
			for _, at := range []int{0, 1, 2, n / 2, n/2 + 1, n - 3, n - 2, n - 1} {
				if at < 0 {
					continue
				}
				for d := -1; d <= 1; d++ {
					x := a[at] + d
					l, r := 0, 0
					for _, y := range a {
						if y < x {
							l++
						}
						if y <= x {
							r++
						}
					}
					if !w.eq("wrong index", fmt.Sprintf("BisectLeft of %d numbers, %d", n, x), fmt.Sprint(l, r), func() string { return fmt.Sprint(h.BisectLeft(a, x), h.BisectRight(a, x)) }) {
						return
					}
					want := append(append(append([]int{}, a[:r]...), x), a[r:]...)
					b := append([]int{}, a...)
					b = h.InsortRight(b, x)
					if !w.eq("wrong insertion", fmt.Sprintf("InsortRight of %d numbers, %d", n, x), "true", func() string { return fmt.Sprint(fmt.Sprint(b) == fmt.Sprint(want)) }) {
						return
					}
				}
			}
			w.Outcome("agreed")
		}
		if w.Unit() { // texts
			w.About(fmt.Sprint("texts of ", n))
			for _, t := range []string{rep("a", n), rep("é", n/2) + "b", rep("ab\n", n/3), rep("\t", n), "x" + rep("世", n/3)} {
				id := fmt.Sprintf("%d x %q", n, t[:4])
				L := len(t)
				for _, a := range []int{0, 1, -1, L / 2, -L / 2, L - 1, L, L + 1, -L, -L - 1, 1 - L} {
					for _, b := range []int{0, 1, -1, L / 2, L - 1, L, -L, L + 5} {
						rel := func(i int) int {
							if i < 0 {
								return max(0, L+i)
							}
							return min(i, L)
						}
						want := ""
						if f, t2 := rel(a), rel(b); f < t2 {
							want = t[f:t2]
						}
						if !w.eq("not JavaScript's slice", fmt.Sprintf("SliceString(%s, %d, %d)", id, a, b), want, func() string { return h.SliceString(t, a, b) }) {
							return
						}
					}
				}
				rs := []rune(t)
				for _, k := range []int{0, 1, 2, len(rs) / 2, len(rs) - 1, len(rs), len(rs) + 1} {
					k := max(k, 0)
					want := string(rs[max(0, len(rs)-k):])
					if k == 0 {
						want = ""
					}
					if !w.eq("not the last runes", fmt.Sprintf("LastNRunes(%s, %d)", id, k), want, func() string { return h.LastNRunes(t, k) }) ||
						!w.eq("not the last runes", fmt.Sprintf("LastNRunesReversed(%s, %d)", id, k), string(reversed([]rune(want))), func() string { return h.LastNRunesReversed(t, k) }) {
						return
					}
				}
				if !w.eq("colour codes not removed exactly", "StripAnsi(Red("+id+"))", t+"1;2m", func() string { return h.StripAnsi(j.Red(t) + j.Bold("1;2m")) }) {
					return
				}
				if !w.eq("wrong padding", "PadLeft("+id+")", t+rep(" ", n), func() string { return h.PadLeft(t, len(t)+n) }) || !w.eq("wrong padding", "PadRight("+id+")", rep(" ", n)+"a", func() string { return h.PadRight("a", n+1) }) {
					return
				}
				if !w.eq("wrong escapes", "Escape("+id+")", strings.NewReplacer("\n", `\n`, "\t", `\t`).Replace(t), func() string { return h.Escape(t) }) {
					return
				}
			}
			if n <= 1<<13 && !w.eq("colour codes not removed exactly", fmt.Sprint(n, " coloured parts"), rep("ab", n), func() string { return h.StripAnsi(rep(j.Red("a")+j.BoldCyan("b"), n)) }) {
				return
			}
			if n <= 1<<11 && !w.eq("a colour code is not removed exactly", fmt.Sprint(n, " parameters"), "ab", func() string { return h.StripAnsi("a\x1b[1" + rep(";31", n) + "mb") }) {
				return
			}
			w.Outcome("agreed")
		}
	}
}

func tuplesUpTo(n, k int, f func(ix []int)) {
	f(nil)
	for i := 1; i <= k; i++ {
		tuples(n, i, f)
	}
}
