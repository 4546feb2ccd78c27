package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
)

func init() {
	register("P16", p16, "operation sequences, keys, values and nesting as stated per suite")
}

// nv is a native value and its specification.
type nv struct {
	name string
	mk   func() j.Ast
	kind VK
	str  string // String()
	cat  string // concatenation of the leaves
}

func nstr(s string) nv {
	return nv{fmt.Sprintf("%q", s), func() j.Ast { return j.NewNativeString(s) }, VStr, s, s}
}
func nint(n int) nv {
	return nv{strconv.Itoa(n), func() j.Ast { return j.NewNativeInt(n) }, VInt, strconv.Itoa(n), strconv.Itoa(n)}
}

var nund = nv{"U", func() j.Ast { return j.NewNativeUndefined() }, VUndef, "<NativeUndefined>", ""}

func narr(k ...nv) nv {
	var n, s, c []string
	for _, x := range k {
		n, s, c = append(n, x.name), append(s, x.str), append(c, x.cat)
	}
	return nv{"[" + strings.Join(n, " ") + "]", func() j.Ast {
		a := j.NewEmptyNativeArray()
		for _, x := range k {
			a.Append(x.mk())
		}
		return a
	}, VArr, "[" + strings.Join(s, ",") + "]", strings.Join(c, "")}
}

func nmap(keys []string, k ...nv) nv {
	m := mapModel{keys: keys, vals: map[string]nv{}}
	for i, x := range k {
		m.vals[keys[i]] = x
	}
	return nv{m.String(), func() j.Ast {
		a := j.NewEmptyNativeMap()
		for i, x := range k {
			a.Set(keys[i], x.mk())
		}
		return a
	}, VMap, m.str(), m.cat()}
}

// nmapOf is the map with those keys and texts.
func nmapOf(keys []string, vals map[string]string) nv {
	var k []nv
	for _, x := range keys {
		k = append(k, nstr(vals[x]))
	}
	return nmap(keys, k...)
}

type mapModel struct {
	keys []string
	vals map[string]nv
}

func (m *mapModel) clone() *mapModel {
	c := &mapModel{append([]string{}, m.keys...), map[string]nv{}}
	for k, v := range m.vals {
		c.vals[k] = v
	}
	return c
}
func (m *mapModel) set(k string, v nv) {
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
}
func (m *mapModel) str() string {
	var b []string
	for _, k := range m.keys {
		b = append(b, k+":"+m.vals[k].str)
	}
	return "NativeMap{" + strings.Join(b, ", ") + "}"
}
func (m *mapModel) cat() string {
	s := ""
	for _, k := range m.keys {
		s += m.vals[k].cat
	}
	return s
}
func (m *mapModel) String() string {
	var b []string
	for _, k := range m.keys {
		b = append(b, k+":"+m.vals[k].name)
	}
	return "{" + strings.Join(b, " ") + "}"
}

func same(a j.Ast, v nv) bool { return a != nil && canonStr(a) == canonStr(v.mk()) }

// toInt: what a value is as an integer.
func (v nv) toInt() (int, bool) {
	switch v.kind {
	case VInt, VStr, VArr:
		n, e := strconv.Atoi(v.cat)
		return n, e == nil
	}
	return 0, false
}

// mapDiff compares everything that can be asked of a map; "" when right.
func mapDiff(a *j.NativeMap, m *mapModel, asked []string) string {
	eq := func(what string, exp any, f func() any) string {
		got := noPanic(func() string { return fmt.Sprint(f()) })
		if got != fmt.Sprint(exp) {
			return fmt.Sprintf("%s gives %v instead of %v", what, got, exp)
		}
		return ""
	}
	d := ""
	chk := func(s string) {
		if d == "" {
			d = s
		}
	}
	chk(eq("Keys", m.keys, func() any { return a.Keys() }))
	chk(eq("IsEmpty", len(m.keys) == 0, func() any { return a.IsEmpty() }))
	chk(eq("String", m.str(), func() any { return a.String() }))
	chk(eq("Concat", m.cat(), func() any { return a.Concat() }))
	canonOr := func(x j.Ast) string {
		if x == nil {
			return "absent"
		}
		return canonStr(x)
	}
	for _, k := range asked {
		v, ok := m.vals[k]
		exp, orPanic := "absent", "panic"
		if ok {
			exp = canonStr(v.mk())
			orPanic = exp
		}
		chk(eq("Get "+k, exp, func() any { return canonOr(a.Get(k)) }))
		chk(eq("GetExists "+k, exp+fmt.Sprint(ok), func() any { x, o := a.GetExists(k); return canonOr(x) + fmt.Sprint(o) }))
		chk(eq("Exists "+k, ok, func() any { return a.Exists(k) }))
		chk(eq("GetOrPanic "+k, orPanic, func() any { return canonOr(a.GetOrPanic(k)) }))
		chk(eq("IsUndefined "+k, !ok || v.kind == VUndef, func() any { return a.IsUndefined(k) }))
		s, n := "panic", "panic"
		if !ok {
			s, n = " false", "0 false"
		} else {
			if v.kind == VStr || v.kind == VArr {
				s = v.cat + " true"
			}
			if i, good := v.toInt(); good {
				n = fmt.Sprint(i, " true")
			}
		}
		chk(eq("GetStringExists "+k, s, func() any { x, o := a.GetStringExists(k); return x + fmt.Sprint(" ", o) }))
		chk(eq("GetIntExists "+k, n, func() any { x, o := a.GetIntExists(k); return fmt.Sprint(x, " ", o) }))
		for _, k2 := range append(asked, "") {
			l := []string{k, k2}
			if k2 == "" {
				l = l[:1]
			}
			exp := "panic"
			for i := len(l) - 1; i >= 0; i-- {
				if v, ok := m.vals[l[i]]; ok {
					exp = canonStr(v.mk())
				}
			}
			chk(eq(fmt.Sprint("GetWhicheverOrPanic ", l), exp, func() any { return canonOr(a.GetWhicheverOrPanic(l)) }))
		}
	}
	return d
}

func p16(w *W) {
	leaves := []nv{nstr(""), nstr("x"), nstr("12"), nstr("-3"), nstr("0x1"), nint(0), nint(-7), nint(42), nund}
	comp := []nv{narr(), narr(nstr("4"), nint(2)), narr(nstr("a"), nund, narr(nstr("b"))), nmap([]string{"q", "p"}, nstr("1"), nint(5)), nmap(nil), narr(nmap([]string{"z", "a"}, nstr("u"), nstr("v")), nstr("w")), narr(nstr("+1"), nund)}
	vals := append(append([]nv{}, leaves...), comp...)
	if len(vals) != 16 {
		panic("values")
	}
	keys := []string{"b", "a", "c"}
	depth := w.Pick(3, 4)
	w.Suite("map", fmt.Sprintf("all sequences of <=%d Set of %d keys and %d values (<=3 values from the second Set on), from every initial map over the keys; everything asked after each", depth, len(keys), len(vals)))
	sub := []nv{vals[1], vals[10], nund}
	for mask := 0; mask < 1<<len(keys); mask++ {
		for _, iv := range []nv{nstr("i"), narr(nint(1))} {
			if mask == 0 && iv.kind == VArr {
				continue
			}
			mk := func() (*j.NativeMap, *mapModel) {
				h := map[string]j.Ast{}
				m := &mapModel{vals: map[string]nv{}}
				for i, k := range keys {
					if mask&(1<<i) != 0 {
						h[k] = iv.mk()
						m.keys = append(m.keys, k)
						m.vals[k] = iv
					}
				}
				sort.Strings(m.keys)
				if mask == 0 && w.cur.Units%2 == 0 {
					return j.NewEmptyNativeMap(), m
				}
				return j.NewNativeMap(h), m
			}
			var rec func(hist []func(*j.NativeMap, *mapModel), names []string) bool
			rec = func(hist []func(*j.NativeMap, *mapModel), names []string) bool {
				a, m := mk()
				name := m.String() + " " + strings.Join(names, " ")
				w.Case(name)
				for _, h := range hist {
					h(a, m)
					if d := mapDiff(a, m, append(keys, "d")); d != "" {
						w.Fail(Failure{What: "a map is wrong after some operations: " + d, Input: name, Expected: m.String(), Got: d})
						return false
					}
				}
				if len(hist) == 0 {
					if d := mapDiff(a, m, append(keys, "d")); d != "" {
						w.Fail(Failure{What: "a new map is wrong: " + d, Input: name, Expected: m.String(), Got: d})
						return false
					}
				}
				w.cur.States++
				w.cur.Transitions += len(hist)
				w.Outcome("agree")
				if len(hist) == depth {
					w.Sample(name + " => " + a.String())
					return true
				}
				vs := sub
				if len(hist) == 0 {
					vs = vals
				}
				for _, k := range keys {
					for _, v := range vs {
						k, v := k, v
						if !rec(append(hist[:len(hist):len(hist)], func(a *j.NativeMap, m *mapModel) { a.Set(k, v.mk()); m.set(k, v) }), append(names[:len(names):len(names)], fmt.Sprintf("Set(%s,%s)", k, v.name))) {
							return false
						}
					}
				}
				return true
			}
			if w.Unit() {
				rec(nil, nil)
			}
		}
	}

	w.Suite("many-keys", fmt.Sprintf("maps of 1..%d keys, set in increasing, decreasing and scattered order, or given at creation, all texts or of all kinds, then overwritten at each place by the same kinds", w.Pick(40, 100)))
	kind := func(i, f int) nv {
		if f < 4 {
			return nint(i)
		}
		return []nv{nund, nstr(""), nint(i), comp[1], nstr("é"), comp[2], nint(0)}[(i*3+f)%7]
	}
	for n := 1; n <= w.Pick(40, 100); n++ {
		for f := 0; f < 8; f++ {
			if !w.Unit() {
				continue
			}
			m := &mapModel{vals: map[string]nv{}}
			h := map[string]j.Ast{}
			a := j.NewEmptyNativeMap()
			var ks []string
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", []int{i, n - i, i * 37 % 101, i}[f%4])
				ks = append(ks, k)
			}
			first := func(i int) nv {
				if f < 4 {
					return nstr(ks[i])
				}
				return kind(i*5+1, f)
			}
			if f%4 == 3 {
				for i, k := range ks {
					h[k] = first(i).mk()
					m.vals[k] = first(i)
				}
				m.keys = sortedKeys(h)
				a = j.NewNativeMap(h)
			} else {
				for i, k := range ks {
					a.Set(k, first(i).mk())
					m.set(k, first(i))
				}
			}
			w.Case(fmt.Sprint(n, f))
			bad := false
			for i := -1; i < n && !bad; i++ {
				if i >= 0 {
					a.Set(ks[i], kind(i, f).mk())
					m.set(ks[i], kind(i, f))
				}
				w.cur.States++
				if d := mapDiff(a, m, []string{ks[max(i, 0)], "zz"}); d != "" {
					w.Fail(Failure{What: "a map is wrong: " + d, Input: fmt.Sprint(ks, " overwritten up to ", i), Expected: m.String(), Got: d})
					bad = true
				}
			}
			w.Outcome("agree")
		}
	}

	odd := append(append([]string{""}, everyChar()...), shortTexts()...)
	w.Suite("odd-keys", fmt.Sprintf("each of %d characters, short texts and the empty text as key, first, between, after two others, or given at creation, with every kind of value, then overwritten: everything asked each time", len(odd)))
	for _, k := range odd {
		if !w.Unit() {
			continue
		}
		w.Case(fmt.Sprintf("key %q", k))
		for at := 0; at < 4; at++ {
			for vi, v := range vals {
				m := &mapModel{vals: map[string]nv{}}
				a := j.NewEmptyNativeMap()
				set := func(k string, v nv) bool {
					a.Set(k, v.mk())
					m.set(k, v)
					w.cur.States++
					if d := mapDiff(a, m, []string{k, k + "a", "zz", ""}); d != "" {
						w.Fail(Failure{What: "a map is wrong: " + d, Input: fmt.Sprintf("key %q in place %d, value %s", k, at, v.str), Expected: m.String(), Got: d})
						return false
					}
					return true
				}
				ks := append(append(append([]string{}, []string{"ka", "kb"}[:min(at, 2)]...), k), []string{"ka", "kb"}[min(at, 2):]...)
				if at == 3 {
					m.vals[k] = v
					m.keys = []string{k}
					a = j.NewNativeMap(map[string]j.Ast{k: v.mk()})
				}
				ok := true
				for i, x := range ks {
					if x == k {
						ok = ok && set(k, v)
					} else {
						ok = ok && set(x, vals[(vi+i*3+1)%len(vals)])
					}
				}
				if !ok || !set(k, vals[(vi*5+at+2)%len(vals)]) {
					return
				}
			}
		}
		w.Outcome("agree")
	}

	top := w.Pick(14, 17)
	w.Suite("big", fmt.Sprintf("maps and arrays of n entries, texts of n characters, and values nested n deep, n around powers of two up to 2^%d: order, length, every entry, String and Concat, before and after changing the first, middle and last entry", top))
	for _, n := range append(around(3, top, 1), 100, 1000) {
		for f := 0; f < 6; f++ {
			if !w.Unit() {
				continue
			}
			w.Case(fmt.Sprint("big ", n, f))
			w.cur.States++
			fail := func(what, exp, got string) {
				w.Fail(Failure{What: what, Input: fmt.Sprintf("size %d, case %d", n, f), Expected: short(exp), Got: short(got)})
			}
			switch f {
			case 0, 1: // maps
				m := j.NewEmptyNativeMap()
				var ks []string
				vals := map[string]string{}
				for i := 0; i < n; i++ {
					k := fmt.Sprintf("k%d", []int{i, (i*7919 + 3) % 100003}[f])
					ks = append(ks, k)
					vals[k] = fmt.Sprint("v", i)
					m.Set(k, j.NewNativeString(vals[k]))
				}
				for _, i := range []int{-1, 0, n / 2, n - 1} {
					if i >= 0 {
						vals[ks[i]] = "w"
						m.Set(ks[i], j.NewNativeString("w"))
					}
					want := nmapOf(ks, vals)
					for _, k := range ks {
						if v, ok := m.GetExists(k); !ok || v.String() != vals[k] {
							fail("a map has lost "+k, vals[k], fmt.Sprint(v))
							return
						}
					}
					if got := fmt.Sprint(m.Keys()); got != fmt.Sprint(ks) {
						fail("the keys are not in order of insertion", fmt.Sprint(ks), got)
						return
					}
					if got := m.String(); got != want.str {
						fail("String of a map", want.str, got)
						return
					}
					if got := string(m.Concat()); got != want.cat {
						fail("Concat of a map", want.cat, got)
						return
					}
				}
			case 2, 3: // arrays
				var items []j.Ast
				var mod []nv
				a := j.NewEmptyNativeArray()
				for i := 0; i < n; i++ {
					x := []nv{nstr(fmt.Sprint("é", i)), nint(i), nund}[i%3]
					if f == 3 {
						x = nstr(fmt.Sprint(i, ";"))
					}
					mod = append(mod, x)
					items = append(items, x.mk())
					a.Append(x.mk())
				}
				for v, a := range []*j.NativeArray{a, j.NewNativeArray(items)} {
					e := narr(mod...)
					if a.Length() != n || a.String() != e.str {
						fail(fmt.Sprint("String or Length of an array ", v), e.str, fmt.Sprint(a.Length(), a.String()))
						return
					}
					for i := range mod {
						if canonStr(a.Get(i)) != canonStr(mod[i].mk()) {
							fail(fmt.Sprint("Get(", i, ") of an array ", v), canonStr(mod[i].mk()), canonStr(a.Get(i)))
							return
						}
					}
					if c := noPanic(func() string { return string(a.Concat()) }); c != e.cat {
						fail(fmt.Sprint("Concat of an array ", v), e.cat, c)
						return
					}
				}
			case 4: // texts
				t := rep("aé\x00\n", n)[:n]
				s := j.NewNativeString(t)
				if s.String() != t {
					fail("a text is changed", t, s.String())
					return
				}
			case 5: // nested
				x := nstr("x")
				depth := min(n, 300)
				for i := 0; i < depth; i++ {
					if i%2 == 0 {
						x = narr(nstr("a"), x)
					} else {
						x = nmap([]string{"k", "l"}, x, nint(i))
					}
				}
				a := x.mk()
				if a.String() != x.str {
					fail("String of nested values", x.str, a.String())
					return
				}
			}
			w.Outcome("agree")
		}
	}

	// arrays
	w.Suite("array", "all sequences of <=4 Append over 9 values, from an empty array or one made of a slice; every index")
	av := []nv{nstr("a"), nstr(""), nint(3), nund, comp[1], comp[2], comp[3], comp[5], narr(narr(), narr(nund))}
	tuples(len(av), 3, func(ix []int) {
		if !w.Unit() {
			return
		}
		for given := 0; given <= 3; given++ {
			for last := -1; last < len(av); last++ {
				var items []nv
				for _, i := range ix {
					items = append(items, av[i])
				}
				if last >= 0 {
					items = append(items, av[last])
				}
				var first []j.Ast
				for _, x := range items[:given] {
					first = append(first, x.mk())
				}
				a := j.NewEmptyNativeArray()
				if given > 0 {
					a = j.NewNativeArray(first)
				}
				name := fmt.Sprint("array of ", narr(items...).name, ", ", given, " at creation")
				w.Case(name)
				for k := given; k <= len(items); k++ {
					if k > given {
						a.Append(items[k-1].mk())
					}
					w.cur.Transitions++
					exp := narr(items[:k]...)
					d := ""
					if a.Length() != k || len(a.Array()) != k {
						d = fmt.Sprintf("length %d instead of %d", a.Length(), k)
					} else if a.String() != exp.str {
						d = fmt.Sprintf("String %q instead of %q", a.String(), exp.str)
					} else if c := noPanic(func() string { return string(a.Concat()) }); c != exp.cat {
						d = fmt.Sprintf("Concat %q instead of %q", c, exp.cat)
					}
					for i := -1; i <= k && d == ""; i++ {
						e := "panic"
						if i >= 0 && i < k {
							e = canonStr(items[i].mk())
							if canonStr(a.Array()[i]) != e {
								d = fmt.Sprintf("Array()[%d] is not %s", i, e)
							}
						}
						if g := noPanic(func() string { return canonStr(a.Get(i)) }); g != e {
							d = fmt.Sprintf("Get(%d) gives %s instead of %s", i, g, e)
						}
					}
					if d != "" {
						w.Fail(Failure{What: "an array is wrong: " + d, Input: name, Expected: exp.name, Got: d})
						return
					}
				}
				w.cur.States++
			}
		}
		w.Outcome("agree")
	})

	// nested values
	w.Suite("nested", "Concat and String of all trees: arrays and maps of <=2 of (arrays and maps of <=2 of 5 leaves)")
	lv := []nv{nstr("a"), nstr(""), nint(3), nund, nstr("é")}
	grow := func(in []nv) []nv {
		out := []nv{narr(), nmap(nil)}
		for _, x := range in {
			out = append(out, narr(x), nmap([]string{"m"}, x))
			for _, y := range in {
				out = append(out, narr(x, y), nmap([]string{"n", "a"}, x, y))
			}
		}
		return out
	}
	l1 := append(lv[:len(lv):len(lv)], grow(lv)...)
	for _, x := range grow(l1) {
		if !w.Unit() {
			continue
		}
		w.Case(x.name)
		w.cur.States++
		a := x.mk()
		cat := noPanic(func() string {
			switch v := a.(type) {
			case *j.NativeMap:
				return string(v.Concat())
			case *j.NativeArray:
				return string(v.Concat())
			}
			return "?"
		})
		if cat != x.cat {
			w.Fail(Failure{What: "Concat is not the concatenation of the leaves", Input: x.name, Expected: x.cat, Got: cat})
		} else if a.String() != x.str {
			w.Fail(Failure{What: "wrong String", Input: x.name, Expected: x.str, Got: a.String()})
		}
		w.Outcome("agree")
	}

	// conversions
	cs := []string{"0", "1", "9", "-", "+", "a", " ", "_", "x", ".", "٣"}
	nn := w.Pick(4, 5)
	w.Suite("conversions", fmt.Sprintf("all strings of <=%d of %d characters, integers around 0 and the extremes, every kind of value", nn, len(cs)))
	conv := func(v nv) {
		w.Case(v.name)
		w.cur.States++
		n, ok := v.toInt()
		exp := "panic"
		if ok {
			exp = strconv.Itoa(n)
		}
		try := func(what, exp string, f func() string) {
			if g := noPanic(f); g != exp {
				w.Fail(Failure{What: "wrong conversion: " + what, Input: v.name, Expected: exp, Got: g})
			}
		}
		try("NewNativeIntFrom", exp, func() string { return strconv.Itoa(j.NewNativeIntFrom(v.mk()).Int()) })
		try("NativeIntFrom", exp, func() string { return strconv.Itoa(j.NativeIntFrom(v.mk()).(j.NativeInt).Int()) })
		if v.kind == VStr {
			try("NewNativeIntFromString", exp, func() string { return strconv.Itoa(j.NewNativeIntFromString(v.str).Int()) })
		}
		if ok {
			try("Bool", fmt.Sprint(n != 0), func() string { return fmt.Sprint(j.NewNativeInt(n).Bool()) })
			try("String", strconv.Itoa(n), func() string { return j.NewNativeInt(n).String() })
			try("round trip", strconv.Itoa(n), func() string {
				return strconv.Itoa(j.NewNativeIntFrom(j.NewNativeStringFrom(j.NewNativeInt(n))).Int())
			})
		}
		s := "panic"
		if v.kind == VStr || v.kind == VInt || v.kind == VArr {
			s = v.cat
		}
		try("NewNativeStringFrom", s, func() string { return string(j.NewNativeStringFrom(v.mk())) })
		try("NativeStringFrom", s, func() string { return j.NativeStringFrom(v.mk()).String() })
		try("IsUndefined", fmt.Sprint(v.kind == VUndef), func() string { return fmt.Sprint(j.IsUndefined(v.mk())) })
		w.Outcome(map[bool]string{true: "an integer", false: "not an integer"}[ok])
	}
	for k := 0; k <= nn; k++ {
		tuples(len(cs), k, func(ix []int) {
			if ix == nil || k < 2 || ix[k-1] == 0 {
				// one unit per prefix
				if k >= 2 {
					if !w.Unit() {
						return
					}
					for l := range cs {
						convTuple(cs, append(ix[:k-1:k-1], l), conv)
					}
					return
				}
				if w.Unit() {
					convTuple(cs, ix, conv)
				}
			}
		})
	}
	if w.Unit() {
		for _, v := range append(vals, av...) {
			conv(v)
		}
		for _, x := range l1 {
			conv(x)
		}
		for n := -300; n <= 300; n++ {
			conv(nint(n))
			conv(nstr(strconv.Itoa(n)))
		}
		for _, n := range []int{math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1} {
			conv(nint(n))
			conv(nstr(strconv.Itoa(n)))
			conv(nstr(strconv.Itoa(n) + "0"))
			conv(narr(nstr(strconv.Itoa(n/10)), nint(7)))
		}
		w.Case("bool")
		if j.NewNativeIntFromBool(true).Int() != 1 || j.NewNativeIntFromBool(false).Int() != 0 || !j.IsUndefined(nil) {
			w.Fail(Failure{What: "NewNativeIntFromBool or IsUndefined(nil)", Expected: "1, 0, true"})
		}
	}
}

func convTuple(cs []string, ix []int, conv func(nv)) {
	s := ""
	var k []nv
	for _, i := range ix {
		s += cs[i]
		k = append(k, nstr(cs[i]))
	}
	conv(nstr(s))
	conv(narr(k...))
	if len(k) > 1 {
		conv(narr(k[0], narr(k[1:]...), nund))
	}
}
