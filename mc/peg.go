package main

// Reference model of joeson grammars: an expression AST (built by the
// enumerators, never parsed from text), its rendering to joeson rule text, and
// a deliberately boring interpreter.  The interpreter has no memo table: it
// re-evaluates everything, and it handles left recursion by growing a seed per
// (rule, position).  It is the specification every parse is compared with.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

type Op int

const (
	OStr    Op = iota // 'x'
	OClass            // [x]
	ORegex            // /x/
	ORef              // Name
	OSeq              // a b
	OChoice           // a | b
	OOpt              // a?
	OPat              // a*  a+  a{m,n}  a*b  a+b  a*b{m,n}
	OLook             // (?a)
	ONot              // !a
)

type E struct {
	Op    Op
	S     string // literal / class body / regex body / ref name
	K     []*E   // kids; for OPat: [value] or [value, join]
	Min   int    // OPat, -1 = unspecified
	Max   int
	Plus  bool // OPat written with '+'
	Brace bool // OPat written value{m,n} without '*'
	Label string
	re    *regexp.Regexp
}

func Str(s string) *E       { return &E{Op: OStr, S: s} }
func Cls(s string) *E       { return &E{Op: OClass, S: s} }
func Rgx(s string) *E       { return &E{Op: ORegex, S: s} }
func Ref(s string) *E       { return &E{Op: ORef, S: s} }
func Seq(k ...*E) *E        { return &E{Op: OSeq, K: k} }
func Alt(k ...*E) *E        { return &E{Op: OChoice, K: k} }
func Opt(k *E) *E           { return &E{Op: OOpt, K: []*E{k}} }
func Star(k *E) *E          { return &E{Op: OPat, K: []*E{k}, Min: -1, Max: -1} }
func Plus(k *E) *E          { return &E{Op: OPat, K: []*E{k}, Min: 1, Max: -1, Plus: true} }
func Rep(k *E, m, n int) *E { return &E{Op: OPat, K: []*E{k}, Min: m, Max: n, Brace: true} }
func StarJ(k, jn *E) *E     { return &E{Op: OPat, K: []*E{k, jn}, Min: -1, Max: -1} }
func PlusJ(k, jn *E) *E     { return &E{Op: OPat, K: []*E{k, jn}, Min: 1, Max: -1, Plus: true} }
func RepJ(k, jn *E, m, n int) *E {
	return &E{Op: OPat, K: []*E{k, jn}, Min: m, Max: n}
}
func Look(k *E) *E          { return &E{Op: OLook, K: []*E{k}} }
func Not(k *E) *E           { return &E{Op: ONot, K: []*E{k}} }
func Lab(l string, k *E) *E { c := *k; c.Label = l; return &c }

// ---- rendering -------------------------------------------------------------

func escStr(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	return strings.ReplaceAll(s, `'`, `\'`)
}

func (e *E) primary() bool {
	switch e.Op {
	case OStr, OClass, ORegex, ORef:
		return true
	}
	return false
}

// Text renders e as joeson rule text; composite operands are always
// parenthesised, so the rendering relies on no precedence rule.
func (e *E) Text() string {
	return e.text(false)
}

func (e *E) paren() string {
	if e.primary() && e.Label == "" {
		return e.text(false)
	}
	return "(" + e.text(false) + ")"
}

func (e *E) text(inSeq bool) string {
	s := ""
	switch e.Op {
	case OStr:
		s = "'" + escStr(e.S) + "'"
	case OClass:
		s = "[" + e.S + "]"
	case ORegex:
		s = "/" + e.S + "/"
	case ORef:
		s = e.S
	case OSeq:
		p := []string{}
		for _, k := range e.K {
			p = append(p, k.text(true))
		}
		s = strings.Join(p, " ")
		if inSeq || e.Label != "" {
			s = "(" + s + ")"
		}
	case OChoice:
		p := []string{}
		for _, k := range e.K {
			if k.Op == OChoice && k.Label == "" {
				p = append(p, "("+k.text(false)+")")
			} else {
				p = append(p, k.text(false))
			}
		}
		s = strings.Join(p, " | ")
		if inSeq || e.Label != "" {
			s = "(" + s + ")"
		}
	case OOpt:
		s = e.K[0].paren() + "?"
	case OPat:
		s = e.K[0].paren()
		br := ""
		if !e.Plus && (e.Min >= 0 || e.Max >= 0) {
			br = "{"
			if e.Min >= 0 {
				br += strconv.Itoa(e.Min)
			}
			br += ","
			if e.Max >= 0 {
				br += strconv.Itoa(e.Max)
			}
			br += "}"
		}
		jn := ""
		if len(e.K) > 1 {
			jn = e.K[1].paren()
		}
		switch {
		case e.Plus:
			s += "+" + jn
		case e.Brace:
			s += br
		default:
			s += "*" + jn + br
		}
	case OLook:
		s = "(?" + e.K[0].text(false) + ")"
	case ONot:
		s = "!" + e.K[0].paren()
	}
	if e.Label != "" {
		s = e.Label + ":" + s
	}
	return s
}

// ---- values ----------------------------------------------------------------

type VK int

const (
	VStr VK = iota
	VArr
	VMap
	VUndef
	VNode // made by a parse callback
	VInt
	VErr // an error node returned by a callback
)

type Val struct {
	K     VK
	S     string
	A     []*Val
	Keys  []string
	Start int
	End   int
}

func vs(s string) *Val { return &Val{K: VStr, S: s} }

var vundef = &Val{K: VUndef}

func (v *Val) String() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v *Val) write(b *strings.Builder) {
	if v == nil {
		b.WriteString("nil")
		return
	}
	switch v.K {
	case VStr:
		b.WriteString(strconv.Quote(v.S))
	case VInt:
		b.WriteString("#" + v.S)
	case VUndef:
		b.WriteString("U")
	case VErr:
		b.WriteString("!" + v.S)
	case VArr:
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(' ')
			}
			x.write(b)
		}
		b.WriteByte(']')
	case VMap:
		b.WriteByte('{')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Keys[i] + ":")
			x.write(b)
		}
		b.WriteByte('}')
	case VNode:
		fmt.Fprintf(b, "<%s ", v.S)
		v.A[0].write(b)
		b.WriteByte('>')
	}
}

func (m *Val) set(k string, v *Val) *Val {
	n := &Val{K: VMap, Keys: append([]string{}, m.Keys...), A: append([]*Val{}, m.A...)}
	for i := range n.Keys {
		if n.Keys[i] == k {
			n.A[i] = v
			return n
		}
	}
	n.Keys = append(n.Keys, k)
	n.A = append(n.A, v)
	return n
}

// ---- grammars --------------------------------------------------------------

// Rule is one named rule. A rule has either a body, or alternatives (a rank).
type Rule struct {
	Name string
	Body *E
	Node bool // has a callback wrapping its production into a fresh node
	Rank []*Rule
	// Pre: the body is given as an already compiled parser
	Pre bool
	// Nest: what each line nested in the rule's line is given, innermost first
	// (the line is then O(O(body, Nest[0]...), ...)); only without Rank
	Nest [][]any
	// Cb, when set, replaces the default wrapping callback in the model: it
	// returns nil to make the rule fail.
	Cb func(v *Val, start, end int) *Val
}

type G struct {
	Rules []*Rule // Rules[0] is the entry
	byN   map[string]*Rule
}

func NewG(rules ...*Rule) *G {
	g := &G{Rules: rules, byN: map[string]*Rule{}}
	var add func(r *Rule)
	add = func(r *Rule) {
		if r.Name != "" {
			g.byN[r.Name] = r
		}
		for _, k := range r.Rank {
			add(k)
		}
	}
	for _, r := range rules {
		add(r)
	}
	return g
}

func (g *G) Text() string {
	var b strings.Builder
	var w func(r *Rule)
	w = func(r *Rule) {
		b.WriteString(r.Name)
		if r.Node {
			b.WriteString("^")
		}
		if r.Pre {
			b.WriteString("(compiled)")
		}
		b.WriteString(" = ")
		if r.Rank != nil {
			b.WriteString("rank{")
			for i, k := range r.Rank {
				if i > 0 {
					b.WriteString("; ")
				}
				w(k)
			}
			b.WriteString("}")
		} else {
			b.WriteString(r.Body.Text())
		}
	}
	for i, r := range g.Rules {
		if i > 0 {
			b.WriteString(" ;; ")
		}
		w(r)
	}
	return b.String()
}

// ---- interpreter -----------------------------------------------------------

type seed struct {
	ok   bool
	val  *Val
	end  int
	used bool
}

type seedKey struct {
	r   *Rule
	pos int
}

type Interp struct {
	g     *G
	in    string
	seeds map[seedKey]*seed
	// cost accounting: distinct (expression, position) configurations and
	// evaluation steps of the model
	visited map[cfgKey]struct{}
	Steps   int
	Limit   int // 0 = none
	Over    bool
	LRUsed  bool
	// MaxSucc is the furthest start position of a rule that succeeded
	MaxSucc int
	// Calls records the evaluations of rule bodies that matched, in order
	// (only when OnMatch is set)
	OnMatch func(r *Rule, v *Val, start, end int)
	// MaxTry is the furthest position at which a rule was tried
	MaxTry int
	// OnRule, when set, stands for rule: it may call rule0
	OnRule func(r *Rule, pos int) res
}

type cfgKey struct {
	e   interface{}
	pos int
}

func NewInterp(g *G, in string) *Interp {
	return &Interp{g: g, in: in, seeds: map[seedKey]*seed{}}
}

type res struct {
	ok  bool
	val *Val
	end int
}

var fail = res{}

func (m *Interp) note(e interface{}, pos int) {
	m.Steps++
	if m.visited != nil {
		m.visited[cfgKey{e, pos}] = struct{}{}
	}
	if m.Limit > 0 && m.Steps > m.Limit {
		m.Over = true
	}
}

// Parse: entry rule against the whole input.
func (m *Interp) Parse() (ok bool, val *Val, end int) {
	r := m.rule(m.g.Rules[0], 0)
	if !r.ok {
		return false, nil, 0
	}
	return r.end == len(m.in), r.val, r.end
}

func (m *Interp) rule(r *Rule, pos int) res {
	if m.OnRule != nil {
		return m.OnRule(r, pos)
	}
	return m.rule0(r, pos)
}

func (m *Interp) rule0(r *Rule, pos int) res {
	if m.Over {
		return fail
	}
	if pos > m.MaxTry {
		m.MaxTry = pos
	}
	k := seedKey{r, pos}
	if s := m.seeds[k]; s != nil {
		s.used = true
		m.LRUsed = true
		return res{s.ok, s.val, s.end}
	}
	s := &seed{}
	m.seeds[k] = s
	defer delete(m.seeds, k)
	m.note(r, pos)
	x := m.ruleBody(r, pos)
	if x.ok && pos > m.MaxSucc {
		m.MaxSucc = pos
	}
	if !s.used || !x.ok {
		return x
	}
	for !m.Over {
		s.ok, s.val, s.end = true, x.val, x.end
		y := m.ruleBody(r, pos)
		if !y.ok || y.end <= x.end {
			break
		}
		x = y
	}
	return x
}

func (m *Interp) ruleBody(r *Rule, pos int) res {
	var x res
	if r.Rank != nil {
		x = fail
		for _, k := range r.Rank {
			if y := m.rule(k, pos); y.ok {
				x = y
				break
			}
		}
	} else {
		x = m.alone(r.Body, pos)
	}
	if x.ok && m.OnMatch != nil && (r.Cb != nil || r.Node) {
		m.OnMatch(r, x.val, pos, x.end)
	}
	if x.ok && r.Cb != nil {
		v := r.Cb(x.val, pos, x.end)
		if v == nil {
			return fail
		}
		x.val = v
	} else if x.ok && r.Node {
		x.val = &Val{K: VNode, S: r.Name, A: []*Val{x.val}, Start: pos, End: x.end}
	}
	return x
}

// captures: does the element contribute to the production of an unlabelled
// sequence. See the README's rules of thumb: literals and _names do not.
func (e *E) capt() bool {
	switch e.Op {
	case OStr, OLook, ONot:
		return false
	case ORef:
		return !strings.HasPrefix(e.S, "_")
	case OChoice:
		for _, k := range e.K {
			if !k.capt() {
				return false
			}
		}
		return true
	case OOpt:
		return e.K[0].ncapt() > 0
	case OPat:
		return e.K[0].capt0()
	}
	return true
}

// capt0 is capt as a repetition sees its operand: a parenthesised group
// operand always counts as a value.
func (e *E) capt0() bool {
	switch e.Op {
	case OChoice, OOpt, OSeq:
		return true
	}
	return e.capt()
}

// ncapt counts the values an element contributes to deciding whether a
// sequence is an array: grouping does not hide the captures inside.
func (e *E) ncapt() int {
	switch e.Op {
	case OSeq:
		n := 0
		for _, k := range e.K {
			n += k.ncapt()
		}
		return n
	case OOpt:
		return e.K[0].ncapt()
	}
	if e.capt() {
		return 1
	}
	return 0
}

// labels an element contributes to the enclosing sequence
func (e *E) labels() []string {
	if e.Label != "" {
		return []string{e.Label}
	}
	switch e.Op {
	case OSeq:
		a := []string{}
		for _, k := range e.K {
			a = append(a, k.labels()...)
		}
		return a
	case OOpt:
		return e.K[0].labels()
	}
	return nil
}

// alone evaluates an element that is not an element of a sequence: its label,
// if it has one, makes it a map.
func (m *Interp) alone(e *E, pos int) res {
	x := m.eval(e, pos)
	if x.ok && e.Label != "" {
		x.val = (&Val{K: VMap}).set(e.Label, x.val)
	}
	return x
}

func (m *Interp) eval(e *E, pos int) res {
	m.note(e, pos)
	if m.Over {
		return fail
	}
	switch e.Op {
	case OStr:
		if strings.HasPrefix(m.in[pos:], e.S) {
			return res{true, vs(e.S), pos + len(e.S)}
		}
		return fail
	case OClass, ORegex:
		if loc := e.regexp().FindStringIndex(m.in[pos:]); loc != nil {
			return res{true, vs(m.in[pos : pos+loc[1]]), pos + loc[1]}
		}
		return fail
	case ORef:
		r := m.g.byN[e.S]
		if r == nil {
			panic("model: undefined rule " + e.S)
		}
		return m.rule(r, pos)
	case OChoice:
		for _, k := range e.K {
			if x := m.alone(k, pos); x.ok {
				return x
			}
		}
		return fail
	case OOpt:
		if x := m.alone(e.K[0], pos); x.ok {
			return x
		}
		return res{true, vundef, pos}
	case OLook:
		if x := m.alone(e.K[0], pos); x.ok {
			return res{true, x.val, pos}
		}
		return fail
	case ONot:
		if x := m.eval(e.K[0], pos); x.ok {
			return fail
		}
		return res{true, vundef, pos}
	case OPat:
		return m.pat(e, pos)
	case OSeq:
		return m.seq(e, pos)
	}
	panic("op")
}

// pat: greedy repetition, between Min and Max items, Join between items.
// An unbounded repetition stops at an iteration that consumes nothing.
func (m *Interp) pat(e *E, pos int) res {
	var items []*Val
	end := pos
	for e.Max < 0 || len(items) < e.Max {
		p := end
		if len(items) > 0 && len(e.K) > 1 {
			x := m.eval(e.K[1], p)
			if !x.ok {
				break
			}
			p = x.end
		}
		x := m.alone(e.K[0], p)
		if !x.ok {
			break
		}
		if len(items) > 0 && e.Max < 0 && x.end == end && len(items) >= e.Min {
			break // nothing consumed: further iterations change nothing
		}
		items = append(items, x.val)
		end = x.end
		if m.Over {
			return fail
		}
	}
	if len(items) < e.Min {
		return fail
	}
	return res{true, &Val{K: VArr, A: items}, end}
}

func (m *Interp) seq(e *E, pos int) res {
	vals := make([]*Val, len(e.K))
	p := pos
	for i, k := range e.K {
		x := m.eval(k, p)
		if !x.ok {
			return fail
		}
		vals[i] = x.val
		p = x.end
	}
	nl := 0
	for _, k := range e.K {
		nl += len(k.labels())
	}
	if nl > 0 { // labelled: a map of the labelled elements
		mp := &Val{K: VMap}
		any := false
		for i, k := range e.K {
			if k.Label != "" {
				mp = mp.set(k.Label, vals[i])
				any = true
			} else if k.Op == OOpt && len(k.labels()) > 0 && vals[i].K == VMap {
				// (l:x ..)? : labels of an optional group are merged
				for q := range vals[i].Keys {
					mp = mp.set(vals[i].Keys[q], vals[i].A[q])
				}
				any = true
			}
		}
		if !any {
			return res{true, vundef, p}
		}
		return res{true, mp, p}
	}
	n := 0
	for _, k := range e.K {
		n += k.ncapt()
	}
	var caps []*Val
	for i, k := range e.K {
		if k.capt() {
			caps = append(caps, vals[i])
		}
	}
	if n > 1 {
		return res{true, &Val{K: VArr, A: caps}, p}
	}
	if len(caps) == 0 {
		return res{true, vundef, p}
	}
	return res{true, caps[len(caps)-1], p}
}

// regexp returns the compiled, anchored expression of a class or regex.
func (e *E) regexp() *regexp.Regexp {
	if e.re == nil {
		s := e.S
		if e.Op == OClass {
			s = "[" + s + "]"
		}
		e.re = regexp.MustCompile(`\A(?:` + s + `)`)
	}
	return e.re
}

func (e *E) mayMatchEmpty() bool { return e.regexp().MatchString("") }
