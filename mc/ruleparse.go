package main

// Reference reader of joeson rule text: a hand-written recursive descent of
// the documented syntax, independent from the library. It yields the model's
// expression, or refuses.
//
//   EXPR      = CHOICE _
//   CHOICE    = _PIPE* SEQUENCE*_PIPE{2,} _PIPE*  |  SEQUENCE
//   SEQUENCE  = UNIT{2,} | UNIT
//   UNIT      = _ LABELED
//   LABELED   = (LABEL ':')? (DECORATED | PRIMARY)
//   DECORATED = PRIMARY '?' | PRIMARY '*' (!__ PRIMARY)? RANGE?
//             | PRIMARY '+' (!__ PRIMARY)? | PRIMARY RANGE | '!' PRIMARY
//             | '(?' EXPR ')' | '?' EXPR
//   PRIMARY   = WORD '(' EXPR ')' | WORD | '(' (WORD ': ')? EXPR ')' | 'lit' | /re/ | [class]

import (
	"regexp"
	"strconv"
	"strings"
)

type rp struct {
	s string
	// quirk is set when the text uses a form whose behaviour is not claimed
	quirk bool
	memo  map[rpKey]rpRes
}

type rpKey struct {
	rule string
	pos  int
}

type rpRes struct {
	e   *E
	pos int
}

// readRule: nil when the text is not a rule.
func readRule(s string) (e *E, quirk bool) {
	p := &rp{s: s, memo: map[rpKey]rpRes{}}
	e, pos := p.expr(0)
	if e == nil || pos != len(s) {
		return nil, false
	}
	if !wellFormed(e) {
		return nil, false
	}
	return e, hasQuirk(e)
}

// wellFormed: regular expressions compile, integers fit.
func wellFormed(e *E) bool {
	switch e.Op {
	case OClass:
		if _, err := regexp.Compile("([" + e.S + "])"); err != nil {
			return false
		}
	case ORegex:
		if _, err := regexp.Compile("(" + e.S + ")"); err != nil {
			return false
		}
	}
	for _, k := range e.K {
		if !wellFormed(k) {
			return false
		}
	}
	return true
}

func hasQuirk(e *E) bool {
	if e.Label == "&" || e.Label == "@" {
		return true
	}
	if e.Op == ORef && strings.HasSuffix(e.S, "()") {
		return true
	}
	if e.Op == OSeq && e.S == "group" { // l:(m:x)
		return true
	}
	if e.Op == OOpt && e.Label != "" && len(e.K[0].labels()) > 0 { // l:(m:x)?
		return true
	}
	if e.Op == OLook && e.Label != "" {
		return true
	}
	for _, k := range e.K {
		if hasQuirk(k) {
			return true
		}
	}
	return false
}

func (p *rp) at(pos int, lit string) bool { return strings.HasPrefix(p.s[pos:], lit) }

func (p *rp) ws(pos int) int {
	for pos < len(p.s) && (p.s[pos] == ' ' || p.s[pos] == '\n') {
		pos++
	}
	return pos
}

func (p *rp) m(rule string, pos int, f func(int) (*E, int)) (*E, int) {
	k := rpKey{rule, pos}
	if r, ok := p.memo[k]; ok {
		return r.e, r.pos
	}
	e, q := f(pos)
	p.memo[k] = rpRes{e, q}
	return e, q
}

func (p *rp) expr(pos int) (*E, int) {
	e, q := p.m("choice", pos, p.choice)
	if e == nil {
		return nil, pos
	}
	return e, p.ws(q)
}

func (p *rp) pipe(pos int) (int, bool) {
	q := p.ws(pos)
	if p.at(q, "|") {
		return q + 1, true
	}
	return pos, false
}

func (p *rp) choice(pos int) (*E, int) {
	q := pos
	for {
		n, ok := p.pipe(q)
		if !ok {
			break
		}
		q = n
	}
	var alts []*E
	e, q2 := p.m("seq", q, p.sequence)
	if e != nil {
		alts = append(alts, e)
		q = q2
		for {
			n, ok := p.pipe(q)
			if !ok {
				break
			}
			e, q2 := p.m("seq", n, p.sequence)
			if e == nil {
				break
			}
			alts = append(alts, e)
			q = q2
		}
	}
	if len(alts) >= 2 {
		for {
			n, ok := p.pipe(q)
			if !ok {
				break
			}
			q = n
		}
		return &E{Op: OChoice, K: alts}, q
	}
	return p.m("seq", pos, p.sequence)
}

func (p *rp) sequence(pos int) (*E, int) {
	var us []*E
	q := pos
	for {
		e, n := p.m("unit", q, p.unit)
		if e == nil {
			break
		}
		us = append(us, e)
		q = n
	}
	switch len(us) {
	case 0:
		return nil, pos
	case 1:
		return us[0], q
	}
	return &E{Op: OSeq, K: us}, q
}

func (p *rp) unit(pos int) (*E, int) {
	e, q := p.labeled(p.ws(pos))
	if e == nil {
		return nil, pos
	}
	return e, q
}

func (p *rp) labeled(pos int) (*E, int) {
	if lab, q, ok := p.label(pos); ok {
		e, q2 := p.m("dp", q, p.decoratedOrPrimary)
		if e != nil {
			c := *e
			if c.Label != "" && e.Label != "" {
				// l:(m:x): the inner label belongs to the group
				return &E{Op: OSeq, K: []*E{e}, Label: lab, S: "group"}, q2
			}
			c.Label = lab
			return &c, q2
		}
		// the optional label matched, so what follows was tried after it only
	}
	return p.m("dp", pos, p.decoratedOrPrimary)
}

func (p *rp) label(pos int) (string, int, bool) {
	q := pos
	if pos < len(p.s) && (p.s[pos] == '&' || p.s[pos] == '@') {
		q = pos + 1
	} else {
		w, n := p.word(pos)
		if w == "" {
			return "", pos, false
		}
		q = n
	}
	if !p.at(q, ":") {
		return "", pos, false
	}
	return p.s[pos:q], q + 1, true
}

func (p *rp) word(pos int) (string, int) {
	is := func(c byte, first bool) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '_' || !first && c >= '0' && c <= '9'
	}
	q := pos
	for q < len(p.s) && is(p.s[q], q == pos) {
		q++
	}
	return p.s[pos:q], q
}

func (p *rp) decoratedOrPrimary(pos int) (*E, int) {
	if e, q := p.decorated(pos); e != nil {
		return e, q
	}
	return p.m("primary", pos, p.primary)
}

// an operand keeps its own label apart from the label of the operator
func (p *rp) decorated(pos int) (*E, int) {
	if v, q := p.m("primary", pos, p.primary); v != nil {
		switch {
		case p.at(q, "?"):
			return Opt(v), q + 1
		case p.at(q, "*"):
			e := &E{Op: OPat, K: []*E{v}, Min: -1, Max: -1}
			q++
			if jn, n := p.join(q); jn != nil {
				e.K = append(e.K, jn)
				q = n
			}
			if m, n, r, ok := p.rng(q); ok {
				e.Min, e.Max, q = m, n, r
			}
			return e, q
		case p.at(q, "+"):
			e := &E{Op: OPat, K: []*E{v}, Min: 1, Max: -1, Plus: true}
			q++
			if jn, n := p.join(q); jn != nil {
				e.K = append(e.K, jn)
				q = n
			}
			return e, q
		}
		if m, n, r, ok := p.rng(q); ok {
			return &E{Op: OPat, K: []*E{v}, Min: m, Max: n, Brace: true}, r
		}
	}
	if p.at(pos, "!") {
		if e, q := p.m("primary", pos+1, p.primary); e != nil {
			return Not(e), q
		}
	}
	if p.at(pos, "(?") {
		if e, q := p.expr(pos + 2); e != nil && p.at(q, ")") {
			return Look(e), q + 1
		}
	}
	if p.at(pos, "?") {
		if e, q := p.expr(pos + 1); e != nil {
			return Look(e), q
		}
	}
	return nil, pos
}

func (p *rp) join(pos int) (*E, int) {
	if pos < len(p.s) && (p.s[pos] == ' ' || p.s[pos] == '\n') {
		return nil, pos
	}
	return p.m("primary", pos, p.primary)
}

func (p *rp) rng(pos int) (m, n, q int, ok bool) {
	if !p.at(pos, "{") {
		return
	}
	num := func() int {
		s := q
		for q < len(p.s) && p.s[q] >= '0' && p.s[q] <= '9' {
			q++
		}
		if s == q {
			return -1
		}
		v, err := strconv.Atoi(p.s[s:q])
		if err != nil {
			v = -2
		}
		return v
	}
	q = p.ws(pos + 1)
	m = num()
	q = p.ws(q)
	if !p.at(q, ",") {
		return
	}
	q = p.ws(q + 1)
	n = num()
	q = p.ws(q)
	if !p.at(q, "}") {
		return
	}
	return m, n, q + 1, true
}

func (p *rp) primary(pos int) (*E, int) {
	if pos >= len(p.s) {
		return nil, pos
	}
	if w, q := p.word(pos); w != "" {
		if p.at(q, "(") {
			if e, r := p.expr(q + 1); e != nil && p.at(r, ")") {
				return &E{Op: ORef, S: w + "()"}, r + 1
			}
		}
		return Ref(w), q
	}
	switch p.s[pos] {
	case '(':
		q := pos + 1
		if w, n := p.word(q); w != "" && p.at(n, ": ") {
			q = n + 2
		}
		if e, r := p.expr(q); e != nil && p.at(r, ")") {
			return p.arrow(e, r+1)
		}
		return nil, pos
	case '\'':
		if body, q, ok := p.quoted(pos+1, '\'', false); ok {
			return Str(body), q
		}
	case '/':
		if body, q, ok := p.quoted(pos+1, '/', true); ok {
			return Rgx(body), q
		}
	case '[':
		if body, q, ok := p.quoted(pos+1, ']', true); ok {
			return Cls(body), q
		}
	}
	return nil, pos
}

// arrow: `(..) -> {code}` is obsolete; not used by the enumerations.
func (p *rp) arrow(e *E, q int) (*E, int) { return e, q }

// quoted reads up to the closing character; a backslash escapes the next one,
// and stays there when keep is set.
func (p *rp) quoted(pos int, end byte, keep bool) (string, int, bool) {
	var b strings.Builder
	q := pos
	for q < len(p.s) {
		c := p.s[q]
		if c == end {
			return b.String(), q + 1, true
		}
		if c == '\\' && q+1 < len(p.s) {
			if keep {
				b.WriteByte('\\')
			}
			q++
			c = p.s[q]
		}
		b.WriteByte(c)
		q++
	}
	return "", pos, false
}
