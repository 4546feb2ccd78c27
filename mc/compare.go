package main

// Comparison of the implementation with the reference model.

import (
	"fmt"
	"strings"

	j "github.com/grepsuzette/joeson"
)

type aspect int

const (
	aAccept aspect = 1 << iota
	aTree
	aError // kind of failure, offset, line and column
	aOrigin
	aNodeOnly
)

// want is what the model says about one parse.
type want struct {
	accept bool
	val    string
	tree   *Val
	end    int // where the entry rule ended (0 when it failed)
	ok     bool
	max    int
	try    int // furthest attempt of a rule, not before end
	over   bool
	lr     bool
	steps  int
}

var modelBudget = 60000

// model runs the reference interpreter and accounts for what it explored.
func (w *W) model(g *G, in string) want { return w.modelWith(g, in, modelBudget, nil) }

func (w *W) modelWith(g *G, in string, budget int, prep func(*Interp)) want {
	m := NewInterp(g, in)
	clear(w.visited)
	m.visited = w.visited
	m.Limit = budget + 100*len(in)
	if prep != nil {
		prep(m)
	}
	acc, v, end := m.Parse()
	if w.cur != nil {
		w.cur.States += len(w.visited)
		w.cur.Transitions += m.Steps
	}
	x := want{accept: acc, end: end, ok: v != nil, max: max(m.MaxSucc, end), try: max(m.MaxTry, end), over: m.Over, lr: m.LRUsed, steps: m.Steps}
	if acc {
		x.val = v.String()
		x.tree = v
	}
	return x
}

func lineCol(s string, off int) (int, int) {
	pre := s[:off]
	l := strings.Count(pre, "\n")
	c := off - (strings.LastIndexByte(pre, '\n') + 1)
	return l, c
}

func (x want) String() string {
	if x.accept {
		return "value " + x.val
	}
	return "not the whole input"
}

// agree compares one outcome with the model; "" when they agree.
func agree(x want, o Out, in string, asp aspect) (what, exp, got string) {
	if o.Kind == "panic" {
		return "the parse panics", x.String(), o.String()
	}
	if asp&(aAccept|aTree) != 0 || o.Accept() != x.accept {
		if o.Accept() != x.accept {
			if asp&(aAccept|aTree|aError) == 0 {
				return
			}
			if x.accept {
				return "an input of the language is refused", x.String(), o.String()
			}
			return "an input outside of the language is accepted", x.String(), o.String()
		}
	}
	if asp&aTree != 0 && x.accept && o.Val != x.val {
		return "the production differs", x.val, o.Val
	}
	if asp&aError != 0 && !x.accept {
		exp = ""
		if in == "" {
			exp = "nil"
			if o.Kind != "nil" {
				return "a failed parse of the empty input must return nil", exp, o.String()
			}
			return
		}
		l, c := lineCol(in, x.max)
		exp = fmt.Sprintf("ParseError at char:%d=(line:%d,col:%d)", x.max, l, c)
		if o.Kind != "err" {
			return "an incomplete parse must return a ParseError", exp, o.String()
		}
		if o.Off != x.max {
			return "the error offset is not the furthest success", exp, o.String()
		}
		if o.Line != l || o.Col != c {
			return "line and column of the error are not those of its offset", exp, o.String()
		}
	}
	return "", "", ""
}

// cmp compiles the grammar and compares every input with the model.
func (w *W) cmp(g *G, inputs []string, asp aspect) (bad bool) {
	gt := g.Text()
	w.About(gt)
	gm, e := g.Compile()
	if e != "" {
		w.Fail(Failure{What: "the grammar is refused", Grammar: gt, Got: e, Expected: "a compiled grammar"})
		return true
	}
	return w.cmpOn(gm, g, gt, inputs, asp)
}

func (w *W) cmpOn(gm *j.Grammar, g *G, gt string, inputs []string, asp aspect, po ...j.ParseOption) (bad bool) {
	for _, in := range inputs {
		x := w.model(g, in)
		if x.over {
			w.cur.Skipped++
			continue
		}
		w.Case(in)
		o := parse(gm, in, po...)
		if what, exp, got := agree(x, o, in, asp); what != "" {
			w.Fail(Failure{What: what, Grammar: gt, Input: in, Expected: exp, Got: got})
			return true
		}
		if asp&aOrigin != 0 && x.accept {
			if d := origins(x.tree, o.Ast, in, in); d != "" {
				w.Fail(Failure{What: "wrong origin", Grammar: gt, Input: in, Expected: x.val, Got: d})
				return true
			}
		}
		if x.accept {
			w.Outcome("accepted")
		} else {
			w.Outcome("refused")
		}
		if len(w.cur.Samples) < 3 && x.accept && in != "" {
			w.Sample(fmt.Sprintf("%s on %q => %s", gt, in, x.val))
		}
	}
	return false
}

// origins compares the origins of the nodes of an accepted tree with the
// spans of the model. code is the text given by the user.
func origins(v *Val, a j.Ast, in, code string) string {
	return originsL(v, a, code, func(end, line int) bool { l, _ := lineCol(in, end); return line == l })
}

func originsL(v *Val, a j.Ast, code string, lineOK func(end, line int) bool) string {
	switch v.K {
	case VNode:
		n, ok := a.(*node)
		if !ok {
			return fmt.Sprintf("expected a node, got %T", a)
		}
		o := n.GetOrigin()
		if o.Start != v.Start || o.End != v.End || o.Code != code || !lineOK(v.End, o.Line) {
			return fmt.Sprintf("node %s of [%d,%d) has the origin [%d,%d) line %d, code %q", v.S, v.Start, v.End, o.Start, o.End, o.Line, o.Code)
		}
		if n.GetLine() != o.Line {
			return fmt.Sprintf("node %s of [%d,%d) is at line %d, its origin at line %d", v.S, v.Start, v.End, n.GetLine(), o.Line)
		}
		if n.rule != n.name {
			return fmt.Sprintf("node %s of [%d,%d) was told the origin of rule %q", v.S, v.Start, v.End, n.rule)
		}
		return originsL(v.A[0], n.it, code, lineOK)
	case VArr:
		x, ok := a.(*j.NativeArray)
		if !ok || x.Length() != len(v.A) {
			return "array mismatch"
		}
		for i, k := range v.A {
			if d := originsL(k, x.Get(i), code, lineOK); d != "" {
				return d
			}
		}
	case VMap:
		x, ok := a.(*j.NativeMap)
		if !ok {
			return "map mismatch"
		}
		for i, k := range v.A {
			y, ok := x.GetExists(v.Keys[i])
			if !ok {
				return "map misses " + v.Keys[i]
			}
			if d := originsL(k, y, code, lineOK); d != "" {
				return d
			}
		}
	}
	return ""
}
