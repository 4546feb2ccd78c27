package main

// Binding of the model to the real library (public API only).

import (
	"fmt"
	"strconv"
	"strings"

	j "github.com/grepsuzette/joeson"
	"github.com/grepsuzette/joeson/helpers"
)

// node is what our parse callbacks return: a fresh user AST node.
type node struct {
	*j.Attr
	name string
	it   j.Ast
	rule string // told with the first origin
}

func (n *node) SetOrigin(o j.Origin) {
	n.Attr.SetOrigin(o)
	if n.rule == "" {
		n.rule = o.RuleName
	}
}

func (n *node) String() string { return "<" + n.name + " " + n.it.String() + ">" }

// nodeLog, when set, records the calls of the callbacks made by mkNode.
var nodeLog *[]byte

func mkNode(name string) func(j.Ast) j.Ast {
	return func(it j.Ast) j.Ast {
		if nodeLog != nil {
			*nodeLog = append(append(*nodeLog, name...), ' ')
		}
		return &node{j.NewAttr(), name, it, ""}
	}
}

// calling returns what f returns, followed by the callbacks called meanwhile.
func calling(f func() string) string {
	var log []byte
	nodeLog = &log
	defer func() { nodeLog = nil }()
	s := f()
	return s + " calling " + string(log)
}

var sharedJoeson *j.Grammar

// jo returns the shared compiler grammar (the library builds a private one per
// grammar unless it is told which one to use).
func jo() *helpers.Lazy[*j.Grammar] {
	if sharedJoeson == nil {
		sharedJoeson = j.NewJoesonWithOptions(j.Mute())
	}
	return helpers.LazyFromValue(sharedJoeson)
}

func opts() j.GrammarOptions {
	return j.GrammarOptions{TraceOptions: j.Mute(), LazyGrammar: jo()}
}

// Lines builds the library's lines for a model grammar. The entry is an O
// line, the other rules I lines.
func (g *G) Lines(extra ...func(r *Rule) []any) []j.Line {
	var lines []j.Line
	for i, r := range g.Rules {
		args := lineArgs(r, extra...)
		if i == 0 {
			lines = append(lines, j.O(args...))
		} else {
			lines = append(lines, j.I(args...))
		}
	}
	return lines
}

func lineArgs(r *Rule, extra ...func(r *Rule) []any) []any {
	var body any
	if r.Rank != nil {
		sub := []j.Line{}
		for _, k := range r.Rank {
			sub = append(sub, j.O(lineArgs(k, extra...)...))
		}
		body = sub
		if r.Name == "" {
			body = j.NewALine(sub)
		}
	} else {
		body = r.Body.Text()
		if r.Pre {
			p, ok := jo().Get().ParseString(r.Body.Text()).(j.Parser)
			if !ok {
				panic("the body is refused: " + r.Body.Text())
			}
			body = p
		}
	}
	for _, a := range r.Nest {
		body = j.O(append([]any{body}, a...)...)
	}
	var args []any
	if r.Name != "" {
		args = append(args, j.Named(r.Name, body))
	} else {
		args = append(args, body)
	}
	if r.Node {
		args = append(args, mkNode(r.Name))
	}
	for _, x := range extra {
		args = append(args, x(r)...)
	}
	return args
}

func (g *G) Compile(extra ...func(r *Rule) []any) (gm *j.Grammar, err string) {
	defer func() {
		if e := recover(); e != nil {
			gm, err = nil, "PANIC "+firstLine(fmt.Sprint(e))
		}
	}()
	return j.GrammarWithOptionsFromLines("g", opts(), g.Lines(extra...)), ""
}

func firstLine(s string) string {
	s = helpers.StripAnsi(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// Outcome of a parse of the real library, in the model's terms.
type Out struct {
	Kind string // "ok" "nil" "err" "panic"
	Val  string
	Err  string
	Ast  j.Ast
	// of a ParseError
	Off, Line, Col int
}

func (o Out) String() string {
	switch o.Kind {
	case "ok":
		return "value " + o.Val
	case "nil":
		return "no match (nil)"
	case "err":
		return "ParseError(" + o.Err + ")"
	}
	return "panic(" + o.Err + ")"
}

func (o Out) Accept() bool { return o.Kind == "ok" }

func runParse(f func() j.Ast) (o Out) {
	defer func() {
		if e := recover(); e != nil {
			o = Out{Kind: "panic", Err: firstLine(fmt.Sprint(e))}
		}
	}()
	a := f()
	if a == nil {
		return Out{Kind: "nil"}
	}
	if j.IsParseError(a) {
		o = Out{Kind: "err", Err: firstLine(a.(j.ParseError).ErrorString), Ast: a, Off: -1}
		if _, e := fmt.Sscanf(o.Err, "Error parsing at char:%d=(line:%d,col:%d).", &o.Off, &o.Line, &o.Col); e != nil {
			o.Off = -1
		}
		return o
	}
	var b strings.Builder
	canon(&b, a)
	return Out{Kind: "ok", Val: b.String(), Ast: a}
}

func parse(gm *j.Grammar, in string, o ...j.ParseOption) Out {
	return runParse(func() j.Ast { return gm.ParseString(in, o...) })
}

func canonStr(a j.Ast) string {
	var b strings.Builder
	canon(&b, a)
	return b.String()
}

func canon(b *strings.Builder, a j.Ast) {
	switch v := a.(type) {
	case nil:
		b.WriteString("nil")
	case j.NativeString:
		b.WriteString(strconv.Quote(string(v)))
	case j.NativeInt:
		b.WriteString("#" + strconv.Itoa(int(v)))
	case j.NativeUndefined:
		b.WriteString("U")
	case j.ParseError:
		b.WriteString("!" + firstLine(v.ErrorString))
	case *j.NativeArray:
		b.WriteByte('[')
		for i, x := range v.Array() {
			if i > 0 {
				b.WriteByte(' ')
			}
			canon(b, x)
		}
		b.WriteByte(']')
	case *j.NativeMap:
		b.WriteByte('{')
		for i, k := range v.Keys() {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k + ":")
			x, ok := v.GetExists(k)
			if !ok {
				b.WriteString("MISSING")
			} else {
				canon(b, x)
			}
		}
		b.WriteByte('}')
	case *node:
		b.WriteString("<" + v.name + " ")
		canon(b, v.it)
		b.WriteByte('>')
	default:
		fmt.Fprintf(b, "?%T:%s", a, helpers.StripAnsi(a.String()))
	}
}
