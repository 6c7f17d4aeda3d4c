package main

import (
	"encoding/json"

	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wast/parse"
)

// ---- scripts ----

func quoteNode(q ast.QuoteWat) Node {
	n := Node{K: "quote"}
	switch q := deref(q).(type) {
	case ast.Wat:
		return watNode(q.Wat)
	case ast.QuoteModule:
		n.S, n.B = "module", byteInts([]byte(q.Quote))
	case ast.QuoteComponent:
		n.S, n.B = "component", byteInts([]byte(q.Quote))
	default:
		return node("no module", typeName(q))
	}
	return n
}

func scriptConst(c any) Node {
	if ty, b := constBits(deref(c)); ty != "" {
		return Node{K: "inst", S: ty + ".const", B: b}
	}
	return node("no constant", typeName(deref(c)))
}

func actionNode(a ast.Action) Node {
	i, ok := deref(a).(ast.Invoke)
	if !ok {
		return node("no action", typeName(deref(a)))
	}
	n := list("invoke", i.Const, func(c ast.Const) Node { return scriptConst(c) })
	n.S, n.B = optID(i.Name), byteInts([]byte(i.String))
	return n
}

func directiveNode(d ast.Directive) Node {
	failure := func(k, msg string, c Node) Node { return Node{K: k, B: byteInts([]byte(msg)), C: Seq[Node]{c}} }
	switch d := deref(d).(type) {
	case ast.WatDirective:
		return quoteNode(d.Wat)
	case ast.AssertInvalid:
		return failure("assert_invalid", d.Failure, quoteNode(d.Module))
	case ast.AssertMalformed:
		return failure("assert_malformed", d.Failure, quoteNode(d.Module))
	case ast.AssertTrap:
		return failure("assert_trap", d.Failure, actionNode(d.Action))
	case ast.AssertReturn:
		return node("assert_return", "", actionNode(d.Action), list("expected", d.Results, func(r ast.Result) Node { return scriptConst(r) }))
	default:
		return node("no directive", typeName(d))
	}
}

type wastParseDriver struct{}

func (wastParseDriver) Run(raw json.RawMessage) any {
	var in TreeIn
	must(json.Unmarshal(raw, &in))
	w, err := parse.Parse(string(intBytes(in.Bs)))
	if err != nil {
		return TreeOut{St: "err"}
	}
	return TreeOut{St: "ok", Tree: list("script", w.Directives, directiveNode)}
}

func (d wastParseDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var s struct{ T []string }
		must(json.Unmarshal(line, &s))
		emit("model", TreeIn{byteInts(watText.layout(g, s.T, 0.1))})
	})
	for n := g.N(4, 30); n > 0; n-- {
		var t tokens
		t.times(g, 10+g.Intn(30), func() { t.directive(g) })
		watText.emit(g, t, emit)
	}
	for n := g.N(700, 12000); n > 0; n-- {
		var t tokens
		t.times(g, pick(g, 0, 1, 1, 2, 3, 4), func() { t.directive(g) })
		if len(t) == 0 {
			emit("empty", TreeIn{byteInts([]byte(pick(g, "", " ", ";; nothing\n", "(;;)", "\n\n")))})
			continue
		}
		watText.emit(g, t, emit)
	}
}

func (t *tokens) quoteWat(g *Gen) {
	if g.Chance(0.4) {
		t.paren(pick(g, "module", "module", "component"), func() { t.add("quote", watString(g)) })
		return
	}
	t.add(watModule(g)...)
}

func (t *tokens) constants(g *Gen, expected bool) {
	t.times(g, pick(g, 0, 1, 1, 2, 3), func() {
		t.add("(")
		if expected && g.Chance(0.2) {
			t.add(pick(g, "f32.const", "f64.const"), pick(g, "nan:canonical", "nan:arithmetic"))
		} else {
			t.constant(g)
		}
		t.add(")")
	})
}

func (t *tokens) action(g *Gen) {
	t.paren("invoke", func() {
		if g.Chance(0.3) {
			t.add(watID(g))
		}
		t.add(watString(g))
		t.constants(g, g.Chance(0.1))
	})
}

func (t *tokens) directive(g *Gen) {
	switch g.Intn(6) {
	case 0:
		t.quoteWat(g)
	case 1, 2:
		t.paren("assert_return", func() {
			t.action(g)
			t.constants(g, true)
		})
	case 3:
		t.paren("assert_trap", func() {
			t.action(g)
			t.add(watString(g))
		})
	default:
		t.paren(pick(g, "assert_invalid", "assert_malformed"), func() {
			t.quoteWat(g)
			t.add(watString(g))
		})
	}
}

func init() { drivers["C19"] = wastParseDriver{} }
