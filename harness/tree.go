package main

import (
	"reflect"
	"strings"

	"github.com/patrickhuber/go-types"
)

// ---- syntax trees ----

// Node is a syntax tree as in the specification.
type Node struct {
	K string    `json:"k"`
	S string    `json:"s"`
	B Ints      `json:"b"`
	C Seq[Node] `json:"c"`
}

type TreeIn struct {
	Bs Ints `json:"bs"`
}

type TreeOut struct {
	St   string `json:"st"`
	Tree Node   `json:"tree"`
	Rest int    `json:"rest"`
}

func node(k, s string, c ...Node) Node { return Node{K: k, S: s, C: c} }

func list[T any](k string, xs []T, f func(T) Node) Node {
	n := Node{K: k}
	for _, x := range xs {
		n.C = append(n.C, f(x))
	}
	return n
}

// some is the value of an option; an option can also be nil.
func some[T any](o types.Option[T]) (v T, ok bool) {
	if o == nil {
		return v, false
	}
	return o.Deconstruct()
}

func optID(o types.Option[string]) string {
	id, _ := some(o)
	return id
}

// deref follows pointers.
func deref(x any) any {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	if !v.IsValid() {
		return nil
	}
	return v.Interface()
}

func typeName(x any) string {
	if x == nil {
		return "nil"
	}
	return reflect.TypeOf(x).Name()
}

// ---- texts ----

// texts says how to write token lists of a language.
type texts struct {
	words  []string        // for wrong tokens
	trivia []string        // white space and comments
	alone  map[string]bool // tokens that need no space around them
	pieces []string        // for wrong characters
	behind []string        // for what follows a text
	last   []string        // harmless ends
}

// emit writes a text in several ways and with mistakes.
func (x texts) emit(g *Gen, toks []string, emit func(string, any)) {
	put := func(kind string, bs []byte) { emit(kind, TreeIn{byteInts(bs)}) }
	put("grammar", x.layout(g, toks, pick(g, 0, 0.1, 0.5)))
	if g.Chance(0.2) {
		put("layout", x.layout(g, toks, 1))
	}
	if g.Chance(0.2) {
		put("twice", x.layout(g, twice(g, toks), 0.1))
	}
	bad := x.corrupt(g, toks)
	put("broken", x.layout(g, bad, 0.1))
	if g.Chance(0.2) {
		put("broken", x.layout(g, x.corrupt(g, bad), 0))
	}
	if g.Chance(0.3) {
		bs := x.layout(g, toks, 0.1)
		if i := g.Intn(len(bs) + 1); g.Chance(0.5) {
			bs = bs[:i]
		} else {
			bs = append(append(append([]byte{}, bs[:i]...), pick(g, x.pieces...)...), bs[i:]...)
		}
		put("bytes", bs)
	}
	if g.Chance(0.1) {
		put("behind", append(x.layout(g, toks, 0.1), pick(g, x.behind...)...))
	}
	if g.Chance(0.05) {
		put("before", append([]byte(pick(g, x.behind...)), x.layout(g, toks, 0.1)...))
	}
}

// twice writes one group in brackets once more behind itself.
func twice(g *Gen, toks []string) []string {
	i := g.Intn(len(toks))
	for k := 0; k < 8 && toks[i] != "(" && toks[i] != "{" && toks[i] != "<"; k++ {
		i = g.Intn(len(toks))
	}
	depth := 0
	for j := i; j < len(toks); j++ {
		switch toks[j] {
		case "(", "{", "<":
			depth++
		case ")", "}", ">":
			depth--
		}
		if depth <= 0 {
			return append(toks[:j+1:j+1], append(append([]string{}, toks[i:j+1]...), toks[j+1:]...)...)
		}
	}
	return toks
}

func (x texts) corrupt(g *Gen, toks []string) []string {
	t := append([]string{}, toks...)
	i, j := g.Intn(len(t)), g.Intn(len(t))
	switch g.Intn(7) {
	case 0:
		return append(t[:i], t[i+1:]...)
	case 1:
		return append(t[:i:i], append([]string{t[j]}, t[i:]...)...)
	case 2:
		t[i], t[j] = t[j], t[i]
		return t
	case 3:
		return append(t[:i:i], append([]string{pick(g, x.words...)}, t[i:]...)...)
	case 4:
		t[i] = pick(g, x.words...)
		return t
	case 5:
		if i > j {
			i, j = j, i
		}
		return append(t[:i:i], t[j:]...)
	}
	if i > j {
		i, j = j, i
	}
	// a piece twice
	return append(t[:j:j], t[i:]...)
}

// layout joins tokens; wild is the share of unusual white space.
func (x texts) layout(g *Gen, toks []string, wild float64) []byte {
	var b strings.Builder
	last := ""
	for i, t := range toks {
		sep := ""
		if g.Chance(wild) {
			for k := 1 + g.Intn(2); k > 0; k-- {
				sep += pick(g, x.trivia...)
			}
		} else if g.Chance(0.3) {
			sep = " "
		}
		if sep == "" && i > 0 && !x.alone[last] && !x.alone[t] {
			sep = " "
		}
		b.WriteString(sep)
		b.WriteString(t)
		last = t
	}
	if g.Chance(0.2) {
		b.WriteString(pick(g, x.last...))
	}
	return []byte(b.String())
}

// tokens builds a token list.
type tokens []string

func (t *tokens) add(s ...string) { *t = append(*t, s...) }
func (t *tokens) paren(head string, body func()) {
	t.add("(", head)
	body()
	t.add(")")
}

// many is n, or now and then a lot more.
func many(g *Gen, n int) int {
	if g.Chance(0.02) {
		return n + g.Intn(40)
	}
	return n
}

// times writes about n items, some of them like the one before.
func (t *tokens) times(g *Gen, n int, item func()) {
	var last tokens
	for k := many(g, n); k > 0; k-- {
		if len(last) > 0 && g.Chance(0.08) {
			t.add(last...)
			continue
		}
		i := len(*t)
		item()
		last = append(tokens{}, (*t)[i:]...)
	}
}
