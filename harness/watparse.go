package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
)

var watPlain = []string{"return", "drop", "select", "memory.grow", "i32.load", "i32.store",
	"f32.add", "f32.sub", "f32.mul", "f32.div", "f32.sqrt", "f32.min", "f32.max", "f32.ceil", "f32.floor", "f32.trunc", "f32.nearest",
	"i32.add", "i32.sub", "i32.mul", "i32.div_s", "i32.div_u", "i32.rem_s", "i32.rem_u", "i32.and", "i32.or", "i32.xor", "i32.shl", "i32.shr_s", "i32.shr_u",
	"i32.rotl", "i32.rotr", "i32.clz", "i32.ctz", "i32.popcnt", "i32.extend8_s", "i32.extend16_s", "i32.eqz", "i32.eq", "i32.ne",
	"i32.lt_s", "i32.lt_u", "i32.le_s", "i32.le_u", "i32.gt_s", "i32.gt_u", "i32.ge_s", "i32.ge_u"}
var watIndexed = []string{"br", "br_if", "call", "local.get", "local.set", "local.tee", "global.get", "global.set"}

// mnemonics by the names of their types.
var mnemonics = func() map[string]string {
	m := map[string]string{}
	for _, s := range append(append([]string{}, watPlain...), watIndexed...) {
		m[strings.NewReplacer(".", "", "_", "").Replace(s)] = s
	}
	return m
}()

func valNode(v ast.ValType) Node { return node("valtype", strings.ToLower(typeName(deref(v)))) }

func paramNode(p ast.Parameter) Node {
	n := list("param", p.Types, valNode)
	n.S = optID(p.ID)
	return n
}

func resultNode(r ast.Result) Node { return list("result", r.Types, valNode) }

func indexNode(i ast.Index) Node {
	switch i := deref(i).(type) {
	case ast.IDIndex:
		return node("index", i.ID)
	case ast.RawIndex:
		return Node{K: "index", B: u32b(i.Index)}
	}
	return node("no index", "")
}

func blockNode(k string, name types.Option[string], bt ast.BlockType, body []ast.Instruction) Node {
	return node(k, optID(name), list("results", bt.Results, resultNode), list("body", body, instNode))
}

func instNode(i ast.Instruction) Node {
	x := deref(i)
	if ty, b := constBits(x); ty != "" {
		return Node{K: "inst", S: ty + ".const", B: b}
	}
	switch x := x.(type) {
	case ast.Folded:
		n := list("folded", x.Parameters, instNode)
		n.C = append(Seq[Node]{instNode(x.Instruction)}, n.C...)
		return n
	case ast.Block:
		return blockNode("block", x.Name, x.BlockType, x.Instructions)
	case ast.Loop:
		return blockNode("loop", x.Name, x.BlockType, x.Instructions)
	case ast.If:
		n := node("if", optID(x.Name), list("results", x.BlockType.Results, resultNode), list("clause", x.Clause, instNode),
			list("then", x.Then.Instructions, instNode))
		if e, ok := some(x.Else); ok {
			n.C = append(n.C, list("else", e.Instructions, instNode))
		}
		return n
	case ast.BrTable:
		n := list("inst", x.Indicies, indexNode)
		n.S = "br_table"
		return n
	case ast.CallIndirect:
		return node("inst", "call_indirect", node("index", x.Type.Index))
	}
	m, ok := mnemonics[strings.ToLower(typeName(x))]
	if !ok {
		return node("no instruction", typeName(x))
	}
	n := node("inst", m)
	if f := reflect.ValueOf(x).FieldByName("Index"); f.IsValid() {
		i, _ := f.Interface().(ast.Index)
		n.C = append(n.C, indexNode(i))
	}
	return n
}

func nameNode(k, s string) Node { return Node{K: k, B: byteInts([]byte(s))} }

func limitsNode(l ast.Limits) Node {
	n := Node{K: "limits", B: u32b(l.Min)}
	if m, ok := some(l.Max); ok {
		n.C = append(n.C, Node{K: "max", B: u32b(m)})
	}
	return n
}

func watNode(d ast.Directive) Node {
	switch d := deref(d).(type) {
	case ast.Component:
		return node("component", "")
	case ast.Module:
		return node("module", "",
			list("funcs", d.Functions, func(f ast.Function) Node {
				imports := node("imports", "")
				if i, ok := some(f.Import); ok {
					imports.C = append(imports.C, node("import", "", nameNode("name", i.Module), nameNode("name", i.Field)))
				}
				return node("func", optID(f.ID),
					list("exports", f.Exports, func(e ast.InlineExport) Node { return nameNode("export", e.Name) }), imports,
					list("params", f.Parameters, paramNode), list("results", f.Results, resultNode),
					list("locals", f.Locals, func(l ast.Local) Node { return node("local", "", valNode(l.Type)) }),
					list("body", f.Instructions, instNode))
			}),
			list("types", d.Types, func(t ast.Type) Node {
				return node("type", optID(t.ID), list("params", t.FuncType.Parameters, paramNode), list("results", t.FuncType.Results, resultNode))
			}),
			list("tables", d.Tables, func(t ast.Table) Node {
				return node("table", optID(t.ID), limitsNode(t.TableType.Limits), node("reftype", strings.ToLower(typeName(deref(t.TableType.RefType)))),
					list("elems", t.Elements, func(e ast.Element) Node { return node("elem", e.ID) }))
			}),
			list("globals", d.Globals, func(g ast.Global) Node {
				k := "const"
				if g.Type.Mutable {
					k = "mut"
				}
				n := valNode(g.Type.Type)
				n.K = k
				return node("global", optID(g.ID), n, list("body", g.Instructions, instNode))
			}),
			list("memories", d.Memory, func(m ast.Memory) Node { return node("memory", optID(m.ID), limitsNode(m.Limits)) }))
	}
	return node("no module", typeName(deref(d)))
}

// ---- text modules ----

type watParseDriver struct{}

func (watParseDriver) Run(raw json.RawMessage) any {
	var in TreeIn
	must(json.Unmarshal(raw, &in))
	l := lex.New(string(intBytes(in.Bs)))
	d, err := parse.Parse(l)
	if err != nil {
		return TreeOut{St: "err"}
	}
	out := TreeOut{"ok", watNode(d), -1}
	if tok, err := l.Next(); err == nil {
		out.Rest = tok.Position
	}
	return out
}

func (d watParseDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var s struct {
			Kind string
			T    []string
		}
		must(json.Unmarshal(line, &s))
		emit("model/"+s.Kind, TreeIn{byteInts(watText.layout(g, s.T, 0.1))})
	})
	for n := g.N(700, 12000); n > 0; n-- {
		watText.emit(g, watModule(g), emit)
	}
	for n := g.N(6, 40); n > 0; n-- {
		watText.emit(g, largeModule(g), emit)
	}
}

// largeModule is long or deeply nested.
func largeModule(g *Gen) []string {
	var t tokens
	t.paren("module", func() {
		if g.Chance(0.5) {
			t.times(g, 10+g.Intn(20), func() { t.field(g) })
			return
		}
		t.paren("func", func() {
			t.add("$" + strings.Repeat("x", 300))
			n := 10 + g.Intn(40)
			var shut []string
			for k := 0; k < n; k++ {
				open, end := []string{"(", "block"}, []string{")"}
				switch g.Intn(4) {
				case 0:
					open = []string{"(", "loop", "$l" + strings.Repeat("y", g.Intn(100))}
				case 1:
					open, end = []string{"(", "if", "(", "then"}, []string{")", ")"}
				case 2:
					open = []string{"(", "i32.eqz"}
				}
				t.add(open...)
				shut = append(end, shut...)
				if g.Chance(0.2) {
					t.add("(")
					t.constant(g)
					t.add(")")
				}
			}
			t.add(shut...)
		})
	})
	return t
}

var watText = texts{
	words:  watWords,
	trivia: []string{" ", "\n", "\t", "\r\n", "  ", ";;c\n", ";; ) (; \"\n", "(;x;)", "(; ( ;)", "(;(;\n;););)", ";;\n"},
	alone:  map[string]bool{"(": true, ")": true},
	pieces: []string{"(", ")", "\"", ";", " ", "a", "$", "1", "(;", "\x00", "\xef\xbb\xbf"},
	behind: []string{")", "(module)", " \"", " (; ", "x", "\n;; end", " [", "0", "\x00", "\x1a", "\xef\xbb\xbf", "\xc2\xa0", "\x80"},
	last:   []string{" ", "\n", ";;end", "(;end;)", "\n\n"},
}

var watWords = func() []string {
	w := []string{"(", "(", "(", ")", ")", ")", "module", "component", "func", "type", "table", "memory", "global", "param", "result", "local", "export", "import",
		"elem", "mut", "funcref", "externref", "i32", "i64", "f32", "f64", "anyfunc", "block", "loop", "if", "then", "else", "end", "br_table", "call_indirect",
		"i32.const", "i64.const", "f32.const", "f64.const", "nop", "unreachable", "i64.add", "f64.add", "v128", "$x", "$f", "$", "0", "1", "-1", "+1", "0x10", "4294967295", "4294967296",
		"1.5", "inf", "nan", "nan:0x1", "\"\"", "\"a\"", "\"\\n\"", "quote", "assert_return", "assert_trap", "assert_invalid", "assert_malformed", "invoke", "get",
		"ref.null", "ref.extern", "x", "I32", "i32.wrap_i64", "offset=4", "align=4", "i32.eqz_", "local_get", "data", "start"}
	return append(append(w, watPlain...), watIndexed...)
}()

func watID(g *Gen) string {
	if g.Chance(0.05) {
		s := "$"
		for k := 1 + g.Intn(12); k > 0; k-- {
			s += pick(g, "a", "z", "A", "Z", "0", "9", string("!#$%&'*+-./:<=>?@\\^_`|~"[g.Intn(23)]))
		}
		return s
	}
	return pick(g, "$x", "$y", "$f", "$g", "$0", "$a.b", "$$", "$module", "$i32.add", "$x'", fmt.Sprintf("$v%d", g.Intn(100)))
}

func watString(g *Gen) string {
	var b strings.Builder
	b.WriteByte('"')
	for k := many(g, g.Intn(6)); k > 0; k-- {
		if g.Chance(0.15) {
			r := pick(g, 0x7f, 0x80, 0xa0, 0xad, 0xff, 0x7ff, 0x800, 0x2028, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x300, 0x200b, 0xd7ff, 0xe000, 0x61, g.Intn(0xd800-0x20)+0x20)
			if g.Chance(0.5) && r != 0x7f && r != 0x22 && r != 0x5c {
				b.WriteRune(rune(r))
			} else {
				b.WriteString(pick(g, fmt.Sprintf("\\u{%x}", r), fmt.Sprintf("\\u{%X}", r), fmt.Sprintf("\\u{0%x}", r)))
			}
			continue
		}
		if g.Chance(0.02) {
			b.WriteString(pick(g, "\\u{d800}", "\\u{dfff}", "\\u{110000}", "\\u{ffffffff}", "\\u{100000041}", "\\u{10_ffff}", "\\u{d7ff}", "\\u{e000}", "\\u{00000000041}"))
			continue
		}
		b.WriteString(pick(g, "a", "b", " ", "(", ";;", "é", "😀", "\\n", "\\t", "\\r", "\\\"", "\\'", "\\\\", "\\41", "\\7f", "\\00", "\\c3\\A9", "\\u{e9}", "\\u{1F600}", "\\u{7_ff}", "\\u{ffff}", "\\u{0}", "0", "$x"))
	}
	b.WriteByte('"')
	return b.String()
}

func watIndex(g *Gen) string {
	if g.Chance(0.01) {
		return pick(g, "-1", "+1", "+0", "4294967296", "-0", "0x100000000", "1.0")
	}
	if g.Chance(0.4) {
		return watID(g)
	}
	return watUint(g, "0", "1", "2", "7", "0x1F", "1_0", "4294967295", "00")
}

// watUint is an unsigned number of 32 bits, one of the common ones or any.
func watUint(g *Gen, common ...string) string {
	if g.Chance(0.7) {
		return pick(g, common...)
	}
	n := g.Uint32() >> g.Intn(32)
	zeros := strings.Repeat("0", pick(g, 0, 0, 0, 1, 12))
	if g.Chance(0.4) {
		return "0x" + separate(g, zeros+hexCase(g, fmt.Sprintf("%x", n)))
	}
	return separate(g, zeros+fmt.Sprint(n))
}

func watVal(g *Gen) string { return pick(g, "i32", "i64", "f32", "f64") }

func (t *tokens) results(g *Gen) {
	t.times(g, pick(g, 0, 0, 0, 1, 1, 2), func() {
		t.paren("result", func() {
			t.times(g, pick(g, 0, 1, 1, 1, 2, 3), func() {
				t.add(watVal(g))
			})
		})
	})
}

func (t *tokens) params(g *Gen) {
	t.times(g, pick(g, 0, 0, 1, 1, 2, 3), func() {
		t.paren("param", func() {
			if g.Chance(0.4) {
				t.add(watID(g), watVal(g))
				return
			}
			t.times(g, pick(g, 0, 1, 1, 2, 3), func() {
				t.add(watVal(g))
			})
		})
	})
}

func (t *tokens) constant(g *Gen) {
	ty := watVal(g)
	lit := pick(g, "0", "1", "-1", "+7", "0x7f", "1_000", "-0x1", intLit(g))
	if g.Chance(0.25) {
		lit = pick(g, "2147483647", "2147483648", "4294967295", "-2147483648", "0x7fffffff", "0x80000000", "-0x80000000", "0xffffffff", "9223372036854775807",
			"18446744073709551615", "-9223372036854775808", "-0x8000_0000_0000_0000", "0xffff_ffff_ffff_ffff")
	}
	if ty[0] == 'f' && g.Chance(0.6) {
		lit = pick(g, "1.5", "-0.", "inf", "-nan", "nan:0x1", "nan:0x7fffff", "-nan:0x400000", "0x1.8p3", "1e10", simpleFloat(g))
		if g.Chance(0.2) {
			lit = floatLit(g, ty)
		}
	}
	t.add(ty+".const", lit)
}

// inst writes an instruction without parentheses; block instructions only if
// it is inside of some.
func (t *tokens) inst(g *Gen, folded bool, depth int) {
	switch k := g.Intn(20); {
	case k < 4:
		t.constant(g)
	case k < 7:
		t.add(pick(g, watIndexed...), watIndex(g))
	case k < 8:
		t.add("br_table", watIndex(g))
		t.times(g, pick(g, 0, 1, 1, 2, 3), func() {
			t.add(watIndex(g))
		})
	case k < 9:
		t.add("call_indirect")
		t.paren("type", func() { t.add(watID(g)) })
	case folded && depth > 0 && k < 12:
		t.add(pick(g, "block", "loop"))
		if g.Chance(0.4) {
			t.add(watID(g))
		}
		t.results(g)
		t.folded(g, depth-1, 3)
	case folded && depth > 0 && k < 14:
		t.add("if")
		if g.Chance(0.3) {
			t.add(watID(g))
		}
		t.results(g)
		t.folded(g, depth-1, 2)
		t.paren("then", func() { t.folded(g, depth-1, 2) })
		if g.Chance(0.5) {
			t.paren("else", func() { t.folded(g, depth-1, 2) })
		}
	default:
		t.add(pick(g, watPlain...))
	}
}

// folded writes up to n folded instructions.
func (t *tokens) folded(g *Gen, depth, n int) {
	for k := g.Intn(n + 1); k > 0; k-- {
		t.add("(")
		block := len(*t)
		t.inst(g, true, depth)
		if s := (*t)[block]; depth > 0 && s != "block" && s != "loop" && s != "if" {
			t.folded(g, depth-1, 2)
		}
		t.add(")")
	}
}

func (t *tokens) optID(g *Gen) {
	if g.Chance(0.5) {
		t.add(watID(g))
	}
}

func (t *tokens) limits(g *Gen) {
	t.add(watUint(g, "0", "1", "0x10", "65536", "4294967295", "1_0"))
	if g.Chance(0.02) {
		t.add(pick(g, "-1", "+1", "4294967296", "-0"))
	}
	if g.Chance(0.5) {
		t.add(watUint(g, "0", "1", "2", "0xff", "4294967295"))
	}
}

func (t *tokens) field(g *Gen) {
	switch g.Intn(9) {
	case 0:
		t.paren("type", func() {
			t.optID(g)
			t.paren("func", func() {
				t.params(g)
				t.results(g)
			})
		})
	case 1:
		t.paren("table", func() {
			t.optID(g)
			if g.Chance(0.5) {
				t.limits(g)
				t.add(pick(g, "funcref", "externref"))
				return
			}
			t.add(pick(g, "funcref", "externref"))
			t.times(g, pick(g, 0, 1, 1, 2), func() {
				t.paren("elem", func() { t.add(watID(g)) })
			})
		})
	case 2:
		t.paren("global", func() {
			t.optID(g)
			if g.Chance(0.5) {
				t.paren("mut", func() { t.add(watVal(g)) })
			} else {
				t.add(watVal(g))
			}
			t.folded(g, 1, 2)
		})
	case 3:
		t.paren("memory", func() {
			t.optID(g)
			t.limits(g)
		})
	default:
		t.paren("func", func() {
			t.optID(g)
			t.times(g, pick(g, 0, 0, 0, 1, 1, 2), func() {
				t.paren("export", func() { t.add(watString(g)) })
			})
			if g.Chance(0.15) {
				t.paren("import", func() { t.add(watString(g), watString(g)) })
			}
			t.params(g)
			t.results(g)
			t.times(g, pick(g, 0, 0, 0, 1, 1, 2, 3), func() {
				t.paren("local", func() { t.add(watVal(g)) })
			})
			t.times(g, g.Intn(4), func() {
				if g.Chance(0.6) {
					t.folded(g, g.Intn(4), 2)
				} else {
					t.inst(g, false, 0)
				}
			})
		})
	}
}

func watModule(g *Gen) []string {
	var t tokens
	if g.Chance(0.03) {
		t.paren("component", func() {})
		return t
	}
	t.paren("module", func() {
		t.times(g, pick(g, 0, 1, 1, 1, 2, 3, 5), func() { t.field(g) })
	})
	return t
}

func init() { drivers["C18"] = watParseDriver{} }
