package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-wasm/wit/ast"
	wit "github.com/patrickhuber/go-wasm/wit/parse"
)

// ---- trees of WIT documents ----

func witPackage(p ast.PackageDeclaration) Node {
	n := node("package", "", node("namespace", p.Namespace), node("name", p.Name))
	if v, ok := some(p.Version); ok {
		num := func(x uint64) Node { return Node{K: "number", B: le(x, 8)} }
		ver := node("version", "", num(v.Major), num(v.Minor), num(v.Patch))
		if v.Pre != "" || v.Build != "" {
			ver.S = v.Pre + "+" + v.Build
		}
		n.C = append(n.C, ver)
	}
	return n
}

func witPath(p *ast.UsePath) Node {
	if p == nil {
		return node("no path", "")
	}
	if p.Package.Id == nil {
		return node("path", p.Id)
	}
	return node("path", p.Package.Name, witPackage(*p.Package.Id))
}

func witAs(o types.Option[string]) []Node {
	if s, ok := some(o); ok {
		return []Node{node("as", s)}
	}
	return nil
}

var witPrims = map[string]string{"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "S8": "s8", "S16": "s16", "S32": "s32", "S64": "s64",
	"Char": "char", "Bool": "bool", "String": "string", "Float32": "float32", "Float64": "float64"}

func optType(k string, o types.Option[ast.Type]) Node {
	if t, ok := some(o); ok {
		return node(k, "", witType(t))
	}
	return node(k, "")
}

func witType(t ast.Type) Node {
	switch t := deref(t).(type) {
	case ast.Tuple:
		return list("tuple", t.Types, witType)
	case ast.List:
		return node("list", "", witType(t.ItemType))
	case ast.Option:
		return node("option", "", witType(t.ItemType))
	case ast.Future:
		return optType("future", t.ItemType)
	case ast.Result:
		return node("result", "", optType("ok", t.Ok), optType("error", t.Error))
	case ast.Stream:
		return node("stream", "", optType("element", t.Element), optType("end", t.End))
	case ast.Own:
		return node("own", t.Id)
	case ast.Borrow:
		return node("borrow", t.Id)
	case ast.Id:
		return node("named", t.Value)
	default:
		if s, ok := witPrims[typeName(t)]; ok {
			return node("prim", s)
		}
		return node("no type", typeName(t))
	}
}

func witParam(p ast.Parameter) Node { return node("param", p.Id, witType(p.Type)) }

func witFunc(f *ast.FuncType) Node {
	if f == nil {
		return node("no function", "")
	}
	results := node("results", "")
	if f.Results != nil {
		results = list("results", f.Results.Named, witParam)
		if f.Results.Anonymous != nil {
			if len(f.Results.Named) > 0 {
				return node("two kinds of results", "")
			}
			results = node("result", "", witType(f.Results.Anonymous))
		}
	}
	return node("func", "", list("params", f.Params, witParam), results)
}

func witFuncItem(f *ast.FuncItem) Node {
	if f == nil {
		return node("no function", "")
	}
	return node("function", f.ID, witFunc(f.FuncType))
}

func named(n Node, id string) Node {
	n.S = id
	return n
}

func witMethod(m ast.ResourceMethod) Node {
	switch m := deref(m).(type) {
	case ast.Constructor:
		return list("constructor", m.ParameterList, witParam)
	case ast.Static:
		return node("static", m.ID, witFunc(m.FuncType))
	case ast.Method:
		return node("method", m.ID, witFuncItem(m.Func))
	default:
		return node("no method", typeName(m))
	}
}

// witMember is an item of an interface or a world.
func witMember(x any) Node {
	switch x := deref(x).(type) {
	case ast.FuncItem:
		return witFuncItem(&x)
	case ast.Use:
		n := list("use", x.Names, func(u ast.UseName) Node { return node("usename", u.Name, witAs(u.As)...) })
		n.C = append(Seq[Node]{witPath(x.From)}, n.C...)
		return n
	case ast.Include:
		n := list("include", x.Names, func(u ast.IncludeName) Node { return node("rename", u.Name, node("as", u.As)) })
		n.C = append(Seq[Node]{witPath(x.From)}, n.C...)
		return n
	case ast.Resource:
		return named(list("resource", x.Methods, witMethod), x.ID)
	case ast.Record:
		return named(list("record", x.Fields, func(f ast.Field) Node { return node("field", f.Name, witType(f.Type)) }), x.ID)
	case ast.Flags:
		return named(list("flags", x.Flags, func(f ast.Flag) Node { return node("flag", f.Id) }), x.ID)
	case ast.Variant:
		return named(list("variant", x.Cases, func(c ast.Case) Node { return named(optType("case", c.Type), c.Name) }), x.ID)
	case ast.Enum:
		return named(list("enum", x.Cases, func(c ast.EnumCase) Node { return node("enumcase", c.Name) }), x.ID)
	case ast.TypeItem:
		return node("alias", x.ID, witType(x.Type))
	case ast.Export:
		return node("export", "", witExtern(x.ExternType))
	case ast.Import:
		return node("import", "", witExtern(x.ExternType))
	default:
		return node("no item", typeName(x))
	}
}

func witExtern(e ast.ExternType) Node {
	switch e := deref(e).(type) {
	case ast.ExternTypeFunc:
		return node("function", e.ID, witFunc(e.Func))
	case ast.ExternTypeInterface:
		return named(list("interface", e.InterfaceItems, func(i ast.InterfaceItem) Node { return witMember(i) }), e.ID)
	case ast.ExternTypeUsePath:
		return witPath(e.UsePath)
	default:
		return node("no type", typeName(e))
	}
}

func witDocument(a *ast.Ast) Node {
	n := node("document", "")
	if a == nil {
		return node("no document", "")
	}
	if p, ok := some(a.PackageDeclaration); ok {
		n.C = append(n.C, witPackage(p))
	}
	for _, i := range a.Items {
		before := len(n.C)
		if i.Interface != nil {
			n.C = append(n.C, named(list("interface", i.Interface.Items, func(i ast.InterfaceItem) Node { return witMember(i) }), i.Interface.Name))
		}
		if i.World != nil {
			n.C = append(n.C, named(list("world", i.World.Items, func(i ast.WorldItem) Node { return witMember(i) }), i.World.Id))
		}
		if i.Use != nil {
			n.C = append(n.C, node("use", "", append([]Node{witPath(i.Use.Item)}, witAs(i.Use.As)...)...))
		}
		if len(n.C) == before {
			n.C = append(n.C, node("empty item", ""))
		}
	}
	return n
}

// ---- WIT documents ----

type witParseDriver struct{}

func (witParseDriver) Run(raw json.RawMessage) any {
	var in TreeIn
	must(json.Unmarshal(raw, &in))
	a, err := wit.Parse(string(intBytes(in.Bs)))
	if err != nil {
		return TreeOut{St: "err"}
	}
	return TreeOut{St: "ok", Tree: witDocument(a)}
}

var witText = texts{
	words: append(append([]string{"a", "b-c", "%x", "%use", "_", "0", "1", "f32", "18446744073709551616", "-", "+", "*", "_", "unique"}, witWords...),
		"(", ")", "{", "}", "<", ">", ",", ":", ";", "@", "=", ".", "/", "->"),
	trivia: []string{" ", "\n", "\t", "\r\n", "  ", "// c\n", "// } /* \n", "/*x*/", "/* { */", "/*/*\n*/*/", "///\n"},
	alone: map[string]bool{"(": true, ")": true, "{": true, "}": true, "<": true, ">": true, ",": true, ":": true, ";": true,
		"@": true, "=": true, ".": true},
	pieces: []string{"(", ")", "{", "}", ";", " ", "a", "%", "1", "/*", ",", "-", ">", ":"},
	behind: []string{"}", "interface i {}", " /* ", "x", "\n// end", " [", "0", ";", "package a:b;", "use a;", "world w {}", "\x00", "\x1a", "\xef\xbb\xbf", "\xc2\xa0", "\x80"},
	last:   []string{" ", "\n", "// end", "/*end*/", "\n\n"},
}

func (d witParseDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var s struct {
			Kind string
			T    []string
		}
		must(json.Unmarshal(line, &s))
		emit("model/"+s.Kind, TreeIn{byteInts(witText.layout(g, s.T, 0.1))})
	})
	for n := g.N(6, 40); n > 0; n-- {
		// long or deeply nested
		var t tokens
		if g.Chance(0.5) {
			for k := 5 + g.Intn(10); k > 0; k-- {
				t.add("interface", "i"+strings.Repeat("x", g.Intn(300)))
				t.witItems(g, 12)
			}
		} else {
			t.add("interface", "i", "{", "type", "t", "=")
			n := 10 + g.Intn(40)
			for k := 0; k < n; k++ {
				t.add(pick(g, "list", "option", "future", "tuple", "result", "stream"), "<")
			}
			t.add("u8")
			for k := 0; k < n; k++ {
				t.add(">")
			}
			t.add(";", "}")
		}
		witText.emit(g, t, emit)
	}
	for n := g.N(900, 12000); n > 0; n-- {
		var t tokens
		t.document(g)
		if len(t) == 0 {
			emit("empty", TreeIn{byteInts([]byte(pick(g, "", " ", "// nothing\n", "/**/", "\n\n")))})
			continue
		}
		witText.emit(g, t, emit)
	}
}

func witID(g *Gen) string {
	if g.Chance(0.1) {
		return "%" + pick(g, witWords...)
	}
	return pick(g, "a", "b", "foo", "foo-bar", "x1", "A-b2", "%use", "%a", "%foo-bar", "u9", "users", "func-tion", "f32", fmt.Sprintf("n%d", g.Intn(100)))
}

func (t *tokens) commas(g *Gen, lo, hi int, item func()) {
	i := len(*t)
	t.times(g, lo+g.Intn(hi-lo+1), func() {
		item()
		t.add(",")
	})
	if len(*t) > i && g.Chance(0.8) {
		*t = (*t)[:len(*t)-1]
	}
}

func (t *tokens) witType(g *Gen, depth int) {
	if depth <= 0 || g.Chance(0.4) {
		t.add(pick(g, "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "char", "bool", "string", "float32", "float64", witID(g), "result", "stream", "future"))
		return
	}
	sub := func() { t.witType(g, depth-1) }
	switch k := g.Intn(7); k {
	case 0, 1:
		t.add(pick(g, "list", "option", "future"), "<")
		sub()
		t.add(">")
	case 2, 3:
		t.add(pick(g, "result", "stream"), "<")
		if g.Chance(0.3) {
			t.add("_", ",")
			sub()
		} else {
			sub()
			if g.Chance(0.6) {
				t.add(",")
				sub()
			}
		}
		t.add(">")
	case 4, 5:
		t.add("tuple", "<")
		t.commas(g, pick(g, 0, 1, 1, 1), 4, sub)
		t.add(">")
	case 6:
		t.add(pick(g, "own", "borrow"), "<", witID(g), ">")
	}
}

func (t *tokens) witParams(g *Gen) {
	t.add("(")
	t.commas(g, 0, 3, func() {
		t.add(witID(g), ":")
		t.witType(g, g.Intn(4))
	})
	t.add(")")
}

func (t *tokens) witFunc(g *Gen) {
	t.add("func")
	t.witParams(g)
	if g.Chance(0.6) {
		t.add("->")
		if g.Chance(0.4) {
			t.witParams(g)
		} else {
			t.witType(g, g.Intn(4))
		}
	}
	t.add(";")
}

func (t *tokens) witVersion(g *Gen) {
	if g.Chance(0.5) {
		return
	}
	num := func() string {
		return pick(g, "0", "1", "2", "10", "007", "18446744073709551615", fmt.Sprint(g.Uint64()))
	}
	t.add("@", num(), ".", num(), ".", num())
}

func (t *tokens) witPath(g *Gen) {
	if g.Chance(0.5) {
		t.add(witID(g))
		return
	}
	t.add(witID(g), ":", witID(g), "/", witID(g))
	t.witVersion(g)
}

func (t *tokens) witDef(g *Gen) {
	few := pick(g, 0, 1, 1, 1)
	switch k := pick(g, "resource", "resource", "record", "flags", "variant", "enum", "type", "use"); k {
	case "resource":
		t.add(k, witID(g))
		if g.Chance(0.3) {
			t.add(";")
			return
		}
		t.add("{")
		for n := g.Intn(4); n > 0; n-- {
			switch g.Intn(4) {
			case 0:
				t.add("constructor")
				t.witParams(g)
				t.add(";")
			case 1:
				t.add(witID(g), ":", "static")
				t.witFunc(g)
			default:
				t.add(witID(g), ":")
				t.witFunc(g)
			}
		}
		t.add("}")
	case "type":
		t.add(k, witID(g), "=")
		t.witType(g, g.Intn(5))
		t.add(";")
	case "use":
		t.add(k)
		t.witPath(g)
		t.add(".", "{")
		t.commas(g, few, 3, func() {
			t.add(witID(g))
			if g.Chance(0.4) {
				t.add("as", witID(g))
			}
		})
		t.add("}", ";")
	default:
		t.add(k, witID(g), "{")
		t.commas(g, few, 4, func() {
			t.add(witID(g))
			if k == "record" {
				t.add(":")
				t.witType(g, g.Intn(4))
			}
			if k == "variant" && g.Chance(0.5) {
				t.add("(")
				t.witType(g, g.Intn(4))
				t.add(")")
			}
		})
		t.add("}")
	}
}

func (t *tokens) witItems(g *Gen, n int) {
	t.add("{")
	t.times(g, g.Intn(n+1), func() {
		if g.Chance(0.4) {
			t.add(witID(g), ":")
			t.witFunc(g)
		} else {
			t.witDef(g)
		}
	})
	t.add("}")
}

func (t *tokens) document(g *Gen) {
	if g.Chance(0.3) {
		t.add("package", witID(g), ":", witID(g))
		t.witVersion(g)
		t.add(";")
	}
	for n := pick(g, 0, 1, 1, 1, 2, 3); n > 0; n-- {
		switch g.Intn(5) {
		case 0:
			t.add("use")
			t.witPath(g)
			if g.Chance(0.4) {
				t.add("as", witID(g))
			}
			t.add(";")
		case 1, 2:
			t.add("interface", witID(g))
			t.witItems(g, 4)
		default:
			t.add("world", witID(g), "{")
			for k := g.Intn(5); k > 0; k-- {
				switch g.Intn(4) {
				case 0, 1:
					t.add(pick(g, "import", "export"))
					switch g.Intn(3) {
					case 0:
						t.add(witID(g), ":")
						t.witFunc(g)
					case 1:
						t.add(witID(g), ":", "interface")
						t.witItems(g, 2)
					default:
						t.witPath(g)
						t.add(";")
					}
				case 2:
					t.add("include")
					t.witPath(g)
					if g.Chance(0.5) {
						t.add(";")
						continue
					}
					t.add("with", "{")
					t.commas(g, pick(g, 0, 1, 1, 1), 3, func() { t.add(witID(g), "as", witID(g)) })
					t.add("}")
				default:
					t.witDef(g)
				}
			}
			t.add("}")
		}
	}
}

func init() { drivers["C21"] = witParseDriver{} }
