package main

import (
	"encoding/json"
	"strings"
)

// ---- histories of lexers ----

type LexOp struct {
	Op string `json:"op"`
	L  int    `json:"l"`
}

type LexIn struct {
	Bs  Ints       `json:"bs"`
	Ops Seq[LexOp] `json:"ops"`
}

type LexTok struct {
	St   string `json:"st"`
	T    string `json:"t"`
	Pos  int    `json:"pos"`
	Line int    `json:"line"`
	Col  int    `json:"col"`
	Cap  Ints   `json:"cap"`
}

type LexObs struct {
	St   string      `json:"st"`
	Toks Seq[LexTok] `json:"toks"`
}

type LexOut struct {
	St  string      `json:"st"`
	Obs Seq[LexObs] `json:"obs"`
}

// lexer is one lexer of either language.
type lexer interface {
	next() LexTok
	peek() LexTok
	clone() lexer
}

// span says how long tokens are made.
type span struct {
	open, shut string
	fill       []string
	nests      bool
}

type lexDriver struct {
	spans []span
	open  func(text string) lexer
	// atoms are glued together to make texts
	atoms []string
}

func (d lexDriver) Run(raw json.RawMessage) any {
	var in LexIn
	must(json.Unmarshal(raw, &in))
	text := string(intBytes(in.Bs))
	ls := []lexer{d.open(text)}
	out := LexOut{St: "ok"}
	for _, op := range in.Ops {
		l := ls[op.L-1]
		o := LexObs{St: "ok"}
		switch op.Op {
		case "next":
			o.Toks = append(o.Toks, l.next())
		case "peek":
			o.Toks = append(o.Toks, l.peek())
		case "clone":
			ls = append(ls, l.clone())
		case "drain":
			for end := 0; end < 2 && len(o.Toks) < len(text)+4; {
				t := l.next()
				o.Toks = append(o.Toks, t)
				if t.St != "ok" {
					break
				}
				if t.T == "eof" {
					end++
				}
			}
		}
		out.Obs = append(out.Obs, o)
	}
	return out
}

var drain = Seq[LexOp]{{"drain", 1}}

func (d lexDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var in LexIn
		must(json.Unmarshal(line, &in))
		if len(in.Ops) == 1 {
			emit("model/text", in)
		} else {
			emit("model/history", in)
		}
	})
	if g.Shard < g.N(8, 64) {
		s := pick(g, d.atoms...) + d.span(g, pick(g, 9000, 70000, 140000)) + pick(g, d.atoms...)
		emit("huge", LexIn{Bs: byteInts([]byte(s)), Ops: drain})
	}
	for n := g.N(4, 40); n > 0; n-- {
		s := ""
		for k := 200 + g.Intn(100); k > 0; k-- {
			if g.Chance(0.01) {
				s += d.span(g, 400)
			} else if a := pick(g, d.atoms...); d.harmless(a) {
				s += a + pick(g, " ", " ", "\n")
			}
		}
		emit("long", LexIn{Bs: byteInts([]byte(s)), Ops: drain})
		s = strings.Repeat(pick(g, "\n", " ", "\n "), pick(g, 0, 300, 1000)) + s
		in := LexIn{Bs: byteInts([]byte(s))}
		for k := g.Intn(400); k > 0; k-- {
			in.Ops = append(in.Ops, LexOp{"next", 1})
		}
		in.Ops = append(in.Ops, LexOp{"peek", 1}, LexOp{"clone", 1}, LexOp{"next", 1}, LexOp{"peek", 1}, LexOp{"clone", 2})
		for l := 1; l <= 3; l++ {
			in.Ops = append(in.Ops, LexOp{"drain", l})
		}
		emit("long/history", in)
	}
	for n := g.N(2500, 40000); n > 0; n-- {
		emit("text", LexIn{Bs: byteInts([]byte(d.text(g, 1+g.Intn(30)))), Ops: drain})
	}
	for n := g.N(1200, 20000); n > 0; n-- {
		in := LexIn{Bs: byteInts([]byte(d.text(g, g.Intn(20))))}
		lexers := 1
		for k := 1 + g.Intn(40); k > 0; k-- {
			op := LexOp{pick(g, "next", "next", "next", "peek", "peek", "clone"), 1 + g.Intn(lexers)}
			if op.Op == "clone" {
				if lexers == 4 {
					continue
				}
				lexers++
			}
			in.Ops = append(in.Ops, op)
		}
		for l := 1; l <= lexers; l++ {
			in.Ops = append(in.Ops, LexOp{"drain", l})
		}
		emit("history", in)
	}
}

func (d lexDriver) text(g *Gen, n int) string {
	s := ""
	for ; n > 0; n-- {
		if g.Chance(0.003) {
			s += d.span(g, 400)
		} else {
			s += pick(g, d.atoms...)
		}
	}
	return s
}

// harmless tells if reading goes on behind the text; long texts are made of
// those so that most of them are read.
func (d lexDriver) harmless(text string) bool {
	l := d.open(text)
	for n := len(text); n >= 0; n-- {
		if t := l.next(); t.St != "ok" || t.T == "eof" {
			return t.St == "ok"
		}
	}
	return false
}

// span is one long or deeply nested token.
func (d lexDriver) span(g *Gen, size int) string {
	sp := pick(g, d.spans...)
	if sp.nests && g.Chance(0.5) {
		n := 2 + g.Intn(40)
		return strings.Repeat(sp.open, n) + strings.Repeat(sp.shut, n-g.Intn(12)/11)
	}
	s := []byte(sp.open)
	for n := size/20 + g.Intn(size); n > 0; n-- {
		s = append(s, pick(g, sp.fill...)...)
	}
	return string(append(s, sp.shut...))
}
