package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/wat"
)

// WatDecIn decodes a text that arrives in pieces; a broken reader fails after
// Fail bytes, perhaps once only.  The decoder may have been used before.
type WatDecIn struct {
	Before string `json:"before"`
	Bs     Ints   `json:"bs"`
	Mode   int    `json:"mode"`
	Broken bool   `json:"broken"`
	Fail   int    `json:"fail"`
	Once   bool   `json:"once"`
}

type WatDecOut struct {
	St string `json:"st"`
	K  string `json:"k"`
}

type watDecDriver struct{}

func (watDecDriver) Run(raw json.RawMessage) any {
	var in WatDecIn
	must(json.Unmarshal(raw, &in))
	var r io.Reader = newChunks(intBytes(in.Bs), in.Mode)
	if in.Broken {
		r = &failing{r: r, n: in.Fail, once: in.Once}
	}
	decoder := wat.NewDecoder(r)
	if in.Before != "" {
		decoder.Decode(strings.NewReader(in.Before))
	}
	d, err := decoder.Decode(r)
	if err != nil {
		return WatDecOut{St: "err"}
	}
	switch d.(type) {
	case *api.Module:
		return WatDecOut{"ok", "module"}
	case *api.Component:
		return WatDecOut{"ok", "component"}
	}
	return WatDecOut{"ok", "neither"}
}

func (d watDecDriver) Gen(g *Gen, emit func(string, any)) {
	put := func(kind string, in any) {
		x := WatDecIn{Bs: in.(TreeIn).Bs, Mode: pick(g, 0, 0, 1, 2, 7, -1, -5, 100, 103), Broken: g.Chance(0.1)}
		if x.Broken {
			x.Once = g.Chance(0.5)
			if x.Mode < 0 {
				x.Mode = -x.Mode // the end must not come before the failure
			}
			if x.Fail = len(x.Bs); g.Chance(0.5) {
				x.Fail = g.Intn(len(x.Bs) + 1)
			}
		}
		if g.Chance(0.1) {
			x.Before = pick(g, "(module", "(module)", "(component)", "(module (func)) ", ")", " ", "(module $a (memory 1))")
		}
		emit(kind, x)
	}
	g.EachScript(func(line []byte) {
		var s struct {
			Kind string
			T    []string
		}
		must(json.Unmarshal(line, &s))
		put("model/"+s.Kind, TreeIn{byteInts(watText.layout(g, s.T, 0.1))})
	})
	for n := g.N(250, 5000); n > 0; n-- {
		toks := watModule(g)
		if g.Chance(0.05) {
			toks = []string{"(", "component", ")"}
		}
		watText.emit(g, toks, put)
	}
	if n := pick(g, 5000, 33000, 66000, 132000); g.Shard == 0 {
		// much more than one buffer of a reader
		fill := pick(g, " ", "\n", ";;"+strings.Repeat("-", n)+"\n")
		if len(fill) == 1 {
			fill = strings.Repeat(fill, n)
		}
		emit("huge", WatDecIn{Bs: byteInts([]byte("(module" + fill + pick(g, "(func))", "(func)", "(memory 1 2))", ")", ""))), Mode: pick(g, 0, 0, 1, -5)})
	}
	for n := g.N(1, 2); n > 0; n-- {
		// more than one buffer of a reader
		t := []string{"(", "module"}
		for len(t) < 500 {
			t = append(t, "(", "func", ")")
		}
		watText.emit(g, append(t, ")"), put)
	}
}

func init() { drivers["C25"] = watDecDriver{} }
