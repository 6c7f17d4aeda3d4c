package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"
)

type CoreVal struct {
	K string `json:"k"`
	B Ints   `json:"b"`
}

type CoreView struct {
	Of int         `json:"of"`
	Ks Seq[string] `json:"ks"`
}

type CoreTake struct {
	V    int    `json:"v"`
	Want string `json:"want"`
}

// CoreIn takes values from an iterator and from views of it, or asks for a zero
type CoreIn struct {
	Vals  Seq[CoreVal]  `json:"vals"`
	Views Seq[CoreView] `json:"views"`
	Ops   Seq[CoreTake] `json:"ops"`
	Zero  string        `json:"zero"`
}

type CoreEv struct {
	OK  int    `json:"ok"`
	K   string `json:"k"`
	B   Ints   `json:"b"`
	Idx Ints   `json:"idx"`
	Len Ints   `json:"len"`
}

type CoreOut struct {
	St string      `json:"st"`
	Ev Seq[CoreEv] `json:"ev"`
}

var coreKindNames = []string{"U32", "U64", "Float32", "Float64"}

var coreKindOf = map[string]kind.Kind{
	"U32": kind.U32, "U64": kind.U64, "Float32": kind.Float32, "Float64": kind.Float64, "other": kind.Kind(77),
}

func coreValue(v CoreVal) values.Value {
	n := ule(v.B)
	switch v.K {
	case "U32":
		return values.U32(n)
	case "U64":
		return values.U64(n)
	case "Float32":
		return values.Float32(math.Float32frombits(uint32(n)))
	}
	return values.Float64(math.Float64frombits(n))
}

// coreBits tells the kind and the bytes of what an iterator gave
func coreBits(x any) (string, Ints) {
	switch v := x.(type) {
	case uint32:
		return "U32", le(uint64(v), 4)
	case uint64:
		return "U64", le(v, 8)
	case float32:
		return "Float32", le(uint64(math.Float32bits(v)), 4)
	case float64:
		return "Float64", le(math.Float64bits(v), 8)
	}
	return fmt.Sprintf("%T", x), nil
}

type coreDriver struct{}

func (coreDriver) Run(raw json.RawMessage) any {
	var in CoreIn
	must(json.Unmarshal(raw, &in))
	out := CoreOut{St: "ok"}
	if in.Zero != "" {
		v, err := values.Zero(coreKindOf[in.Zero])
		ev := CoreEv{}
		if err == nil {
			ev.OK = 1
			ev.K, ev.B = coreBits(v.Value())
			if v.Kind() != coreKindOf[in.Zero] {
				ev.K = "wrong kind"
			}
		}
		out.Ev = append(out.Ev, ev)
		return out
	}
	var vals []values.Value
	for _, v := range in.Vals {
		vals = append(vals, coreValue(v))
	}
	sources := []values.ValueIterator{values.NewIterator(vals...)}
	for _, v := range in.Views {
		var ks []kind.Kind
		for _, k := range v.Ks {
			ks = append(ks, coreKindOf[k])
		}
		sources = append(sources, values.NewCoerceValueIterator(sources[v.Of], ks))
	}
	for _, op := range in.Ops {
		x, err := sources[op.V].Next(coreKindOf[op.Want])
		ev := CoreEv{}
		if err == nil {
			ev.OK = 1
			ev.K, ev.B = coreBits(x)
		}
		for _, s := range sources {
			ev.Idx = append(ev.Idx, s.Index())
			ev.Len = append(ev.Len, s.Length())
		}
		out.Ev = append(out.Ev, ev)
		if err != nil {
			break
		}
	}
	return out
}

func (coreDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var in CoreIn
		must(json.Unmarshal(line, &in))
		emit("model", in)
	})
	for _, k := range append(coreKindNames, "other") {
		if g.Mine() {
			emit("zero", CoreIn{Zero: k})
		}
	}
	for n := g.N(1500, 20000); n > 0; n-- {
		in := CoreIn{}
		for k := g.Intn(8); k > 0; k-- {
			name := pick(g, coreKindNames...)
			width := 8
			if name == "U32" || name == "Float32" {
				width = 4
			}
			u := pick(g, g.Uint64(), g.Uint64(), uint64(math.Float32bits(float32(g.NormFloat64()))), math.Float64bits(g.NormFloat64()),
				0x7fc00000, 0x7f800001, 0x7ff8000000000000, 0x7ff0000000000001, 0, 1<<63, 1<<31, math.MaxUint64, uint64(g.Intn(300)))
			in.Vals = append(in.Vals, CoreVal{name, le(u, width)})
		}
		for k := g.Intn(4); k > 0; k-- {
			v := CoreView{Of: g.Intn(len(in.Views) + 1)}
			for i := 0; i < 6 && i < 3+len(in.Vals); i++ {
				name := pick(g, coreKindNames...)
				if v.Of == 0 && i < len(in.Vals) && g.Chance(0.9) {
					name = in.Vals[i].K
				}
				v.Ks = append(v.Ks, name)
			}
			in.Views = append(in.Views, v)
		}
		// mostly what works: follow the kinds that the source has next
		at := make([]int, len(in.Views)+1)
		for k := g.Intn(10); k > 0; k-- {
			op := CoreTake{V: g.Intn(len(in.Views) + 1)}
			have := ""
			if op.V > 0 && at[op.V] < len(in.Views[op.V-1].Ks) {
				have = in.Views[op.V-1].Ks[at[op.V]]
				if of := in.Views[op.V-1].Of; of == 0 && at[0] < len(in.Vals) && g.Chance(0.9) {
					have = in.Vals[at[0]].K
					in.Views[op.V-1].Ks[at[op.V]] = have
				}
			} else if op.V == 0 && at[0] < len(in.Vals) {
				have = in.Vals[at[0]].K
			}
			switch {
			case have == "" || g.Chance(0.05):
				op.Want = pick(g, append(coreKindNames, "other")...)
			case op.V > 0 && have == "U64":
				op.Want = pick(g, coreKindNames...)
			case op.V > 0 && have == "U32":
				op.Want = pick(g, "U32", "Float32")
			default:
				op.Want = have
			}
			for v := op.V; v > 0; v = in.Views[v-1].Of {
				at[v]++
			}
			at[0]++
			in.Ops = append(in.Ops, op)
		}
		emit("random", in)
	}
}

func init() { drivers["C24"] = coreDriver{} }
