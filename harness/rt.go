package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/runtime"
)

type StoreExp struct {
	Name string
	Idx  Ints
}

func (e StoreExp) MarshalJSON() ([]byte, error) { return json.Marshal([]any{e.Name, e.Idx}) }
func (e *StoreExp) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&e.Name, &e.Idx})
}

type StoreMod struct {
	N    int           `json:"n"`
	Exps Seq[StoreExp] `json:"exps"`
}

type StoreStep struct {
	S int `json:"s"`
	M int `json:"m"`
}

type StoreIn struct {
	Stores int            `json:"stores"`
	Mods   Seq[StoreMod]  `json:"mods"`
	Names  Seq[string]    `json:"names"`
	Steps  Seq[StoreStep] `json:"steps"`
}

type StoreInst struct {
	A Ints `json:"a"`
	X Ints `json:"x"`
}

type StoreEv struct {
	OK  int            `json:"ok"`
	Fs  Seq[Seq[Ints]] `json:"fs"`
	Ins Seq[StoreInst] `json:"ins"`
}

type StoreOut struct {
	St string       `json:"st"`
	Ev Seq[StoreEv] `json:"ev"`
}

type storeDriver struct{}

func (storeDriver) Run(raw json.RawMessage) any {
	var in StoreIn
	if err := json.Unmarshal(raw, &in); err != nil {
		fail(err)
	}
	id := map[*api.Func]Ints{}
	var mods []*api.Module
	for m, d := range in.Mods {
		mod := &api.Module{}
		for k := 0; k < d.N; k++ {
			f := &api.Func{Body: &api.Expression{}}
			id[f] = Ints{m + 1, k + 1}
			mod.Funcs = append(mod.Funcs, f)
		}
		for _, e := range d.Exps {
			mod.Exports = append(mod.Exports, api.Export{Name: e.Name,
				Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(ule(e.Idx))}})
		}
		mods = append(mods, mod)
	}
	name := func(f any) Ints {
		var fn *api.Func
		switch x := f.(type) {
		case *api.Func:
			fn = x
		case *instance.ModuleFunction:
			if x != nil {
				fn = x.Code
			}
		case instance.ModuleFunction:
			fn = x.Code
		default:
			return Ints{0, 0}
		}
		if n, ok := id[fn]; ok {
			return n
		}
		return Ints{-1, -1}
	}
	stores := make([]*runtime.Store, in.Stores)
	for i := range stores {
		stores[i] = &runtime.Store{}
	}
	var insts []*runtime.ModuleInstance
	out := StoreOut{St: "ok"}
	for _, s := range in.Steps {
		ev := StoreEv{}
		inst, err := runtime.NewModuleInstance(stores[s.S-1], mods[s.M-1])
		if err == nil {
			ev.OK = 1
			insts = append(insts, inst)
		}
		for _, st := range stores {
			fs := Seq[Ints]{}
			for _, f := range st.Funcs {
				fs = append(fs, name(f))
			}
			ev.Fs = append(ev.Fs, fs)
		}
		for _, i := range insts {
			x := StoreInst{}
			for _, a := range i.FunctionAddresses {
				x.A = append(x.A, int(a))
			}
			for _, n := range in.Names {
				r := -1
				if e, ok := i.GetExport(n); ok {
					r = -2
					if a, ok := e.Value.(address.Function); ok {
						r = int(a)
					}
				}
				x.X = append(x.X, r)
			}
			ev.Ins = append(ev.Ins, x)
		}
		out.Ev = append(out.Ev, ev)
	}
	return out
}

func (storeDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var in StoreIn
		if err := json.Unmarshal(line, &in); err != nil {
			fail(err)
		}
		emit("model", in)
	})
	for n := g.N(200, 3000); n > 0; n-- {
		in := StoreIn{Stores: 1 + g.Intn(3)}
		for k := 0; k < 8; k++ {
			in.Names = append(in.Names, pick(g, "", "run", "a", "b", "_start", "é", "memory")+fmt.Sprint(k))
		}
		if g.Chance(0.2) {
			// long names that differ in one place only
			for k := range in.Names {
				name := []byte(strings.Repeat("a", 1+g.Intn(100)))
				if k > 0 && g.Chance(0.7) {
					name = []byte(in.Names[k-1])
				}
				name[g.Intn(len(name))] = 'A' + byte(k)
				in.Names[k] = string(name)
			}
		}
		in.Names = append(in.Names, "")
		for k := 1 + g.Intn(6); k > 0; k-- {
			m := StoreMod{N: g.Intn(6)}
			if g.Chance(0.1) {
				m.N = 20 + g.Intn(20)
			}
			bad := g.Chance(0.15)
			for _, name := range in.Names {
				if g.Chance(0.6) {
					continue
				}
				ix := uint32(g.Intn(m.N + 1))
				if int(ix) == m.N && !bad {
					if m.N == 0 {
						continue
					}
					ix--
				}
				if bad && g.Chance(0.1) {
					ix = pick(g, uint32(1<<31), 1<<32-1, uint32(m.N))
				}
				m.Exps = append(m.Exps, StoreExp{name, u32b(ix)})
			}
			in.Mods = append(in.Mods, m)
		}
		for k := 1 + g.Intn(12); k > 0; k-- {
			in.Steps = append(in.Steps, StoreStep{1 + g.Intn(in.Stores), 1 + g.Intn(len(in.Mods))})
		}
		emit("random", in)
	}
}

func init() { drivers["C22"] = storeDriver{} }
