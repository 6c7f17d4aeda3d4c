package main

import (
	"encoding/json"
	"reflect"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
)

// AbiIn is one use of the Canonical ABI functions.
type AbiIn struct {
	Op   string     `json:"op"`
	T    *T         `json:"t,omitempty"`
	Ps   *Seq[*T]   `json:"ps,omitempty"`
	Rs   *Seq[*T]   `json:"rs,omitempty"`
	Dir  string     `json:"dir,omitempty"`
	MaxP int        `json:"maxp"`
	MaxR int        `json:"maxr"`
	V    *V         `json:"v,omitempty"`
	Vs   *Seq[*V]   `json:"vs,omitempty"`
	P    Ints       `json:"p"`
	Mem  Ints       `json:"mem"`
	Enc  string     `json:"enc"`
	Heap int        `json:"heap"`
	Gr   Seq[Grant] `json:"gr"`
	Ill  int        `json:"ill"`
	Impl Ints       `json:"impl"` // implementing instance per resource type
	Pre  Seq[PreH]  `json:"pre"`  // handles made before, in instance 1
	F    Seq[Core]  `json:"f"`
	Out  Seq[Ints]  `json:"out"` // <<>> or <<address>> where results go
	Str  Ints       `json:"str"`
}

type PreH struct {
	R   int  `json:"r"`
	Rep Ints `json:"rep"`
}

// HElem is a handle as the specification sees it.
type HElem struct {
	Rep  Ints `json:"rep"`
	Own  int  `json:"own"`
	Lend int  `json:"lend"`
	Sc   int  `json:"sc"`
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// fieldOf reads a field of the handle by name; ok is false if there is none.
func fieldOf(e any, name string) (reflect.Value, bool) {
	f := reflect.Indirect(reflect.ValueOf(e)).FieldByName(name)
	return f, f.IsValid() && f.CanInterface()
}

// tables shows the slots of every table of every instance; what cannot be seen
// is -1.
func (w *World) tables(scopes []*types.CallContext) Seq[Seq[Seq[Seq[HElem]]]] {
	res := Seq[Seq[Seq[Seq[HElem]]]]{}
	for _, inst := range w.Insts {
		is := Seq[Seq[Seq[HElem]]]{}
		for _, rt := range w.Rts {
			ts := Seq[Seq[HElem]]{}
			tab := inst.Handles.Table(rt)
			for i, e := range tab.Array {
				s := Seq[HElem]{}
				if rep, err := io.CanonResourceRep(inst, rt, uint32(i)); err == nil {
					h := HElem{u32b(rep), -1, -1, -1}
					if e != nil {
						if f, ok := fieldOf(e, "Own"); ok && f.Kind() == reflect.Bool {
							h.Own = b2i(f.Bool())
						}
						if f, ok := fieldOf(e, "LendCount"); ok && f.CanInt() {
							h.Lend = int(f.Int())
						}
						if f, ok := fieldOf(e, "Scope"); ok {
							if c, ok := f.Interface().(*types.CallContext); ok {
								h.Sc = 0
								if c != nil {
									h.Sc = 99
									for i, x := range scopes {
										if c == x {
											h.Sc = i + 1
										}
									}
								}
							}
						}
					}
					s = append(s, h)
				}
				ts = append(ts, s)
			}
			is = append(is, ts)
		}
		res = append(res, is)
	}
	return res
}

// AbiOut is what was observed.
type AbiOut struct {
	St  string                    `json:"st"`
	Al  int                       `json:"al"`
	Sz  int                       `json:"sz"`
	Sst string                    `json:"sst"` // outcome of the size query
	Fl  Seq[string]               `json:"fl"`
	Fr  Seq[string]               `json:"fr"`
	Mem Ints                      `json:"mem"`
	R   Seq[ReallocCall]          `json:"R"`
	H   Seq[Seq[Seq[Seq[HElem]]]] `json:"h"`
	F   Seq[Core]                 `json:"f"`
	V   Seq[*V]                   `json:"v"`  // value(s) returned, <<>> if none
	V2  Seq[*V]                   `json:"v2"` // value(s) read back
	S2  string                    `json:"s2"` // outcome of reading back
	N   int                       `json:"n"`  // core values consumed
	Bs  Ints                      `json:"bs"`
}

func (t *T) out(x any, st *string) Seq[*V] {
	v, err := t.FromGo(x)
	if err != nil {
		*st = "shape"
		return nil
	}
	return Seq[*V]{v}
}

func outs(ts []*T, xs []any, st *string) Seq[*V] {
	if len(ts) != len(xs) {
		*st = "shape"
		return nil
	}
	r := Seq[*V]{}
	for i, t := range ts {
		v, err := t.FromGo(xs[i])
		if err != nil {
			*st = "shape"
			return nil
		}
		r = append(r, v)
	}
	return r
}

func fits(x uint32) int { return clampInt(x) }

type abiDriver struct {
	gen func(g *Gen, emit func(string, any))
}

func (d abiDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var in AbiIn
		if err := json.Unmarshal(line, &in); err != nil {
			fail(err)
		}
		emit("spec:"+in.Op, &in)
	})
	d.gen(g, emit)
}

func (d abiDriver) Run(raw json.RawMessage) any {
	var in AbiIn
	if err := json.Unmarshal(raw, &in); err != nil {
		panic("harness: " + err.Error())
	}
	return runAbi(&in)
}

func runAbi(in *AbiIn) (res *AbiOut) {
	w := newWorld(2, in.Impl)
	o := &AbiOut{St: "ok", Sst: "ok", S2: "none"}
	alloc := &Alloc{next: uint32(in.Heap), grants: in.Gr}
	mem := intBytes(in.Mem)
	opts := options(mem, in.Enc, alloc)
	cx := &types.CallContext{Options: opts, Instance: w.Insts[0]}
	snap := func() {
		o.Mem = byteInts(opts.Memory.Bytes())
		o.R = alloc.Calls
		o.H = w.tables([]*types.CallContext{cx})
	}
	defer func() {
		if p := recover(); p != nil {
			// a panic of the code: keep the memory as it was left
			if s, ok := p.(string); ok && len(s) > 8 && s[:8] == "harness:" {
				panic(p)
			}
			o.St = "panic"
			snap()
			res = o
		}
	}()
	for _, p := range in.Pre {
		io.CanonResourceNew(w.Insts[0], w.Rts[p.R-1], uint32(ule(p.Rep)))
	}
	goTypes := func(ts *Seq[*T]) []types.ValType {
		r := []types.ValType{}
		for _, t := range *ts {
			r = append(r, t.Go(w))
		}
		return r
	}
	goVals := func() []any {
		r := []any{}
		for i, v := range *in.Vs {
			if i < len(*in.Ps) {
				r = append(r, (*in.Ps)[i].ToGo(v))
			} else {
				r = append(r, uint32(7)) // one value too many
			}
		}
		return r
	}
	iter := func(f Seq[Core]) values.ValueIterator {
		var vs []values.Value
		for _, c := range f {
			vs = append(vs, c.Go())
		}
		return values.NewIterator(vs...)
	}
	p := uint32(ule(in.P))
	switch in.Op {
	case "layout":
		gt := in.T.Go(w)
		a, err := io.Alignment(gt)
		o.St, o.Al = outcome(err), fits(a)
		s, err := io.Size(gt)
		o.Sst, o.Sz = outcome(err), fits(s)
	case "disc":
		v := in.T.Go(w)
		dv, ok := io.Despecialize(v).(types.Variant)
		if !ok {
			o.St = "shape"
			break
		}
		dt, err := io.DiscriminantType(dv.Cases())
		o.St = outcome(err)
		switch dt.(type) {
		case types.U8:
			o.Al = 1
		case types.U16:
			o.Al = 2
		case types.U32:
			o.Al = 4
		}
	case "flat":
		ks, err := io.FlattenType(in.T.Go(w))
		o.St, o.Fl = outcome(err), kinds(ks)
		ks, err = io.FlattenTypes([]types.ValType{types.NewU64(), in.T.Go(w), types.NewF32()})
		o.S2, o.Fr = outcome(err), kinds(ks)
	case "sig":
		params := func(ts *Seq[*T]) []types.Parameter {
			r := []types.Parameter{}
			for i, t := range goTypes(ts) {
				r = append(r, types.Parameter{Name: string(rune(0x61 + i%26)), Type: t})
			}
			return r
		}
		ft := types.NewFuncType(params(in.Ps), params(in.Rs))
		f := io.FlattenFuncTypeLift
		if in.Dir == "lower" {
			f = io.FlattenFuncTypeLower
		}
		cf, err := f(ft, in.MaxP, in.MaxR)
		o.St = outcome(err)
		if err == nil {
			o.Fl, o.Fr = kinds(cf.Params()), kinds(cf.Results())
		}
	case "store":
		gt := in.T.Go(w)
		err := io.Store(cx, in.T.ToGo(in.V), gt, p)
		o.St = outcome(err)
		snap()
		if err == nil {
			x, err := io.Load(cx, gt, p)
			o.S2 = outcome(err)
			if err == nil {
				o.V2 = in.T.out(x, &o.S2)
			}
		}
		return o
	case "load":
		x, err := io.Load(cx, in.T.Go(w), p)
		o.St = outcome(err)
		if err == nil {
			o.V = in.T.out(x, &o.St)
		}
	case "lower":
		gt := in.T.Go(w)
		fl, err := io.LowerFlat(cx, in.T.ToGo(in.V), gt)
		o.St = outcome(err)
		if err == nil {
			o.F = cores(fl)
		}
		snap()
		if err == nil {
			vi := values.NewIterator(fl...)
			x, err := io.LiftFlat(cx, vi, gt)
			o.S2, o.N = outcome(err), vi.Index()
			if err == nil {
				o.V2 = in.T.out(x, &o.S2)
			}
		}
		return o
	case "lift":
		vi := iter(in.F)
		x, err := io.LiftFlat(cx, vi, in.T.Go(w))
		o.St, o.N = outcome(err), vi.Index()
		if err == nil {
			o.V = in.T.out(x, &o.St)
		}
	case "lowervals":
		var out values.ValueIterator
		if len(in.Out) > 0 {
			out = values.NewIterator(values.U32(uint32(ule(in.Out[0]))))
		}
		fl, err := io.LowerValues(cx, in.MaxP, goVals(), goTypes(in.Ps), out)
		o.St = outcome(err)
		if err == nil {
			for _, x := range fl {
				o.F = append(o.F, coreOf(x))
			}
		}
	case "liftvals":
		xs, err := io.LiftValues(cx, in.MaxP, iter(in.F), goTypes(in.Ps))
		o.St = outcome(err)
		if err == nil {
			o.V = outs(*in.Ps, xs, &o.St)
		}
	case "encode":
		codec, err := encoding.DefaultFactory().Get(encodingOf(in.Enc))
		if err != nil {
			o.St = "err"
			break
		}
		o.Al, o.Sz = codec.Alignment(), codec.RuneSize()
		b, err := encoding.EncodeString(codec, prim("string").ToGo(&V{N: in.Str}).(string))
		o.St, o.Bs = outcome(err), byteInts(b)
		if err == nil {
			s, err := encoding.DecodeString(codec, newChunks(b, in.MaxP))
			o.S2 = outcome(err)
			if err == nil {
				o.V2 = prim("string").out(s, &o.S2)
			}
		}
	default:
		panic("harness: op " + in.Op)
	}
	snap()
	return o
}
