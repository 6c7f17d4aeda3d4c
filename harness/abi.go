package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
)

// T is a component value type as the specification sees it.
type T struct {
	K   string   `json:"k"`
	E   *T       `json:"e,omitempty"`
	Ts  *Seq[*T] `json:"ts,omitempty"`
	Cs  *Seq[C]  `json:"cs,omitempty"`
	Pad *int     `json:"pad,omitempty"`
	N   *int     `json:"n,omitempty"`
	A   *Seq[*T] `json:"a,omitempty"`
	B   *Seq[*T] `json:"b,omitempty"`
	Rt  int      `json:"rt,omitempty"`
}

// C is a variant case.
type C struct {
	L int     `json:"l"`
	T Seq[*T] `json:"t"`
	R Ints    `json:"r"`
}

const padLabel = 1000000

func prim(k string) *T            { return &T{K: k} }
func tList(e *T) *T               { return &T{K: "list", E: e} }
func tRec(k string, ts ...*T) *T  { s := Seq[*T](ts); return &T{K: k, Ts: &s} }
func tOpt(e *T) *T                { return &T{K: "option", E: e} }
func tN(k string, n int) *T       { return &T{K: k, N: &n} }
func tRes(a, b Seq[*T]) *T        { return &T{K: "result", A: &a, B: &b} }
func tVar(pad int, cs ...C) *T    { s := Seq[C](cs); return &T{K: "variant", Cs: &s, Pad: &pad} }
func tHandle(k string, rt int) *T { return &T{K: k, Rt: rt} }

func caseLabel(l int) string {
	if l >= padLabel {
		return "p" + strconv.Itoa(l-padLabel)
	}
	return "c" + strconv.Itoa(l)
}

func fieldLabel(t *T, i int) string {
	if t.K == "tuple" {
		return strconv.Itoa(i)
	}
	return "f" + strconv.Itoa(i)
}

// World holds the Go objects behind instance and resource type numbers.
type World struct {
	Insts []*types.ComponentInstance
	Rts   []types.ResourceType
	Impl  []int // implementing instance per resource type, from 1
	Dtor  Seq[Seq[Ints]]
}

func newWorld(n int, impl []int) *World {
	w := &World{Impl: impl}
	for i := 0; i < n; i++ {
		w.Insts = append(w.Insts, &types.ComponentInstance{
			MayEnter: true, MayLeave: true,
			Handles: types.HandleTables{ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{}},
		})
	}
	for r, i := range impl {
		r := r
		w.Rts = append(w.Rts, types.NewResourceType(func(rep uint32) {
			w.Dtor = append(w.Dtor, Seq[Ints]{Ints{r + 1}, u32b(rep)})
		}, w.Insts[i-1]))
	}
	return w
}

// Go builds the implementation's type.
func (t *T) Go(w *World) types.ValType {
	sub := func(ts *Seq[*T]) []types.ValType {
		r := []types.ValType{}
		for _, x := range *ts {
			r = append(r, x.Go(w))
		}
		return r
	}
	one := func(ts *Seq[*T]) types.ValType {
		if ts == nil || len(*ts) == 0 {
			return nil
		}
		return (*ts)[0].Go(w)
	}
	switch t.K {
	case "bool":
		return types.NewBool()
	case "u8":
		return types.NewU8()
	case "u16":
		return types.NewU16()
	case "u32":
		return types.NewU32()
	case "u64":
		return types.NewU64()
	case "s8":
		return types.NewS8()
	case "s16":
		return types.NewS16()
	case "s32":
		return types.NewS32()
	case "s64":
		return types.NewS64()
	case "f32":
		return types.NewF32()
	case "f64":
		return types.NewF64()
	case "char":
		return types.NewChar()
	case "string":
		return types.NewString()
	case "stream":
		return types.NewStream(types.NewU8(), types.NewU8())
	case "list":
		return types.NewList(t.E.Go(w))
	case "record":
		fs := []types.Field{}
		for i, x := range *t.Ts {
			fs = append(fs, types.Field{Label: fieldLabel(t, i), Type: x.Go(w)})
		}
		return types.NewRecord(fs...)
	case "tuple":
		return types.NewTuple(sub(t.Ts)...)
	case "variant":
		cs := []types.Case{}
		for _, c := range *t.Cs {
			gc := types.Case{Label: caseLabel(c.L)}
			if len(c.T) > 0 {
				gc.Type = c.T[0].Go(w)
			}
			if len(c.R) > 0 {
				l := caseLabel(c.R[0])
				gc.Refines = &l
			}
			cs = append(cs, gc)
		}
		for i := 0; i < *t.Pad; i++ {
			cs = append(cs, types.Case{Label: caseLabel(padLabel + i)})
		}
		return types.NewVariant(cs...)
	case "union":
		return types.NewUnion(sub(t.Ts)...)
	case "enum":
		ls := []string{}
		for i := 0; i < *t.N; i++ {
			ls = append(ls, caseLabel(padLabel+i))
		}
		return types.NewEnum(ls...)
	case "option":
		return types.NewOption(t.E.Go(w))
	case "result":
		return types.NewResult(one(t.A), one(t.B))
	case "flags":
		ls := []string{}
		for i := 0; i < *t.N; i++ {
			ls = append(ls, "f"+strconv.Itoa(i))
		}
		return types.NewFlags(ls...)
	case "own":
		return types.NewOwn(w.Rts[t.Rt-1])
	case "borrow":
		return types.NewBorrow(w.Rts[t.Rt-1])
	}
	panic("harness: type " + t.K)
}

// V is a value node: numbers and sub-values.
type V struct {
	N Ints
	S Seq[*V]
}

func (v *V) MarshalJSON() ([]byte, error) { return json.Marshal([2]any{v.N, v.S}) }
func (v *V) UnmarshalJSON(b []byte) error {
	var x [2]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &v.N); err != nil {
		return err
	}
	return json.Unmarshal(x[1], &v.S)
}

func leaf(n ...int) *V { return &V{N: n} }
func node(s ...*V) *V  { return &V{S: s} }

// variantParts gives label and payload type of each case of a variant-like type.
func (t *T) caseNames() (name func(l int) string, byName func(string) (int, bool)) {
	fixed := func(names ...string) (func(int) string, func(string) (int, bool)) {
		return func(l int) string {
				if l >= 0 && l < len(names) {
					return names[l]
				}
				return "unknown" + strconv.Itoa(l)
			}, func(s string) (int, bool) {
				for i, n := range names {
					if n == s {
						return i, true
					}
				}
				return 0, false
			}
	}
	switch t.K {
	case "option":
		return fixed("none", "some")
	case "result":
		return fixed("ok", "error")
	case "union":
		return func(l int) string { return strconv.Itoa(l) }, func(s string) (int, bool) {
			i, err := strconv.Atoi(s)
			return i, err == nil
		}
	}
	return caseLabel, func(s string) (int, bool) {
		if len(s) < 2 {
			return 0, false
		}
		i, err := strconv.Atoi(s[1:])
		if err != nil {
			return 0, false
		}
		if s[0] == 'p' {
			return padLabel + i, true
		}
		return i, s[0] == 'c'
	}
}

func (t *T) payload(l int) *T {
	switch t.K {
	case "option":
		if l == 1 {
			return t.E
		}
	case "result":
		if l == 0 && len(*t.A) > 0 {
			return (*t.A)[0]
		}
		if l == 1 && len(*t.B) > 0 {
			return (*t.B)[0]
		}
	case "union":
		if l >= 0 && l < len(*t.Ts) {
			return (*t.Ts)[l]
		}
	case "variant":
		for _, c := range *t.Cs {
			if c.L == l && len(c.T) > 0 {
				return c.T[0]
			}
		}
	}
	return nil
}

// knows reports whether the variant has a case with this label.
func (t *T) knows(l int) bool {
	switch t.K {
	case "option", "result":
		return l == 0 || l == 1
	case "union":
		return l >= 0 && l < len(*t.Ts)
	case "enum":
		return l >= padLabel && l < padLabel+*t.N
	case "variant":
		if l >= padLabel {
			return l < padLabel+*t.Pad
		}
		for _, c := range *t.Cs {
			if c.L == l {
				return true
			}
		}
	}
	return false
}

func isVariant(t *T) bool {
	switch t.K {
	case "variant", "union", "enum", "option", "result":
		return true
	}
	return false
}

// raw is the marker number that makes ToGo build an ill-typed host value.
const rawMark = -9

// ToGo builds the host value.
func (t *T) ToGo(v *V) any {
	if len(v.N) == 2 && v.N[0] == rawMark {
		return illTyped(v.N[1])
	}
	switch t.K {
	case "bool":
		return v.N[0] == 1
	case "u8":
		return uint8(ule(v.N))
	case "u16":
		return uint16(ule(v.N))
	case "u32", "own", "borrow":
		return uint32(ule(v.N))
	case "u64":
		return ule(v.N)
	case "s8":
		return int8(ule(v.N))
	case "s16":
		return int16(ule(v.N))
	case "s32":
		return int32(ule(v.N))
	case "s64":
		return int64(ule(v.N))
	case "f32":
		return math.Float32frombits(uint32(ule(v.N)))
	case "f64":
		return math.Float64frombits(ule(v.N))
	case "char":
		return rune(v.N[0])
	case "string":
		var sb strings.Builder
		for _, c := range v.N {
			sb.WriteRune(rune(c))
		}
		return sb.String()
	case "list":
		r := []any{}
		for _, x := range v.S {
			r = append(r, t.E.ToGo(x))
		}
		return r
	case "record", "tuple":
		m := map[string]any{}
		for i, x := range *t.Ts {
			if i < len(v.S) {
				m[fieldLabel(t, i)] = x.ToGo(v.S[i])
			}
		}
		return m
	case "flags":
		m := map[string]any{}
		for i, b := range v.N {
			m["f"+strconv.Itoa(i)] = b == 1
		}
		return m
	}
	if isVariant(t) {
		name, _ := t.caseNames()
		var ls []string
		var pt *T
		found := false
		for _, l := range v.N {
			ls = append(ls, name(l))
			if !found && t.knows(l) {
				found = true
				pt = t.payload(l)
			}
		}
		var pv any
		if pt != nil && len(v.S) > 0 {
			pv = pt.ToGo(v.S[0])
		}
		return map[string]any{strings.Join(ls, "|"): pv}
	}
	panic("harness: value of " + t.K)
}

type strange struct{ A int }

// illTyped gives host values that fit few types.
func illTyped(n int) any {
	switch n {
	case 0:
		return nil
	case 1:
		return strange{1}
	case 2:
		return []int{1}
	case 3:
		return map[string]int{"f0": 1}
	case 4:
		return complex(1, 1)
	case 5:
		return int(5)
	case 6:
		return uint(5)
	case 7:
		return []any{strange{1}}
	case 8:
		return map[string]any{}
	case 9:
		return map[string]any{"f0": strange{1}, "c0": nil, "zz": nil}
	case 10:
		return "text"
	case 11:
		return true
	case 12:
		return float32(1.5)
	case 13:
		return float64(1.5)
	case 14:
		return uint64(math.MaxUint64)
	case 15:
		return int64(-1)
	case 16:
		return uint16(0xfffe)
	case 17:
		return int32(-5)
	case 18:
		return uint32(0xffffff00)
	case 19:
		return uint8(200)
	case 20:
		return int8(-3)
	case 21:
		return int16(-300)
	}
	return nil
}

var errShape = errors.New("shape")

// FromGo turns a host value of type t into a node; errShape if it is not one.
func (t *T) FromGo(x any) (*V, error) {
	switch t.K {
	case "bool":
		if b, ok := x.(bool); ok {
			if b {
				return leaf(1), nil
			}
			return leaf(0), nil
		}
	case "u8":
		if y, ok := x.(uint8); ok {
			return &V{N: le(uint64(y), 1)}, nil
		}
	case "u16":
		if y, ok := x.(uint16); ok {
			return &V{N: le(uint64(y), 2)}, nil
		}
	case "u32", "own", "borrow":
		if y, ok := x.(uint32); ok {
			return &V{N: le(uint64(y), 4)}, nil
		}
	case "u64":
		if y, ok := x.(uint64); ok {
			return &V{N: le(y, 8)}, nil
		}
	case "s8":
		if y, ok := x.(int8); ok {
			return &V{N: le(uint64(y), 1)}, nil
		}
	case "s16":
		if y, ok := x.(int16); ok {
			return &V{N: le(uint64(y), 2)}, nil
		}
	case "s32":
		if y, ok := x.(int32); ok {
			return &V{N: le(uint64(y), 4)}, nil
		}
	case "s64":
		if y, ok := x.(int64); ok {
			return &V{N: le(uint64(y), 8)}, nil
		}
	case "f32":
		if y, ok := x.(float32); ok {
			return &V{N: le(uint64(math.Float32bits(y)), 4)}, nil
		}
	case "f64":
		if y, ok := x.(float64); ok {
			return &V{N: le(math.Float64bits(y), 8)}, nil
		}
	case "char":
		if y, ok := x.(rune); ok {
			return leaf(int(y)), nil
		}
	case "string":
		if y, ok := x.(string); ok {
			v := &V{}
			for i := 0; i < len(y); {
				r, n := utf8.DecodeRuneInString(y[i:])
				if r == utf8.RuneError && n <= 1 {
					v.N = append(v.N, -1-int(y[i])) // not text
				} else {
					v.N = append(v.N, int(r))
				}
				i += n
			}
			return v, nil
		}
	case "list":
		if y, ok := x.([]any); ok {
			v := &V{}
			for _, e := range y {
				n, err := t.E.FromGo(e)
				if err != nil {
					return nil, err
				}
				v.S = append(v.S, n)
			}
			return v, nil
		}
	case "record", "tuple":
		if y, ok := x.(map[string]any); ok && len(y) == len(*t.Ts) {
			v := &V{}
			for i, ft := range *t.Ts {
				e, ok := y[fieldLabel(t, i)]
				if !ok {
					return nil, errShape
				}
				n, err := ft.FromGo(e)
				if err != nil {
					return nil, err
				}
				v.S = append(v.S, n)
			}
			return v, nil
		}
	case "flags":
		if y, ok := x.(map[string]any); ok && len(y) == *t.N {
			v := &V{}
			for i := 0; i < *t.N; i++ {
				b, ok := y["f"+strconv.Itoa(i)].(bool)
				if !ok {
					return nil, errShape
				}
				if b {
					v.N = append(v.N, 1)
				} else {
					v.N = append(v.N, 0)
				}
			}
			return v, nil
		}
	}
	if isVariant(t) {
		y, ok := x.(map[string]any)
		if !ok || len(y) != 1 {
			return nil, errShape
		}
		_, byName := t.caseNames()
		for key, pv := range y {
			v := &V{}
			for _, s := range strings.Split(key, "|") {
				l, ok := byName(s)
				if !ok {
					return nil, errShape
				}
				v.N = append(v.N, l)
			}
			if pt := t.payload(v.N[0]); pt != nil {
				n, err := pt.FromGo(pv)
				if err != nil {
					return nil, err
				}
				v.S = append(v.S, n)
			} else if pv != nil {
				return nil, errShape
			}
			return v, nil
		}
	}
	return nil, errShape
}

// Core is a core value: kind and bytes.
type Core struct {
	K string
	B Ints
}

func (c Core) MarshalJSON() ([]byte, error) { return json.Marshal([2]any{c.K, c.B}) }
func (c *Core) UnmarshalJSON(b []byte) error {
	var x [2]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &c.K); err != nil {
		return err
	}
	return json.Unmarshal(x[1], &c.B)
}

func kindName(k kind.Kind) string {
	if n := (names[kind.Kind]{{kind.U32, "i32"}, {kind.U64, "i64"}, {kind.Float32, "f32"}, {kind.Float64, "f64"}}).of(k); n != "" {
		return n
	}
	return "?" + fmt.Sprint(k)
}

func (c Core) Go() values.Value {
	switch c.K {
	case "i32":
		return values.U32(uint32(ule(c.B)))
	case "i64":
		return values.U64(int64(ule(c.B)))
	case "f32":
		return values.Float32(math.Float32frombits(uint32(ule(c.B))))
	case "f64":
		return values.Float64(math.Float64frombits(ule(c.B)))
	}
	panic("harness: core kind " + c.K)
}

// coreOf turns any value into a Core; kinds that are not core values show as "?".
func coreOf(x any) Core {
	v, ok := x.(values.Value)
	if !ok {
		return Core{K: fmt.Sprintf("?%T", x)}
	}
	k := kindName(v.Kind())
	switch y := v.Value().(type) {
	case uint32:
		if k == "i32" {
			return Core{k, le(uint64(y), 4)}
		}
	case uint64:
		if k == "i64" {
			return Core{k, le(y, 8)}
		}
	case float32:
		if k == "f32" {
			return Core{k, le(uint64(math.Float32bits(y)), 4)}
		}
	case float64:
		if k == "f64" {
			return Core{k, le(math.Float64bits(y), 8)}
		}
	}
	return Core{K: fmt.Sprintf("?%s:%T", k, v.Value())}
}

func cores(vs []values.Value) Seq[Core] {
	r := Seq[Core]{}
	for _, v := range vs {
		r = append(r, coreOf(v))
	}
	return r
}

func kinds(ks []kind.Kind) Seq[string] {
	r := Seq[string]{}
	for _, k := range ks {
		r = append(r, kindName(k))
	}
	return r
}

// outcome of a call: ok, trap or err.
func outcome(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, types.Trap()) {
		return "trap"
	}
	return "err"
}

// ReallocCall is one recorded allocator call with its answer.
type ReallocCall struct {
	A  int  `json:"a"`
	N  int  `json:"n"`
	O  int  `json:"o"`
	Ok int  `json:"ok"`
	P  Ints `json:"p"`
}

// Grant is what the allocator is told to answer at one call: the address, or
// failure.  Mode "bump" continues from the heap pointer.
type Grant struct {
	Mode string `json:"m"` // bump, fail, at
	P    Ints   `json:"p"`
}

// Alloc is the guest allocator used by the drivers.
type Alloc struct {
	next   uint32
	grants []Grant
	Calls  Seq[ReallocCall]
	hook   func()
}

func clampInt(x uint32) int {
	if x >= 1<<30 {
		return 1<<30 - 1
	}
	return int(x)
}

func (a *Alloc) Realloc(origPtr, origSize, align, newSize uint32) (uint32, error) {
	if a.hook != nil {
		a.hook()
	}
	rc := ReallocCall{A: clampInt(align), N: clampInt(newSize), P: Ints{0, 0, 0, 0}}
	if origPtr == 0 && origSize == 0 {
		rc.O = 1
	}
	g := Grant{Mode: "bump"}
	if n := len(a.Calls); n < len(a.grants) {
		g = a.grants[n]
	}
	var p uint32
	switch g.Mode {
	case "fail":
		a.Calls = append(a.Calls, rc)
		return 0, fmt.Errorf("allocator: out of memory")
	case "at":
		p = uint32(ule(g.P))
	default:
		p = a.next
		if align > 1 {
			p = (p + align - 1) / align * align
		}
		p += uint32(ule(g.P)) * align // gap
		a.next = p + newSize
	}
	rc.Ok, rc.P = 1, u32b(p)
	a.Calls = append(a.Calls, rc)
	return p, nil
}

func encodingOf(s string) encoding.Encoding { return encoding.Encoding(s) }

func options(mem []byte, enc string, a *Alloc) *types.CanonicalOptions {
	return &types.CanonicalOptions{
		Memory:         bytes.NewBuffer(mem),
		StringEncoding: encodingOf(enc),
		Realloc:        a.Realloc,
	}
}

func putU32(b []byte, x uint32) { binary.LittleEndian.PutUint32(b, x) }

var _ = io.Alignment
