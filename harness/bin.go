package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"runtime"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/leb128"
)

// ---- LEB128 ----

// LebIn is one use of the encoder or of one of the decoders.  The encoder
// writes to something that has no more room than that, or if it is negative
// has room for everything; a reader that breaks does so behind its last byte.
type LebIn struct {
	Op    string `json:"op"`
	V     Ints   `json:"v"`
	W     string `json:"w"`
	Bs    Ints   `json:"bs"`
	Mode  int    `json:"mode"`
	Room  int    `json:"room"`
	Break bool   `json:"break"`
}

type fullWriter struct{}

func (fullWriter) Write([]byte) (int, error) { return 0, errors.New("no room") }

type LebOut struct {
	St   string `json:"st"`
	V    Ints   `json:"v"`
	Bs   Ints   `json:"bs"`
	N    int    `json:"n"`
	Used int    `json:"used"`
}

type lebDriver struct{}

func (lebDriver) Run(raw json.RawMessage) any {
	var in LebIn
	must(json.Unmarshal(raw, &in))
	if in.Op == "enc" {
		if in.Room >= 0 {
			w := bufio.NewWriterSize(fullWriter{}, 16)
			_, err := w.Write(make([]byte, 16-in.Room))
			must(err)
			n, err := leb128.Encode(w, uint32(ule(in.V)))
			if err != nil {
				return LebOut{St: "err"}
			}
			return LebOut{St: "ok", N: n}
		}
		var buf bytes.Buffer
		w := bufio.NewWriterSize(&buf, 16)
		n, err := leb128.Encode(w, uint32(ule(in.V)))
		if err != nil {
			return LebOut{St: "err"}
		}
		must(w.Flush())
		return LebOut{St: "ok", Bs: byteInts(buf.Bytes()), N: n}
	}
	var v uint32
	var n int
	var err error
	used := -1
	bs := intBytes(in.Bs)
	fail := -1
	if in.Break {
		fail = len(bs)
	}
	switch in.W {
	case "slice":
		v, n, err = leb128.DecodeSlice(bs)
	case "bufio":
		r := bufio.NewReaderSize(&failing{r: newChunks(bs, in.Mode), n: fail}, 16)
		v, n, err = leb128.Decode(r)
		rest, _ := io.ReadAll(r)
		used = len(bs) - len(rest)
	default:
		r := newChunks(bs, in.Mode)
		v, n, err = leb128.DecodeReader(&failing{r: r, n: fail})
		used = r.read
	}
	if err != nil {
		return LebOut{St: "err", Used: used}
	}
	return LebOut{St: "ok", V: u32b(v), N: n, Used: used}
}

var readerModes = []int{0, 1, 2, 3, -1, -2, -100, 100, 101, 103}

func (d lebDriver) Gen(g *Gen, emit func(string, any)) {
	dec := func(kind string, bs Ints) {
		emit(kind, LebIn{Op: "dec", W: "slice", Bs: bs})
		emit(kind, LebIn{Op: "dec", W: "bufio", Bs: bs, Mode: pick(g, readerModes...), Break: g.Chance(0.2)})
		emit(kind, LebIn{Op: "dec", W: "reader", Bs: bs, Mode: pick(g, readerModes...), Break: g.Chance(0.2)})
	}
	enc := func(kind string, v Ints) {
		emit(kind, LebIn{Op: "enc", V: v, Room: -1})
		emit(kind+"/full", LebIn{Op: "enc", V: v, Room: g.Intn(6)})
	}
	g.EachScript(func(line []byte) {
		var in LebIn
		must(json.Unmarshal(line, &in))
		if in.Op == "enc" {
			enc("model/enc", in.V)
		} else {
			dec("model/dec", in.Bs)
		}
	})
	for n := g.N(1500, 20000); n > 0; n-- {
		v := g.Uint32() >> g.Intn(32)
		if g.Chance(0.3) {
			v = uint32(int64(1)<<g.Intn(33) + int64(g.Intn(5)) - 2)
		}
		enc("enc", u32b(v))
		bs := lebPad(v, g.Intn(5))
		if g.Chance(0.2) {
			bs = bs[:g.Intn(len(bs)+1)]
		}
		for k := g.Intn(4); k > 0; k-- {
			bs = append(bs, byte(g.Intn(256)))
		}
		dec("dec", byteInts(bs))
		bs = nil
		for k := g.Intn(9); k > 0; k-- {
			b := byte(g.Intn(256))
			if g.Chance(0.7) {
				b |= 0x80
			}
			bs = append(bs, b)
		}
		dec("dec/any", byteInts(bs))
	}
}

// lebPad encodes v in up to pad bytes more than necessary.
func lebPad(v uint32, pad int) []byte {
	var bs []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 && (pad == 0 || len(bs) == 4) {
			return append(bs, b)
		}
		if v == 0 {
			pad--
		}
		bs = append(bs, b|0x80)
	}
}

// ---- binaries ----

type BinIn struct {
	Bs   Ints `json:"bs"`
	Mode int  `json:"mode"`
	Fail int  `json:"fail"`
	Once bool `json:"once"`
}

type BinType struct {
	P Ints `json:"p"`
	R Ints `json:"r"`
}

type BinInstr struct {
	Op string `json:"op"`
	X  Ints   `json:"x"`
}

type BinFunc struct {
	T    Ints          `json:"t"`
	Loc  Seq[Ints]     `json:"loc"`
	Body Seq[BinInstr] `json:"body"`
}

type BinExport struct {
	Name Ints `json:"name"`
	Idx  Ints `json:"idx"`
}

type BinModule struct {
	Types   Seq[BinType]   `json:"types"`
	Funcs   Seq[BinFunc]   `json:"funcs"`
	Exports Seq[BinExport] `json:"exports"`
}

type BinOut struct {
	St    string    `json:"st"`
	M     BinModule `json:"m"`
	Extra int       `json:"extra"`
	KB    int       `json:"kb"`
}

func valTypeNo(t api.ValType) int {
	for n, u := range []api.ValType{api.I32Type, api.I64Type, api.F32Type, api.F64Type} {
		if t == u {
			return n
		}
	}
	return -1
}

func valTypes(ts []api.ValType) Ints {
	r := Ints{}
	for _, t := range ts {
		r = append(r, valTypeNo(t))
	}
	return r
}

// binInstr names an instruction of the result.  Values and pointers are alike.
func binInstr(i api.Instruction) BinInstr {
	v := reflect.ValueOf(i)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		if e, ok := v.Elem().Interface().(api.Instruction); ok {
			i = e
		}
	}
	switch x := i.(type) {
	case api.End:
		return BinInstr{Op: "end"}
	case api.I32Add:
		return BinInstr{Op: "i32.add"}
	case api.LocalGet:
		return BinInstr{Op: "local.get", X: u32b(uint32(x.Index))}
	}
	return BinInstr{Op: reflect.TypeOf(i).String()}
}

func binModule(m *api.Module) (BinModule, int) {
	var r BinModule
	extra := len(m.Tables) + len(m.Mems) + len(m.Globals) + len(m.Elems) + len(m.Datas) + len(m.Imports)
	for _, t := range m.Types {
		r.Types = append(r.Types, BinType{valTypes(t.Parameters.Types), valTypes(t.Returns.Types)})
	}
	for _, f := range m.Funcs {
		fn := BinFunc{T: u32b(uint32(f.Type))}
		for _, t := range f.Locals {
			k := valTypeNo(t)
			if n := len(fn.Loc); n > 0 && fn.Loc[n-1][0] == k {
				fn.Loc[n-1][1]++
			} else {
				fn.Loc = append(fn.Loc, Ints{k, 1})
			}
		}
		if f.Body == nil {
			fn.Body = Seq[BinInstr]{{Op: "none"}}
		} else {
			for _, i := range f.Body.Instructions {
				fn.Body = append(fn.Body, binInstr(i))
			}
		}
		r.Funcs = append(r.Funcs, fn)
	}
	for _, e := range m.Exports {
		x := BinExport{Name: byteInts([]byte(e.Name))}
		if d, ok := e.Description.(*api.FuncExportDescription); ok {
			x.Idx = u32b(uint32(d.FuncIdx))
		}
		r.Exports = append(r.Exports, x)
	}
	return r, extra
}

type binDriver struct{ damaged bool }

func (binDriver) Run(raw json.RawMessage) any {
	var in BinIn
	must(json.Unmarshal(raw, &in))
	var r io.Reader = newChunks(intBytes(in.Bs), in.Mode)
	if in.Fail >= 0 {
		r = &failing{r: r, n: in.Fail, once: in.Once}
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	doc, err := binary.Read(r)
	runtime.ReadMemStats(&after)
	out := BinOut{St: "err", KB: int((after.TotalAlloc - before.TotalAlloc) >> 10)}
	if err != nil {
		return out
	}
	if doc == nil {
		out.St = "nil"
		return out
	}
	switch d := doc.Directive.(type) {
	case *api.Module:
		out.St = "module"
		out.M, out.Extra = binModule(d)
		if doc.Preamble.Version != 1 || doc.Preamble.Layer != 0 {
			out.Extra++
		}
	case *api.Component:
		out.St = "component"
		if doc.Preamble.Layer != 1 {
			out.St = "component with another preamble"
		}
	default:
		out.St = "other"
	}
	return out
}

// binGen builds binaries; marks are the positions of sizes and counts.
type binGen struct {
	g    *Gen
	pads bool
}

func (b binGen) leb(v uint32) []byte {
	if b.pads && b.g.Chance(0.3) {
		return lebPad(v, b.g.Intn(5))
	}
	return lebPad(v, 0)
}

func (b binGen) index() uint32 {
	g := b.g
	if g.Chance(0.3) {
		return uint32(int64(1)<<g.Intn(33) - int64(g.Intn(2)))
	}
	return uint32(g.Intn(5))
}

func (b binGen) valType() byte { return byte(0x7c + b.g.Intn(4)) }

func (b binGen) vec(n int, item func() []byte) []byte {
	r := b.leb(uint32(n))
	for ; n > 0; n-- {
		r = append(r, item()...)
	}
	return r
}

func (b binGen) small(max int) int {
	if b.g.Chance(0.015) {
		return 120 + b.g.Intn(20)
	}
	if b.g.Chance(0.001) {
		return pick(b.g, 250, 250, 250, 1050) + b.g.Intn(100)
	}
	return b.g.Intn(max + 1)
}

func (b binGen) name() []byte {
	g := b.g
	var s []rune
	for n := b.small(4); n > 0; n-- {
		s = append(s, pick(g, 'a', 'z', '-', 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, rune(g.Intn(0xd800))))
	}
	return []byte(string(s))
}

func (b binGen) code() []byte {
	g := b.g
	budget := 50000
	c := b.vec(b.small(3), func() []byte {
		n := g.Intn(4)
		if g.Chance(0.1) {
			n = pick(g, 127, 128, 300, 16384)
		}
		if g.Chance(0.02) {
			n = budget
		}
		if n > budget {
			n = budget
		}
		budget -= n
		return append(b.leb(uint32(n)), b.valType())
	})
	for n := b.small(4); n > 0; n-- {
		if g.Chance(0.5) {
			c = append(c, 0x6a)
		} else {
			c = append(append(c, 0x20), b.leb(b.index())...)
		}
	}
	c = append(c, 0x0b)
	return append(b.leb(uint32(len(c))), c...)
}

func (b binGen) section(id byte, content []byte) []byte {
	return append(append([]byte{id}, b.leb(uint32(len(content)))...), content...)
}

func (b binGen) other() []byte {
	g := b.g
	content := make([]byte, b.small(6))
	for i := range content {
		content[i] = pick(g, 0, 1, 3, 7, 10, 11, 0x60, 0x7f, 0x80, 0xff, byte(g.Intn(256)))
	}
	if g.Chance(0.02) {
		content = append(content, make([]byte, 40000)...)
	}
	return b.section(pick(g, byte(0), 2, 4, 5, 6, 8, 9, 11, 12), content)
}

func (b binGen) module() []byte {
	g := b.g
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	others := func() {
		for g.Chance(0.25) {
			out = append(out, b.other()...)
		}
	}
	others()
	if n := b.small(3); n > 0 || g.Chance(0.3) {
		out = append(out, b.section(1, b.vec(n, func() []byte {
			t := []byte{0x60}
			t = append(t, b.vec(b.small(3), func() []byte { return []byte{b.valType()} })...)
			return append(t, b.vec(b.small(3), func() []byte { return []byte{b.valType()} })...)
		}))...)
	}
	others()
	nf := b.small(3)
	has := nf > 0 || g.Chance(0.3)
	if has {
		out = append(out, b.section(3, b.vec(nf, func() []byte { return b.leb(b.index()) }))...)
	}
	others()
	if n := b.small(3); n > 0 || g.Chance(0.3) {
		out = append(out, b.section(7, b.vec(n, func() []byte {
			s := b.name()
			e := append(b.leb(uint32(len(s))), s...)
			return append(append(e, 0), b.leb(b.index())...)
		}))...)
	}
	others()
	if has || g.Chance(0.2) {
		out = append(out, b.section(10, b.vec(nf, b.code))...)
	}
	others()
	return out
}

func (d binDriver) Gen(g *Gen, emit func(string, any)) {
	in := func(bs []byte) BinIn { return BinIn{Bs: byteInts(bs), Mode: pick(g, readerModes...), Fail: -1} }
	if !d.damaged {
		g.EachScript(func(line []byte) {
			var x BinIn
			must(json.Unmarshal(line, &x))
			emit("model", in(intBytes(x.Bs)))
		})
		for n := g.N(700, 8000); n > 0; n-- {
			b := binGen{g, g.Chance(0.5)}
			bs := b.module()
			emit("module", in(bs))
			if g.Chance(0.3) {
				emit("module", in(bs))
			}
			if g.Chance(0.1) {
				p := []byte{0, 'a', 's', 'm', 10, 0, 1, 0}
				emit("component", in(append(p, bs[8:]...)))
			}
			if g.Chance(0.15) {
				c := bytes.Clone(bs)
				c[g.Intn(8)] = pick(g, 0, 1, 10, 11, 13, byte(g.Intn(256)))
				emit("preamble", in(c))
				c = bytes.Clone(bs)
				for i := 4; i < 8; i++ {
					c[i] = pick(g, byte(0), 0, 1, 10, 13, 128, 255)
				}
				emit("preamble", in(c))
			}
		}
		return
	}
	// damaged binaries
	all := func(kind string, bs []byte, share float64) {
		for k := 0; k < len(bs); k++ {
			if g.Chance(share) {
				emit(kind+"/cut", in(bs[:k]))
			}
			if g.Chance(share / 4) {
				x := in(bs)
				x.Fail, x.Once = k, g.Chance(0.5)
				emit(kind+"/fail", x)
			}
			if g.Chance(share) {
				c := bytes.Clone(bs)
				c[k] = pick(g, c[k]+1, c[k]-1, c[k]^0x80, 0, 1, 3, 7, 10, 11, 32, 0x40, 0x60, 0x6a, 0x70, 0x7b, 0x7f, 0x80, 0xff, byte(g.Intn(256)))
				emit(kind+"/byte", in(c))
			}
			if g.Chance(share / 8) {
				c := append(bytes.Clone(bs[:k]), byte(g.Intn(256)))
				emit(kind+"/insert", in(append(c, bs[k:]...)))
			}
			if g.Chance(share / 8) {
				emit(kind+"/delete", in(append(bytes.Clone(bs[:k]), bs[k+1:]...)))
			}
			if g.Chance(share / 8) {
				huge := pick(g, uint32(1<<24), 1<<26, 1<<31, 1<<32-1, uint32(len(bs)), 50001)
				c := append(bytes.Clone(bs[:k]), lebPad(huge, 0)...)
				emit(kind+"/huge", in(append(c, bs[k+1:]...)))
			}
		}
	}
	share := 0.06
	if g.Tier == "thorough" {
		share = 0.01
	}
	g.EachScript(func(line []byte) {
		var x BinIn
		must(json.Unmarshal(line, &x))
		all("model", intBytes(x.Bs), share)
	})
	for n := g.N(100, 2000); n > 0; n-- {
		b := binGen{g, g.Chance(0.3)}
		bs := b.module()
		if len(bs) > 400 {
			continue
		}
		all("module", bs, 0.3)
		// sections doubled, swapped or taken from another module
		other := b.module()
		if len(other) < 400 {
			emit("joined", in(append(bytes.Clone(bs), other[8:]...)))
		}
	}
	for n := g.N(1000, 8000); n > 0; n-- {
		bs := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
		if g.Chance(0.2) {
			bs = bs[:g.Intn(9)]
		}
		for k := g.Intn(24); k > 0; k-- {
			bs = append(bs, pick(g, 0, 1, 1, 1, 2, 3, 4, 7, 10, 11, 32, 0x60, 0x6a, 0x7f, 0x7f, 0x80, 0xff, byte(g.Intn(256))))
		}
		emit("bytes", in(bs))
	}
}

func init() {
	drivers["C13"] = lebDriver{}
	drivers["C14"] = binDriver{}
	drivers["C15"] = binDriver{damaged: true}
}
