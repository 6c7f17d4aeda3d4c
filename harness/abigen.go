package main

import (
	"math"
)

// ---- layout arithmetic used only to place generated data ----

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func alignUp(p, a int) int { return (p + a - 1) / a * a }

func (t *T) cases() (pay []*T, n int) {
	switch t.K {
	case "option":
		return []*T{t.E}, 2
	case "result":
		pay = append(pay, *t.A...)
		pay = append(pay, *t.B...)
		return pay, 2
	case "union":
		return *t.Ts, len(*t.Ts)
	case "enum":
		return nil, *t.N
	case "variant":
		for _, c := range *t.Cs {
			pay = append(pay, c.T...)
		}
		return pay, len(*t.Cs) + *t.Pad
	}
	return nil, 0
}

func discSize(n int) int {
	if n <= 256 {
		return 1
	}
	if n <= 65536 {
		return 2
	}
	return 4
}

func (t *T) align() int {
	switch t.K {
	case "bool", "u8", "s8":
		return 1
	case "u16", "s16":
		return 2
	case "u64", "s64", "f64":
		return 8
	case "record", "tuple":
		a := 1
		for _, x := range *t.Ts {
			a = maxI(a, x.align())
		}
		return a
	case "flags":
		switch {
		case *t.N <= 8:
			return 1
		case *t.N <= 16:
			return 2
		}
		return 4
	}
	if isVariant(t) {
		ps, n := t.cases()
		a := discSize(n)
		for _, x := range ps {
			a = maxI(a, x.align())
		}
		return a
	}
	return 4
}

func (t *T) size() int {
	switch t.K {
	case "bool", "u8", "s8":
		return 1
	case "u16", "s16":
		return 2
	case "u64", "s64", "f64", "string", "list":
		return 8
	case "record", "tuple":
		o := 0
		for _, x := range *t.Ts {
			o = alignUp(o, x.align()) + x.size()
		}
		return alignUp(o, t.align())
	case "flags":
		switch n := *t.N; {
		case n == 0:
			return 0
		case n <= 8:
			return 1
		case n <= 16:
			return 2
		default:
			return 4 * ((n + 31) / 32)
		}
	}
	if isVariant(t) {
		ps, n := t.cases()
		a, s := 1, 0
		for _, x := range ps {
			a = maxI(a, x.align())
			s = maxI(s, x.size())
		}
		return alignUp(alignUp(discSize(n), a)+s, t.align())
	}
	return 4
}

// heap is an upper bound for the memory a value needs beyond its own size.
func (t *T) heap(v *V) int {
	switch t.K {
	case "string":
		return 4*len(v.N) + 4
	case "list":
		h := t.E.size()*len(v.S) + 16
		for _, x := range v.S {
			h += t.E.heap(x)
		}
		return h
	case "record", "tuple":
		h := 0
		for i, x := range *t.Ts {
			if i < len(v.S) {
				h += x.heap(v.S[i])
			}
		}
		return h
	}
	if isVariant(t) && len(v.S) > 0 {
		for _, l := range v.N {
			if t.knows(l) {
				if p := t.payload(l); p != nil {
					return p.heap(v.S[0])
				}
				break
			}
		}
	}
	return 0
}

func flatJoin(a, b string) string {
	if a == b {
		return a
	}
	if (a == "i32" || a == "f32") && (b == "i32" || b == "f32") {
		return "i32"
	}
	return "i64"
}

// flat is the flattened form, used to build inputs of the right shape.
func (t *T) flat() []string {
	switch t.K {
	case "u64", "s64":
		return []string{"i64"}
	case "f32", "f64":
		return []string{t.K}
	case "string", "list":
		return []string{"i32", "i32"}
	case "record", "tuple":
		return flatAll(*t.Ts)
	case "flags":
		r := []string{}
		for i := 0; i < (*t.N+31)/32; i++ {
			r = append(r, "i32")
		}
		return r
	}
	if isVariant(t) {
		ps, _ := t.cases()
		var j []string
		for _, p := range ps {
			for i, k := range p.flat() {
				if i < len(j) {
					j[i] = flatJoin(j[i], k)
				} else {
					j = append(j, k)
				}
			}
		}
		return append([]string{"i32"}, j...)
	}
	return []string{"i32"}
}

func flatAll(ts []*T) []string {
	var r []string
	for _, t := range ts {
		r = append(r, t.flat()...)
	}
	return r
}

// ---- random types ----

type typeOpts struct {
	handles bool // own and borrow, with resource types 1..rts
	rts     int
	bad     bool // types without layout
	big     bool // large case and flag counts
	noList  bool
}

var primKinds = []string{"bool", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "f32", "f64", "char", "string"}

func (g *Gen) prim() *T { return prim(primKinds[g.Intn(len(primKinds))]) }

func (g *Gen) typ(depth int, o typeOpts) *T {
	if depth <= 0 || g.Chance(0.15) {
		if o.bad && g.Chance(0.04) {
			return prim("stream")
		}
		if o.handles && g.Chance(0.15) {
			return tHandle(pick(g, "own", "borrow"), 1+g.Intn(o.rts))
		}
		return g.prim()
	}
	sub := func() *T { return g.typ(depth-1-g.Intn(2), o) }
	subs := func(n int) []*T {
		var r []*T
		for i := 0; i < n; i++ {
			r = append(r, sub())
		}
		return r
	}
	opt := func() Seq[*T] {
		if g.Chance(0.35) {
			return Seq[*T]{}
		}
		return Seq[*T]{sub()}
	}
	switch g.Intn(11) {
	case 0:
		if o.noList {
			return g.prim()
		}
		return tList(sub())
	case 1, 2:
		if g.Chance(0.05) {
			depth = 0
			return tRec(pick(g, "record", "tuple", "union"), subs(6+g.Intn(30))...)
		}
		return tRec("record", subs(g.Intn(6))...)
	case 3:
		return tRec("tuple", subs(g.Intn(5))...)
	case 4, 5:
		return g.variant(o, sub)
	case 6:
		n := 1 + g.Intn(4)
		if o.bad && g.Chance(0.05) {
			n = 0
		}
		return tRec("union", subs(n)...)
	case 7:
		return tN("enum", g.caseCount(o))
	case 8:
		return tOpt(sub())
	case 9:
		return tRes(opt(), opt())
	default:
		return tN("flags", g.flagCount(o))
	}
}

func (g *Gen) caseCount(o typeOpts) int {
	if o.bad && g.Chance(0.05) {
		return 0
	}
	if o.big && g.Chance(0.3) {
		return pick(g, 255, 256, 257, 511, 512, 1000, 65535, 65536, 65537)
	}
	if g.Chance(0.15) {
		return pick(g, 255, 256, 257)
	}
	return 1 + g.Intn(9)
}

func (g *Gen) flagCount(o typeOpts) int {
	if g.Chance(0.5) {
		return pick(g, 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 96, 97)
	}
	return g.Intn(70)
}

func (g *Gen) variant(o typeOpts, sub func() *T) *T {
	n := 1 + g.Intn(4)
	if g.Chance(0.04) {
		n = 5 + g.Intn(12)
	}
	var cs []C
	for i := 0; i < n; i++ {
		c := C{L: i}
		if !g.Chance(0.2) {
			c.T = Seq[*T]{sub()}
		}
		if i > 0 && g.Chance(0.25) {
			c.R = Ints{g.Intn(i)} // refines an earlier case
		}
		cs = append(cs, c)
	}
	g.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	pad := 0
	if o.big && g.Chance(0.25) {
		pad = pick(g, 252, 253, 254, 255, 256, 300, 65532, 65533, 65534, 65535, 65536)
	} else if g.Chance(0.06) {
		pad = pick(g, 251, 252, 253, 254, 255, 256)
	}
	return tVar(pad, cs...)
}

// ---- random values ----

func (g *Gen) bits(n int) Ints {
	switch g.Intn(7) {
	case 0:
		return make(Ints, n)
	case 1:
		return le(math.MaxUint64, n)
	case 2:
		return le(1<<(8*n-1), n)
	case 3:
		return le(1<<(8*n-1)-1, n)
	case 4:
		return le(uint64(g.Intn(300)), n)
	}
	r := make(Ints, n)
	for i := range r {
		r[i] = g.Intn(256)
	}
	return r
}

func (g *Gen) f32bits() Ints {
	if g.Chance(0.5) {
		return le(uint64(pick[uint32](g, 0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x7fffffff, 0xffffffff, 0xff800001, 0x7fa00000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x3f800000)), 4)
	}
	return g.bits(4)
}

func (g *Gen) f64bits() Ints {
	if g.Chance(0.5) {
		return le(pick[uint64](g, 0, 1<<63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7fffffffffffffff, math.MaxUint64, 0x7ff4000000000000, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x7ff0000100000000, 0x7ff00000ffffffff), 8)
	}
	return g.bits(8)
}

func (g *Gen) scalar() int {
	switch g.Intn(9) {
	case 0:
		return pick(g, 0, 1, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfffff, 0x1f600)
	case 1, 2:
		return 0x80 + g.Intn(0x80)
	case 3:
		return g.Intn(0x800)
	case 4:
		c := g.Intn(0x10000)
		if c >= 0xd800 && c <= 0xdfff {
			c -= 0x1000
		}
		return c
	case 5:
		return 0x10000 + g.Intn(0x100000)
	}
	return 0x20 + g.Intn(0x5f)
}

func (g *Gen) text(max int) Ints {
	n := 0
	if !g.Chance(0.1) {
		n = g.Intn(max + 1)
	}
	r := make(Ints, n)
	ascii, latin := g.Chance(0.15), g.Chance(0.3)
	for i := range r {
		for {
			r[i] = g.scalar()
			if (ascii && r[i] > 127) || (latin && r[i] > 255) {
				continue
			}
			break
		}
	}
	return r
}

func (g *Gen) val(t *T) *V {
	switch t.K {
	case "bool":
		return leaf(g.Intn(2))
	case "u8", "s8":
		return &V{N: g.bits(1)}
	case "u16", "s16":
		return &V{N: g.bits(2)}
	case "u32", "s32", "own", "borrow":
		return &V{N: g.bits(4)}
	case "u64", "s64":
		return &V{N: g.bits(8)}
	case "f32":
		return &V{N: g.f32bits()}
	case "f64":
		return &V{N: g.f64bits()}
	case "char":
		return leaf(g.scalar())
	case "string":
		if g.Chance(0.01) {
			return &V{N: g.text(300)}
		}
		return &V{N: g.text(8)}
	case "list":
		n := g.Intn(4)
		if t.E.size() <= 16 && g.Chance(0.04) {
			n = 4 + g.Intn(40)
		}
		v := &V{}
		for i := 0; i < n; i++ {
			v.S = append(v.S, g.val(t.E))
		}
		return v
	case "record", "tuple":
		v := &V{}
		for _, x := range *t.Ts {
			v.S = append(v.S, g.val(x))
		}
		return v
	case "flags":
		v := &V{}
		mode := g.Intn(4)
		for i := 0; i < *t.N; i++ {
			b := g.Intn(2)
			if mode == 1 {
				b = 1
			}
			v.N = append(v.N, b)
		}
		return v
	}
	// variants
	l := g.label(t)
	v := leaf(l)
	if t.K == "variant" && g.Chance(0.3) {
		// name unknown labels and refinements around the known one
		if g.Chance(0.5) {
			v.N = append(Ints{500 + g.Intn(10)}, v.N...)
		}
		if g.Chance(0.5) {
			v.N = append(v.N, g.label(t))
		}
		if g.Chance(0.3) {
			v.N = append(v.N, 600+g.Intn(10))
		}
	}
	if p := t.payload(l); p != nil {
		v.S = Seq[*V]{g.val(p)}
	}
	return v
}

// long is a type and a value of it that need more memory than any buffer.
func (g *Gen) long() (*T, *V) {
	if g.Chance(0.3) {
		t := prim("string")
		v := &V{N: g.text(10)}
		for len(v.N) < 4200 {
			v.N = append(v.N, v.N...)
			v.N = append(v.N, g.text(10)...)
		}
		return t, v
	}
	e := pick(g, prim("u8"), prim("u16"), prim("u64"), prim("f32"), prim("char"), tRec("record", prim("u8"), prim("u32")), tOpt(prim("u16")), prim("string"), tList(prim("bool")))
	v := &V{}
	for n := 256 + g.Intn(10) + 1200/e.size(); n > 0; n-- {
		v.S = append(v.S, g.val(e))
	}
	return tList(e), v
}

// far is a list or string with elements more than 64 kB behind its begin.
func (g *Gen) far() (*T, *V) {
	v := &V{}
	if g.Shard%2 == 1 {
		for n := 66000 + g.Intn(1000); len(v.N) < n; {
			v.N = append(v.N, 'a'+g.Intn(26))
		}
		return prim("string"), v
	}
	e := tVar(3, C{L: 0, T: Seq[*T]{tN("flags", 8000)}})
	for n := 66 + g.Intn(20); n > 0; n-- {
		x := leaf(padLabel + g.Intn(3))
		if n%32 == 1 {
			x = &V{N: Ints{0}, S: Seq[*V]{g.val((*e.Cs)[0].T[0])}}
		}
		v.S = append(v.S, x)
	}
	return tList(e), v
}

func (g *Gen) label(t *T) int {
	switch t.K {
	case "option", "result":
		return g.Intn(2)
	case "union":
		return g.Intn(len(*t.Ts))
	case "enum":
		return padLabel + g.edge(*t.N)
	}
	n := len(*t.Cs)
	if *t.Pad > 0 && g.Chance(0.4) {
		return padLabel + g.edge(*t.Pad)
	}
	if n == 0 {
		return padLabel
	}
	return (*t.Cs)[g.Intn(n)].L
}

// edge picks below n, favouring the ends and byte boundaries.
func (g *Gen) edge(n int) int {
	if n == 0 {
		return 0
	}
	if g.Chance(0.6) {
		x := pick(g, 0, n-1, n-2, 255, 256, 65535)
		if x >= 0 && x < n {
			return x
		}
	}
	return g.Intn(n)
}

// gives a value that type t does not have, as a raw node
func (g *Gen) illFor(t *T) *V {
	ok := map[string][]int{
		"bool": {0, 1, 5, 10, 19}, "u8": {0, 1, 5, 10, 12, 14, 15, 16, 17, 18, 20},
		"u16": {0, 1, 10, 14, 15, 17, 18, 20, 21}, "u32": {0, 1, 6, 10, 14, 15, 17, 20, 13},
		"u64": {0, 1, 10, 15, 17, 20, 5, 6}, "s8": {0, 1, 10, 14, 16, 18, 19, 21},
		"s16": {0, 1, 10, 14, 16, 18, 19}, "s32": {0, 1, 10, 14, 18, 19, 5}, "s64": {0, 1, 10, 14, 18, 19, 5},
		"f32": {0, 1, 10, 13, 14, 17}, "f64": {0, 1, 10, 12, 14, 17}, "char": {0, 1, 10, 18, 19, 14},
		"string": {0, 1, 2, 11, 17, 7}, "list": {0, 1, 2, 8, 10, 11}, "own": {0, 1, 10, 14, 15, 17, 19},
	}
	k := t.K
	switch {
	case k == "borrow":
		k = "own"
	case k == "record" || k == "tuple":
		if len(*t.Ts) == 0 {
			return leaf(rawMark, pick(g, 0, 1, 2, 3, 10))
		}
		return leaf(rawMark, pick(g, 0, 1, 2, 3, 7, 8, 9, 10))
	case k == "flags":
		if *t.N == 0 {
			return leaf(rawMark, pick(g, 0, 1, 2, 3, 10))
		}
		return leaf(rawMark, pick(g, 0, 1, 2, 3, 7, 8, 9, 10))
	case isVariant(t):
		if g.Chance(0.3) {
			return leaf(rawMark, pick(g, 0, 1, 2, 3, 8, 9, 10, 19))
		}
		return leaf(700 + g.Intn(5)) // a case the type does not have
	}
	xs := ok[k]
	if k == "char" && g.Chance(0.4) {
		return leaf(pick(g, 0xd800, 0xdfff, 0x110000, -1, 0x7fffffff))
	}
	return leaf(rawMark, xs[g.Intn(len(xs))])
}

// spoil replaces one random sub-value (reachable in v) by an ill-typed one.
func (g *Gen) spoil(t *T, v *V) *V {
	type spot struct {
		t  *T
		up *V
		i  int
	}
	var spots []spot
	var walk func(t *T, v *V)
	walk = func(t *T, v *V) {
		child := func(ct *T, i int) {
			spots = append(spots, spot{ct, v, i})
			walk(ct, v.S[i])
		}
		switch {
		case t.K == "list":
			for i := range v.S {
				child(t.E, i)
			}
		case t.K == "record" || t.K == "tuple":
			for i, ct := range *t.Ts {
				child(ct, i)
			}
		case isVariant(t):
			for _, l := range v.N {
				if t.knows(l) {
					if p := t.payload(l); p != nil && len(v.S) > 0 {
						child(p, 0)
					}
					break
				}
			}
		}
	}
	walk(t, v)
	n := g.Intn(len(spots) + 1)
	if n == len(spots) {
		return g.illFor(t)
	}
	s := spots[n]
	s.up.S[s.i] = g.illFor(s.t)
	return v
}
