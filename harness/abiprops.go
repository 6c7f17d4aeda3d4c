package main

// Inputs for the properties about layout, flattening, memory and strings.

func init() {
	drivers["C05"] = abiDriver{genLayout}
	drivers["C06"] = abiDriver{genFlat}
	drivers["C07"] = abiDriver{genMemory}
	drivers["C08"] = abiDriver{genFlatValues}
	drivers["C09"] = abiDriver{genUntrusted}
	drivers["C10"] = abiDriver{genLowerFaults}
	drivers["C11"] = abiDriver{genStrings}
}

var encodings = []string{"utf-8", "utf-16", "utf-16-le", "latin1+utf16"}

// shapes calls f with small types put together from the given ones in every way.
func shapes(base []*T, f func(*T)) {
	for _, a := range base {
		f(a)
		f(tList(a))
		f(tOpt(a))
		f(tRec("record", a))
		f(tRec("tuple", a))
		f(tRec("union", a))
		f(tRes(Seq[*T]{a}, nil))
		f(tRes(nil, Seq[*T]{a}))
		f(tVar(1, C{L: 0, T: Seq[*T]{a}}))
	}
	for _, a := range base {
		for _, b := range base {
			f(tRec("record", a, b))
			f(tRec("union", a, b))
			f(tRes(Seq[*T]{a}, Seq[*T]{b}))
			f(tRec("tuple", a, b, a))
			f(tVar(0, C{L: 0, T: Seq[*T]{tRec("tuple", a, b)}}, C{L: 1, T: Seq[*T]{b}}))
			f(tRec("record", tOpt(a), b))
		}
	}
}

func primTypes() []*T {
	var r []*T
	for _, k := range primKinds {
		r = append(r, prim(k))
	}
	return r
}

func (g *Gen) implTypes() Ints { return Ints{1, 2} }

func (g *Gen) typeCases(f func(*T)) {
	base := append(primTypes(), tHandle("own", 1), tHandle("borrow", 2), tN("flags", 0), tN("flags", 9), tN("flags", 33), tN("enum", 300), tRec("record"))
	shapes(base, func(t *T) {
		if g.Mine() {
			f(t)
		}
	})
	if g.Tier == "thorough" {
		var second []*T
		for _, a := range []string{"u8", "u16", "u32", "u64", "f32", "f64", "string"} {
			second = append(second, prim(a), tOpt(prim(a)), tRec("tuple", prim("u8"), prim(a)))
		}
		shapes(second, func(t *T) {
			if g.Mine() {
				f(t)
			}
		})
	}
	for n := 0; n <= 130; n++ {
		if g.Mine() {
			f(tN("flags", n))
		}
	}
	for _, n := range []int{0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 65534, 65535, 65536, 65537, 65538, 70000} {
		if g.Mine() {
			f(tN("enum", n))
		}
		if n >= 1 && g.Mine() {
			f(tVar(n-1, C{L: 0, T: Seq[*T]{prim("u8")}}))
		}
		if n >= 1 && g.Mine() {
			f(tVar(n-1, C{L: 0, T: Seq[*T]{prim("u64")}}))
		}
	}
	bad := []*T{prim("stream"), tN("enum", 0), tRec("union"), tVar(0)}
	for _, b := range bad {
		for _, t := range []*T{b, tList(b), tOpt(b), tRec("record", prim("u8"), b), tRec("tuple", b, prim("u32")), tRes(nil, Seq[*T]{b}), tVar(0, C{L: 0, T: Seq[*T]{prim("u16")}}, C{L: 1, T: Seq[*T]{b}}), tOpt(tRec("record", b)), tRec("record", tOpt(b)), tVar(300, C{L: 0, T: Seq[*T]{b}})} {
			if g.Mine() {
				f(t)
			}
		}
	}
	for i, n := 0, g.N(2500, 30000); i < n; i++ {
		f(g.typ(1+g.Intn(5), typeOpts{handles: true, rts: 2, bad: g.Chance(0.3), big: g.Chance(0.1)}))
	}
}

func genLayout(g *Gen, emit func(string, any)) {
	g.typeCases(func(t *T) {
		emit("layout:"+t.K, &AbiIn{Op: "layout", T: t, Impl: g.implTypes()})
		if isVariant(t) {
			emit("disc:"+t.K, &AbiIn{Op: "disc", T: t, Impl: g.implTypes()})
		}
	})
}

func genFlat(g *Gen, emit func(string, any)) {
	g.typeCases(func(t *T) {
		emit("flat:"+t.K, &AbiIn{Op: "flat", T: t, Impl: g.implTypes()})
	})
	some := func(n int) *Seq[*T] {
		s := Seq[*T]{}
		bad := g.Chance(0.05)
		for i := 0; i < n; i++ {
			s = append(s, g.typ(g.Intn(3), typeOpts{handles: true, rts: 2, bad: bad}))
		}
		return &s
	}
	same := func(n int) *Seq[*T] {
		s := Seq[*T]{}
		t := prim(pick(g, "u8", "u64", "f32", "f64"))
		for i := 0; i < n; i++ {
			s = append(s, t)
		}
		return &s
	}
	for _, dir := range []string{"lift", "lower"} {
		for np := 0; np <= 18; np++ {
			for nr := 0; nr <= 3; nr++ {
				if g.Mine() {
					emit("sig:edge", &AbiIn{Op: "sig", Dir: dir, Ps: same(np), Rs: same(nr), MaxP: 16, MaxR: 1, Impl: g.implTypes()})
				}
			}
		}
		for i, n := 0, g.N(1500, 20000); i < n; i++ {
			emit("sig:random", &AbiIn{Op: "sig", Dir: dir, Ps: some(g.Intn(8)), Rs: some(g.Intn(4)), MaxP: pick(g, 16, 16, 0, 1, 2, 4, 7), MaxR: pick(g, 1, 1, 0, 2, 16), Impl: g.implTypes()})
		}
	}
}

// memory of n bytes with recognizable contents
func (g *Gen) memory(n int) Ints {
	m := make(Ints, n)
	for i := range m {
		m[i] = g.Intn(256)
	}
	return m
}

func (g *Gen) grants() Seq[Grant] {
	var gr Seq[Grant]
	for g.Chance(0.3) {
		gr = append(gr, Grant{Mode: "bump", P: u32b(uint32(g.Intn(3)))})
	}
	return gr
}

// valueAt makes a store input: value of type t at an aligned address.
func (g *Gen) valueAt(t *T, v *V, enc string) *AbiIn {
	p := alignUp(g.Intn(24), t.align())
	heap := p + t.size() + g.Intn(5)
	n := heap + t.heap(v) + 16
	in := &AbiIn{Op: "store", T: t, V: v, P: u32b(uint32(p)), Enc: enc, Heap: heap, Impl: g.implTypes(), Gr: g.grants()}
	for _, x := range in.Gr {
		n += 8 * int(ule(x.P))
	}
	in.Mem = g.memory(n)
	return in
}

// cleanText removes what the encoding cannot hold.
// taggable tells whether it matters what is in the top bit of the length of a
// string: the tag, or in utf-8 a length no memory has.
func taggable(enc string) bool { return enc == "latin1+utf16" || enc == "utf-8" }

func (g *Gen) enc() string { return encodings[g.Intn(len(encodings))] }

func genMemory(g *Gen, emit func(string, any)) {
	base := append(primTypes(), tN("flags", 3), tN("flags", 12), tN("flags", 40), tN("flags", 70), tN("enum", 3), tRec("record"))
	reps := 1
	if g.Tier == "thorough" {
		reps = 6
	}
	shapes(base, func(t *T) {
		if g.Mine() {
			for i := 0; i < reps; i++ {
				emit("store:"+t.K, g.valueAt(t, g.val(t), g.enc()))
			}
		}
	})
	// every discriminant width and every edge of it
	for _, n := range []int{1, 2, 255, 256, 257, 512, 1000} {
		t := tN("enum", n)
		for _, l := range []int{0, 1, n / 2, 254, 255, 256, 257, n - 1} {
			if l < n && l >= 0 && g.Mine() {
				emit("store:edge", g.valueAt(t, leaf(padLabel+l), "utf-8"))
			}
		}
	}
	if g.Mine() {
		t := tVar(65600, C{L: 0, T: Seq[*T]{prim("u64")}})
		emit("store:edge", g.valueAt(t, leaf(padLabel+65599), "utf-8"))
		emit("store:edge", g.valueAt(t, &V{N: Ints{0}, S: Seq[*V]{leaf(1, 2, 3, 4, 5, 6, 7, 8)}}, "utf-8"))
	}
	for n := 0; n <= 100; n++ {
		if g.Mine() {
			t := tN("flags", n)
			emit("store:flags", g.valueAt(t, g.val(t), "utf-8"))
			for i := 0; i < n; i += 1 + g.Intn(7) {
				v := &V{N: make(Ints, n)}
				v.N[i] = 1
				emit("store:flags", g.valueAt(t, v, "utf-8"))
			}
		}
	}
	for n := g.N(10, 60); n > 0; n-- {
		t, v := g.long()
		emit("store:long", g.valueAt(t, v, g.enc()))
	}
	if g.Shard < 2 {
		t, v := g.far()
		emit("store:far", g.valueAt(t, v, g.enc()))
	}
	for i, n := 0, g.N(3200, 50000); i < n; i++ {
		t := g.typ(1+g.Intn(4), typeOpts{handles: i%4 == 0, rts: 2})
		if t.size() > 400 {
			continue
		}
		in := g.valueAt(t, g.val(t), g.enc())
		if i%4 == 0 {
			in.Pre = g.pre()
		}
		emit("store:random", in)
	}
}

func (g *Gen) pre() Seq[PreH] {
	var p Seq[PreH]
	for i, n := 0, g.Intn(5); i < n; i++ {
		p = append(p, PreH{R: 1 + g.Intn(2), Rep: u32b(uint32(100 + g.Intn(1000)))})
	}
	return p
}

func (g *Gen) lowerIn(t *T, v *V, enc string) *AbiIn {
	heap := g.Intn(9)
	in := &AbiIn{Op: "lower", T: t, V: v, Enc: enc, Heap: heap, Impl: g.implTypes(), Gr: g.grants()}
	n := heap + t.heap(v) + 16
	for _, x := range in.Gr {
		n += 8 * int(ule(x.P))
	}
	in.Mem = g.memory(n)
	return in
}

func (g *Gen) coreOfKind(k string, limit int) Core {
	switch k {
	case "f32":
		return Core{k, g.f32bits()}
	case "f64":
		return Core{k, g.f64bits()}
	case "i64":
		if g.Chance(0.5) {
			return Core{k, le(uint64(g.Intn(limit+3)), 8)}
		}
		return Core{k, g.bits(8)}
	}
	if g.Chance(0.5) {
		return Core{k, u32b(uint32(g.Intn(limit + 3)))}
	}
	return Core{k, g.bits(4)}
}

func (g *Gen) liftIn(t *T, enc string) *AbiIn {
	mem := g.Intn(60)
	in := &AbiIn{Op: "lift", T: t, Enc: enc, Mem: g.memory(mem), Impl: g.implTypes()}
	for _, k := range t.flat() {
		in.F = append(in.F, g.coreOfKind(k, pick(g, 3, 8, mem)))
	}
	if !taggable(enc) {
		g.clearTags(t, in.F, func(i int) {
			if in.F[i].K == "i32" || in.F[i].K == "i64" {
				in.F[i].B[3] &= 0x7f
			}
		})
	}
	return in
}

// clearTags calls f for every core value; lengths are not told apart from
// other numbers because a variant may overlay them.
func (g *Gen) clearTags(t *T, fs Seq[Core], f func(i int)) {
	if !t.hasString() {
		return
	}
	for i := range fs {
		f(i)
	}
}

func (t *T) hasString() bool {
	if t.K == "string" {
		return true
	}
	if t.K == "list" {
		return t.E.hasString()
	}
	if t.K == "record" || t.K == "tuple" {
		for _, x := range *t.Ts {
			if x.hasString() {
				return true
			}
		}
		return false
	}
	ps, _ := t.cases()
	for _, x := range ps {
		if x.hasString() {
			return true
		}
	}
	return false
}

// zeroList reports lists of elements without size, whose length is unbounded.
func (t *T) zeroList() bool {
	switch t.K {
	case "list":
		return t.E.size() == 0 || t.E.zeroList()
	case "record", "tuple":
		for _, x := range *t.Ts {
			if x.zeroList() {
				return true
			}
		}
		return false
	}
	ps, _ := t.cases()
	for _, x := range ps {
		if x.zeroList() {
			return true
		}
	}
	return false
}

func genFlatValues(g *Gen, emit func(string, any)) {
	base := append(primTypes(), tN("flags", 3), tN("flags", 33), tN("flags", 70), tN("enum", 3), tRec("record"))
	reps := 1
	if g.Tier == "thorough" {
		reps = 5
	}
	shapes(base, func(t *T) {
		if g.Mine() {
			for i := 0; i < reps; i++ {
				emit("lower:"+t.K, g.lowerIn(t, g.val(t), g.enc()))
				if !t.zeroList() {
					emit("lift:"+t.K, g.liftIn(t, g.enc()))
				}
			}
		}
	})
	for n := g.N(6, 40); n > 0; n-- {
		t, v := g.long()
		emit("lower:long", g.lowerIn(t, v, g.enc()))
	}
	if g.Shard < 2 {
		t, v := g.far()
		emit("lower:far", g.lowerIn(t, v, g.enc()))
	}
	for i, n := 0, g.N(2000, 30000); i < n; i++ {
		t := g.typ(1+g.Intn(4), typeOpts{handles: i%4 == 0, rts: 2})
		if t.size() > 300 {
			continue
		}
		in := g.lowerIn(t, g.val(t), g.enc())
		if i%4 == 0 {
			in.Pre = g.pre()
		}
		emit("lower:random", in)
	}
	for i, n := 0, g.N(1200, 20000); i < n; i++ {
		emit("lowervals", g.lowerVals(false))
		t := g.typ(1+g.Intn(4), typeOpts{rts: 2, noList: true})
		if t.zeroList() || t.size() > 300 {
			continue
		}
		emit("lift:random", g.liftIn(t, g.enc()))
	}
	for i, n := 0, g.N(800, 15000); i < n; i++ {
		if in := g.liftVals(); in != nil {
			emit("liftvals", in)
		}
	}
}

// lowerVals makes a list of values around the flat limit.
func (g *Gen) lowerVals(faults bool) *AbiIn {
	in := &AbiIn{Op: "lowervals", Enc: g.enc(), Heap: g.Intn(9), Impl: g.implTypes(), Gr: g.grants(), MaxP: pick(g, 16, 16, 1, 0, 2, 4)}
	ps, vs := Seq[*T]{}, Seq[*V]{}
	n := g.Intn(5)
	if g.Chance(0.2) {
		n = 8 + g.Intn(20)
	}
	size := in.Heap + 32
	for i := 0; i < n; i++ {
		t := g.typ(g.Intn(3), typeOpts{handles: g.Chance(0.2), rts: 2})
		if n > 5 {
			t = g.prim()
		}
		if t.size() > 100 {
			t = prim("u8")
		}
		v := g.val(t)
		ps, vs = append(ps, t), append(vs, v)
		size += t.size() + 8 + t.heap(v)
	}
	in.Ps, in.Vs = &ps, &vs
	if g.Chance(0.4) {
		rec := tRec("tuple", ps...)
		p := alignUp(g.Intn(16), rec.align())
		in.Out = Seq[Ints]{u32b(uint32(p))}
		in.Heap = p + rec.size()
		size += in.Heap
	}
	for _, x := range in.Gr {
		size += 8 * int(ule(x.P))
	}
	in.Mem = g.memory(size)
	return in
}

// liftVals makes core values around the flat limit, in registers or memory.
func (g *Gen) liftVals() *AbiIn {
	in := &AbiIn{Op: "liftvals", Enc: "utf-8", Impl: g.implTypes(), MaxP: pick(g, 16, 16, 1, 0, 2, 4)}
	ps := Seq[*T]{}
	n := g.Intn(5)
	if g.Chance(0.3) {
		n = 8 + g.Intn(20)
	}
	for i := 0; i < n; i++ {
		t := g.typ(g.Intn(2), typeOpts{noList: true})
		if n > 5 {
			t = g.prim()
		}
		if t.hasString() || t.zeroList() {
			t = prim(pick(g, "u8", "u16", "f64", "s64", "bool"))
		}
		ps = append(ps, t)
	}
	in.Ps = &ps
	rec := tRec("tuple", ps...)
	if rec.size() > 400 {
		return nil
	}
	if fl := flatAll(ps); len(fl) <= in.MaxP {
		in.Mem = g.memory(g.Intn(20))
		for _, k := range fl {
			in.F = append(in.F, g.coreOfKind(k, 3))
		}
		return in
	}
	p := alignUp(g.Intn(20), rec.align())
	in.Mem = make(Ints, p+rec.size()+g.Intn(3))
	for i := range in.Mem { // small numbers keep discriminants and chars valid
		in.Mem[i] = g.Intn(256)
		if g.Chance(0.6) {
			in.Mem[i] = g.Intn(2)
		}
	}
	in.F = Seq[Core]{{"i32", u32b(uint32(p))}}
	return in
}

// genUntrusted lifts what no well-behaved guest would pass.
func genUntrusted(g *Gen, emit func(string, any)) {
	ptr := func(mem int) Ints {
		switch g.Intn(6) {
		case 0:
			return u32b(uint32(mem - g.Intn(mem+1)))
		case 1:
			return u32b(uint32(mem + g.Intn(9)))
		case 2:
			return u32b(uint32(0xffffffff - g.Intn(20)))
		case 3:
			return u32b(pick[uint32](g, 0x7fffffff, 0x80000000, 0xfffffff8, 0xfffffffc, 0x40000000, 0x3fffffff, 0x100))
		}
		return u32b(uint32(g.Intn(mem + 1)))
	}
	length := func(mem int) Ints {
		switch g.Intn(6) {
		case 0:
			return u32b(pick[uint32](g, 0x20000000, 0x40000000, 0x10000000, 0x7fffffff, 0x15555556, 0x55555556, 0x1fffffff, 0x3fffffff))
		case 1:
			return u32b(uint32(0x7fffffff - g.Intn(40)))
		case 2:
			return u32b(uint32(mem))
		}
		return u32b(uint32(g.Intn(mem/2 + 2)))
	}
	clear := func(t *T, enc string, b Ints) Ints {
		if !taggable(enc) && t.hasString() {
			b[3] &= 0x7f
		}
		return b
	}
	elem := func() *T {
		for {
			t := g.typ(g.Intn(3), typeOpts{handles: g.Chance(0.2), rts: 2})
			if t.size() > 0 && t.size() < 100 && !t.zeroList() {
				return t
			}
		}
	}
	// strings and lists, flat and in memory
	for i, n := 0, g.N(2400, 40000); i < n; i++ {
		mem := g.Intn(80)
		t := prim("string")
		if g.Chance(0.6) {
			t = tList(elem())
		}
		enc := g.enc()
		p, l := ptr(mem), length(mem)
		if g.Chance(0.2) { // wraps around 2^32
			l = u32b(uint32((1<<32 - ule(p)) / uint64(maxI(1, g.Intn(9)))))
		}
		l = clear(t, enc, l)
		if g.Chance(0.1) && taggable(enc) {
			l[3] |= 0x80
		}
		in := &AbiIn{Op: "lift", T: t, Enc: enc, Mem: g.memory(mem), Impl: g.implTypes(), Pre: g.pre(), F: Seq[Core]{{"i32", p}, {"i32", l}}}
		if t.hasString() && t.K == "list" && (!taggable(enc) || g.Chance(0.7)) {
			g.quietMem(in.Mem)
		}
		emit("lift:range", in)
		if mem >= 8 {
			in := &AbiIn{Op: "load", T: t, Enc: enc, Mem: g.memory(mem), Impl: g.implTypes(), Pre: g.pre()}
			at := g.Intn(mem/8) * 8
			if t.hasString() && t.K == "list" {
				g.quietMem(in.Mem)
			}
			copy(in.Mem[at:], p)
			copy(in.Mem[at+4:], l)
			in.P = u32b(uint32(at))
			emit("load:range", in)
		}
	}
	// any type over arbitrary memory at addresses in, at the end of and outside it
	for i, n := 0, g.N(2400, 40000); i < n; i++ {
		t := elem()
		mem := g.Intn(64)
		in := &AbiIn{Op: "load", T: t, Enc: g.enc(), Mem: g.memory(mem), Impl: g.implTypes(), Pre: g.pre()}
		if g.Chance(0.6) {
			g.quietMem(in.Mem)
		} else if t.hasString() && !taggable(in.Enc) {
			g.quietMem(in.Mem)
		}
		p := ule(ptr(mem))
		p -= p % uint64(t.align())
		if g.Chance(0.3) {
			p = uint64(alignUp(maxI(0, mem-t.size()), t.align()))
		}
		in.P = u32b(uint32(p))
		emit("load:any", in)
	}
	// arbitrary core values for any type
	for i, n := 0, g.N(2400, 40000); i < n; i++ {
		t := elem()
		in := g.liftIn(t, g.enc())
		in.Pre = g.pre()
		if t.hasString() && (!taggable(in.Enc) || g.Chance(0.7)) {
			g.quietMem(in.Mem)
		}
		switch g.Intn(8) {
		case 0: // too few
			if len(in.F) > 0 {
				in.F = in.F[:g.Intn(len(in.F))]
			}
		case 1: // wrong kind
			if len(in.F) > 0 {
				j := g.Intn(len(in.F))
				in.F[j] = g.coreOfKind(pick(g, "i32", "i64", "f32", "f64"), 4)
				if !taggable(in.Enc) {
					in.F[j].B[3] &= 0x7f
				}
			}
		case 2: // more than needed
			in.F = append(in.F, g.coreOfKind(pick(g, "i32", "i64", "f32", "f64"), 4))
		}
		emit("lift:any", in)
	}
	// handles
	for i, n := 0, g.N(800, 10000); i < n; i++ {
		t := tHandle(pick(g, "own", "borrow"), 1+g.Intn(2))
		if g.Chance(0.5) {
			t = tRec("tuple", t, tHandle(pick(g, "own", "borrow"), 1+g.Intn(2)), tHandle(pick(g, "own", "borrow"), 1+g.Intn(2)))
		}
		in := g.liftIn(t, "utf-8")
		for j := range in.F {
			in.F[j].B = u32b(uint32(g.Intn(5)))
			if g.Chance(0.1) {
				in.F[j].B = u32b(pick[uint32](g, 0xffffffff, 0x80000000, 0x7fffffff, 0x10000, 256))
			}
		}
		in.Pre = g.pre()
		emit("lift:handle", in)
	}
	// spilled parameter lists
	for i, n := 0, g.N(800, 10000); i < n; i++ {
		in := g.liftVals()
		if in == nil {
			continue
		}
		if len(flatAll(*in.Ps)) > in.MaxP {
			rec := tRec("tuple", *in.Ps...)
			p := ptr(len(in.Mem))
			if g.Chance(0.5) {
				x := uint32(ule(p))
				p = u32b(x - x%uint32(rec.align()))
			}
			in.F[0].B = p
			if g.Chance(0.1) {
				in.F = nil
			} else if g.Chance(0.1) {
				in.F[0] = g.coreOfKind(pick(g, "i64", "f32", "f64"), 4)
			}
		} else if len(in.F) > 0 {
			in.F = in.F[:len(in.F)-1]
		}
		emit("liftvals:bad", in)
	}
}

// quietMem makes lengths and addresses found in memory small and free of the
// tag bit.
func (g *Gen) quietMem(m Ints) {
	for i := range m {
		m[i] &= 0x7f
		if i%4 != 0 && g.Chance(0.9) {
			m[i] = 0
		}
	}
}

// genLowerFaults lowers with failing allocators and ill-typed values.
func genLowerFaults(g *Gen, emit func(string, any)) {
	faults := func(n int, mem int) Seq[Grant] {
		var gr Seq[Grant]
		k := g.Intn(n)
		for i := 0; i < k; i++ {
			gr = append(gr, Grant{Mode: "bump"})
		}
		switch g.Intn(5) {
		case 0:
			gr = append(gr, Grant{Mode: "fail"})
		case 1: // odd address
			gr = append(gr, Grant{Mode: "at", P: u32b(uint32(g.Intn(mem+1) | 1))})
		case 2: // at the end of memory
			gr = append(gr, Grant{Mode: "at", P: u32b(uint32((mem - g.Intn(9)) &^ (pick(g, 0, 1, 3, 7))))})
		case 3: // wraps
			gr = append(gr, Grant{Mode: "at", P: u32b(uint32(0xfffffff8 - 8*g.Intn(8) + pick(g, 0, 0, 4, 7)))})
		case 4:
			gr = append(gr, Grant{Mode: "at", P: u32b(pick[uint32](g, 0x7ffffff8, 0x80000000, 0xfffffff0, 0x40000000, uint32(alignUp(mem, 8)), uint32(alignUp(mem, 8)+8)))})
		}
		return gr
	}
	allocType := func() *T {
		for {
			t := g.typ(1+g.Intn(3), typeOpts{handles: g.Chance(0.2), rts: 2})
			if t.size() < 100 && (t.hasString() || g.Chance(0.5)) {
				return t
			}
		}
	}
	for i, n := 0, g.N(2400, 40000); i < n; i++ {
		t := allocType()
		if g.Chance(0.3) {
			t = pick(g, prim("string"), tList(prim("u8")), tList(prim("u64")), tList(prim("string")), tList(tRec("tuple", prim("u8"), prim("u32"))))
		}
		v := g.val(t)
		in := g.valueAt(t, v, g.enc())
		in.Gr = faults(3, len(in.Mem))
		emit("store:alloc", in)
		in2 := g.lowerIn(t, v, g.enc())
		in2.Gr = faults(3, len(in2.Mem))
		emit("lower:alloc", in2)
	}
	// out of the way addresses for the value itself
	for i, n := 0, g.N(1200, 20000); i < n; i++ {
		t := allocType()
		v := g.val(t)
		in := g.valueAt(t, v, g.enc())
		if t.size() == 0 {
			continue
		}
		if g.Chance(0.3) && t.align() > 1 {
			in.P = u32b(uint32(ule(in.P)) + 1 + uint32(g.Intn(t.align()-1)))
		} else {
			mem := len(in.Mem)
			x := pick[uint32](g, uint32(mem), uint32(alignUp(mem, 8)), 0xfffffff8, 0x80000000, 0x7ffffff8, uint32(alignUp(mem-t.size()+1, t.align())))
			in.P = u32b(x - x%uint32(t.align()))
			if int(x) < mem { // keep clear of the heap
				in.Heap = 0
				in.Mem = in.Mem[:mem]
			}
		}
		if ule(in.P) < uint64(len(in.Mem)) && ule(in.P)+uint64(t.size()) <= uint64(len(in.Mem)) && ule(in.P)%uint64(t.align()) == 0 {
			continue
		}
		emit("store:address", in)
	}
	// ill-typed values
	for i, n := 0, g.N(3200, 50000); i < n; i++ {
		t := g.typ(g.Intn(4), typeOpts{handles: g.Chance(0.2), rts: 2})
		if t.size() > 200 {
			continue
		}
		v := g.val(t)
		in := g.valueAt(t, v, "utf-8")
		in2 := g.lowerIn(t, v, "utf-8")
		v = g.spoil(t, v)
		in.V, in2.V, in.Ill, in2.Ill = v, v, 1, 1
		emit("store:illtyped", in)
		emit("lower:illtyped", in2)
	}
	for _, t := range append(primTypes(), tHandle("own", 1), tHandle("borrow", 2), tN("flags", 3), tOpt(prim("u8")), tList(prim("u8")), tRec("record", prim("u8"))) {
		for i := 0; i < 40; i++ {
			if g.Mine() {
				v := g.val(t)
				in, in2 := g.valueAt(t, v, "utf-8"), g.lowerIn(t, v, "utf-8")
				in.V, in.Ill = g.illFor(t), 1
				in2.V, in2.Ill = in.V, 1
				emit("store:illtyped", in)
				emit("lower:illtyped", in2)
			}
		}
	}
	// lists of values: wrong number, ill-typed, bad result area
	for i, n := 0, g.N(1200, 20000); i < n; i++ {
		in := g.lowerVals(true)
		switch g.Intn(4) {
		case 0:
			in.Ill = 1
			if len(*in.Vs) > 0 && g.Chance(0.6) {
				vs := (*in.Vs)[:len(*in.Vs)-1]
				in.Vs = &vs
			} else {
				vs := append(Seq[*V]{}, *in.Vs...)
				vs = append(vs, leaf(7))
				in.Vs = &vs
			}
		case 1:
			if len(*in.Vs) == 0 {
				continue
			}
			in.Ill = 1
			j := g.Intn(len(*in.Vs))
			(*in.Vs)[j] = g.spoil((*in.Ps)[j], (*in.Vs)[j])
		case 2:
			in.Gr = faults(2, len(in.Mem))
		case 3:
			if len(in.Out) == 0 || len(flatAll(*in.Ps)) <= in.MaxP {
				continue
			}
			rec := tRec("tuple", *in.Ps...)
			x := pick[uint32](g, uint32(len(in.Mem)), 0xfffffff8, 0xffffffff, 0x80000000, uint32(ule(in.Out[0]))+1)
			if x == uint32(ule(in.Out[0]))+1 && rec.align() == 1 {
				continue
			}
			in.Out = Seq[Ints]{u32b(x)}
			if rec.size() == 0 {
				continue
			}
		}
		emit("lowervals:fault", in)
	}
}

func genStrings(g *Gen, emit func(string, any)) {
	all := []string{"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16"}
	interesting := []int{0, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}
	str := prim("string")
	if g.Shard < len(all) {
		s := g.text(50)
		for len(s) < 66000 {
			s = append(s, g.text(50)...)
			s = append(s, s...)
		}
		emit("lower:far", g.lowerIn(str, &V{N: s}, all[g.Shard]))
	}
	for _, enc := range all {
		for _, a := range interesting {
			for _, b := range append([]int{-1}, interesting...) {
				if !g.Mine() {
					continue
				}
				s := Ints{a}
				if b >= 0 {
					s = append(s, b)
				}
				emit("encode:"+enc, &AbiIn{Op: "encode", Enc: enc, Str: s, MaxP: pick(g, 0, 1, 2, -1, 3, 100)})
				emit("store:"+enc, g.valueAt(str, &V{N: s}, enc))
				emit("lower:"+enc, g.lowerIn(str, &V{N: s}, enc))
			}
		}
		for i, n := 0, g.N(500, 8000); i < n; i++ {
			s := g.text(pick(g, 3, 12, 40))
			if i < 2 {
				for len(s) < 4200 {
					s = append(s, g.text(50)...)
					s = append(s, s...)
				}
			}
			emit("encode:"+enc, &AbiIn{Op: "encode", Enc: enc, Str: s, MaxP: pick(g, 0, 1, 2, 3, 5, 7, -1, -2, 100, 101)})
			emit("store:"+enc, g.valueAt(str, &V{N: s}, enc))
			emit("lower:"+enc, g.lowerIn(str, &V{N: s}, enc))
			l := tList(str)
			v := node(&V{N: g.text(4)}, &V{N: g.text(4)}, &V{N: g.text(4)})
			emit("store:list:"+enc, g.valueAt(l, v, enc))
		}
		// bytes nobody encoded
		for i, n := 0, g.N(1000, 12000); i < n; i++ {
			mem := g.memory(2 * g.Intn(10))
			if g.Chance(0.7) {
				mem = g.dirtyText(enc)
			}
			p := 0
			if g.Chance(0.3) {
				p = g.Intn(len(mem) + 1)
			}
			max := len(mem) - p
			tag := 0
			if enc == "latin1+utf16" && g.Chance(0.5) {
				tag = 0x80
			}
			if enc == "utf-16" || enc == "utf-16-le" || enc == "utf-16-be" || tag > 0 {
				max /= 2
			}
			l := u32b(uint32(max))
			if g.Chance(0.3) {
				l = u32b(uint32(g.Intn(max + 1)))
			} else if g.Chance(0.1) {
				l = u32b(uint32(max + 1))
			}
			l[3] |= tag
			emit("lift:"+enc, &AbiIn{Op: "lift", T: str, Enc: enc, Mem: mem, F: Seq[Core]{{"i32", u32b(uint32(p))}, {"i32", l}}})
		}
	}
}

// dirtyText is encoded text with one or two bytes or units spoilt.
func (g *Gen) dirtyText(enc string) Ints {
	var b Ints
	for i, n := 0, 1+g.Intn(5); i < n; i++ {
		c := g.scalar()
		switch {
		case enc == "utf-8":
			b = append(b, byteInts([]byte(string(rune(c))))...)
		default:
			u := c
			if u > 0xffff {
				h, l := 0xd800+(c-0x10000)>>10, 0xdc00+(c-0x10000)&0x3ff
				b = append(b, h&255, h>>8)
				u = l
			}
			b = append(b, u&255, u>>8)
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		j := g.Intn(len(b))
		switch g.Intn(4) {
		case 0:
			b[j] = pick(g, 0x80, 0xbf, 0xc0, 0xc1, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xd8, 0xdc, 0xdf, 0xdb, 0xa0, 0x9f, 0x8f, 0x90)
		case 1:
			b = append(b[:j:j], b[j+1:]...)
			if len(b) == 0 {
				b = Ints{0xff, 0xd8}
			}
		case 2:
			b[j] = g.Intn(256)
		case 3:
			b = append(b, pick(g, 0xc2, 0xe1, 0xf1, 0x00), 0xd8)
		}
	}
	if len(b)%2 == 1 {
		b = append(b, pick(g, 0x41, 0xdc, 0xe2))
	}
	return b
}
