package main

import (
	"encoding/json"
	"errors"
	"math/rand"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// A session is a history of handle operations and nested calls between the
// host and component instances.  It is either spelled out by the specification
// (Steps) or chosen while it runs from Seed, looking at the handles there are.

// Step is one operation.
type Step struct {
	Op   string    `json:"op"`
	I    int       `json:"i"`
	R    int       `json:"r"`
	C    int       `json:"c"`
	K    int       `json:"k"`
	Ix   Ints      `json:"ix"`
	Rep  Ints      `json:"rep"`
	Ps   Seq[*T]   `json:"ps"`
	Rs   Seq[*T]   `json:"rs"`
	MaxP int       `json:"maxp"`
	MaxR int       `json:"maxr"`
	Vs   Seq[*V]   `json:"vs"`
	F    Seq[Core] `json:"f"`
	Ci   int       `json:"ci"`
}

// Obs is the state of the instances as far as it can be seen.
type Obs struct {
	Me  Ints                      `json:"me"`
	Ml  Ints                      `json:"ml"`
	H   Seq[Seq[Seq[Seq[HElem]]]] `json:"h"`
	Dt  Seq[Seq[Ints]]            `json:"dt"`
	Mem Seq[Ints]                 `json:"mem"`
	Nr  int                       `json:"nr"`
}

// CanonEv is a recorded event: an operation with its outcome, a callee being
// entered, a call ending, a post-return hook running.
type CanonEv struct {
	Step
	St     string `json:"st"`
	Lifted int    `json:"lifted"`
	Seen   int    `json:"seen"`
	Ob     *Obs   `json:"ob,omitempty"`
}

type CanonAlloc struct {
	ReallocCall
	I   int    `json:"i"`
	Ml  int    `json:"ml"`
	Att string `json:"att"` // outcome of calling out of the instance from its allocator
	Ati string `json:"ati"` // ... of calling into it
	Ran int    `json:"ran"`
}

type CanonIn struct {
	Asp   string      `json:"asp"`
	Msz   Ints        `json:"msz"` // memory sizes
	Enc   Seq[string] `json:"enc"`
	Hook  Ints        `json:"hook"`
	Impl  Ints        `json:"impl"`
	Nd    Ints        `json:"nd"`
	Heap  int         `json:"heap"`
	Seed  int64       `json:"seed"`
	Len   int         `json:"len"`
	Mode  string      `json:"mode"`
	Fill  int         `json:"fill"` // handles made before anything else
	Steps Seq[Step]   `json:"steps"`
}

type CanonOut struct {
	St string          `json:"st"`
	Ev Seq[*CanonEv]   `json:"ev"`
	R  Seq[CanonAlloc] `json:"R"`
}

type callFrame struct {
	kind    string
	step    *Step
	f       Seq[Core] // core arguments received
	vs      Seq[*V]   // values received
	borrows [][2]int  // borrowed handles made by this call: resource type, index
	leak    bool      // some of them are still there at the end
	lifts   []int     // lifted calls finished inside
	last    Seq[*V]   // results of the last of them
	lastOf  *Step
}

type session struct {
	in     *CanonIn
	w      *World
	g      *Gen
	opts   []*types.CanonicalOptions
	heap   []uint32
	ev     Seq[*CanonEv]
	R      Seq[CanonAlloc]
	posts  []types.PostReturnFunc
	postI  []int
	posted []bool // or must not be
	ctx    []*types.CallContext
	ctxI   []int
	gone   []bool
	frames []*callFrame
	over   bool
	calls  int // > 0 while a call may be lowering
	left   int
	fill   int
	rep    int
	last   []string // memories as last recorded
	next   int
	// core values of the last put
	lastPut Seq[Core]
}

var errThrow = errors.New("callee failed")

// pattern is the initial memory of instance n (from 0).
func pattern(n, size int) []byte {
	m := make([]byte, size)
	for j := range m {
		m[j] = byte(7*j + 3 + n)
	}
	return m
}

func (in *CanonIn) start() *session {
	s := &session{in: in, left: in.Len}
	s.w = newWorldNd(len(in.Msz), in.Impl, in.Nd)
	s.g = &Gen{Rand: rand.New(rand.NewSource(in.Seed)), Shards: 1}
	for n := range in.Msz {
		n := n
		s.heap = append(s.heap, uint32(in.Heap))
		o := options(pattern(n, in.Msz[n]), in.Enc[n], &Alloc{})
		o.Realloc = func(a, b, c, d uint32) (uint32, error) { return s.realloc(n+1, a, b, c, d) }
		if in.Hook[n] == 1 {
			o.PostReturn = func() { s.log(&CanonEv{Step: Step{Op: "hook", I: n + 1}, Seen: 1, Ob: s.see()}) }
		}
		s.opts = append(s.opts, o)
		s.last = append(s.last, string(pattern(n, in.Msz[n])))
	}
	return s
}

func (s *session) inst(i int) *types.ComponentInstance { return s.w.Insts[i-1] }

func (s *session) realloc(i int, origPtr, origSize, align, size uint32) (uint32, error) {
	e := CanonAlloc{I: i, Ml: b2i(s.inst(i).MayLeave)}
	e.A, e.N, e.P = clampInt(align), clampInt(size), Ints{0, 0, 0, 0}
	e.O = b2i(origPtr == 0 && origSize == 0)
	if s.calls > 0 && s.in.Asp == "C04" {
		ft := types.NewFuncType(nil, nil)
		_, err := io.CanonLower(s.opts[i-1], s.inst(i), func([]any) ([]any, types.PostReturnFunc, error) {
			e.Ran = 1
			return []any{}, func() {}, nil
		}, true, ft, nil, 16, 1)
		e.Att = outcome(err)
		_, _, err = io.CanonLift(s.opts[i-1], s.inst(i), func(any) (any, error) {
			e.Ran = 1
			return []any{}, nil
		}, ft, nil, 16, 1)
		e.Ati = outcome(err)
	}
	p := s.heap[i-1]
	if align > 1 {
		p = (p + align - 1) / align * align
	}
	s.heap[i-1] = p + size
	e.Ok, e.P = 1, u32b(p)
	s.R = append(s.R, e)
	return p, nil
}

func (s *session) see() *Obs {
	o := &Obs{H: s.w.tables(nil), Nr: len(s.R)}
	o.Dt = append(o.Dt, s.w.Dtor...)
	for n, inst := range s.w.Insts {
		o.Me = append(o.Me, b2i(inst.MayEnter))
		o.Ml = append(o.Ml, b2i(inst.MayLeave))
		m := string(s.opts[n].Memory.Bytes())
		if m == s.last[n] {
			o.Mem = append(o.Mem, Ints{})
		} else {
			o.Mem = append(o.Mem, byteInts([]byte(m)))
			s.last[n] = m
		}
	}
	return o
}

func (s *session) log(e *CanonEv) *CanonEv {
	s.ev = append(s.ev, e)
	return e
}

func (s *session) goTypes(ts []*T) []types.ValType {
	r := []types.ValType{}
	for _, t := range ts {
		r = append(r, t.Go(s.w))
	}
	return r
}

func goVals(ts []*T, vs []*V) []any {
	r := []any{}
	for i, v := range vs {
		r = append(r, ts[i].ToGo(v))
	}
	return r
}

func (s *session) funcType(st *Step) types.FuncType {
	ps := func(ts []*T) []types.Parameter {
		r := []types.Parameter{}
		for i, t := range s.goTypes(ts) {
			r = append(r, types.Parameter{Name: string(rune(0x61 + i%26)), Type: t})
		}
		return r
	}
	return types.NewFuncType(ps(st.Ps), ps(st.Rs))
}

func coresOf(xs []any) Seq[Core] {
	r := Seq[Core]{}
	for _, x := range xs {
		r = append(r, coreOf(x))
	}
	return r
}

func coreAnys(f []Core) []any {
	r := []any{}
	for _, c := range f {
		r = append(r, any(c.Go()))
	}
	return r
}

// perform runs one step that is not a return.
func (s *session) perform(st *Step) {
	switch st.Op {
	case "new":
		e := &CanonEv{Step: *st, Seen: 1}
		x, err := io.CanonResourceNew(s.inst(st.I), s.w.Rts[st.R-1], uint32(ule(st.Rep)))
		e.St = outcome(err)
		if n, ok := x.(uint32); ok {
			e.Ix = u32b(n)
		} else {
			e.St = "shape"
		}
		e.Ob = s.see()
		s.log(e)
	case "rep":
		e := &CanonEv{Step: *st, Seen: 1}
		x, err := io.CanonResourceRep(s.inst(st.I), s.w.Rts[st.R-1], uint32(ule(st.Ix)))
		e.St, e.Rep, e.Ob = outcome(err), u32b(x), s.see()
		s.log(e)
	case "drop":
		e := &CanonEv{Step: *st, Seen: 1}
		impl := s.in.Impl[st.R-1]
		err := io.CanonResourceDrop(s.inst(st.I), s.w.Rts[st.R-1], uint32(ule(st.Ix)))
		e.St, e.Ob = outcome(err), s.see()
		s.log(e)
		if err != nil && impl != st.I && !s.inst(impl).MayEnter {
			s.over = true // the handle may be gone
		}
	case "ctx":
		s.ctx = append(s.ctx, &types.CallContext{Options: s.opts[st.I-1], Instance: s.inst(st.I)})
		s.ctxI, s.gone = append(s.ctxI, st.I), append(s.gone, false)
		s.log(&CanonEv{Step: *st})
	case "li":
		e := &CanonEv{Step: *st, Seen: 1}
		var vs []values.Value
		for _, c := range st.F {
			vs = append(vs, c.Go())
		}
		x, err := io.LiftFlat(s.ctx[st.C-1], values.NewIterator(vs...), st.Ps[0].Go(s.w))
		e.St = outcome(err)
		if err == nil {
			e.Vs = st.Ps[0].out(x, &e.St)
		}
		e.Ob = s.see()
		s.log(e)
	case "lo":
		e := &CanonEv{Step: *st, Seen: 1}
		fl, err := io.LowerFlat(s.ctx[st.C-1], st.Ps[0].ToGo(st.Vs[0]), st.Ps[0].Go(s.w))
		e.St = outcome(err)
		if err == nil {
			e.F = cores(fl)
		}
		e.Ob = s.see()
		s.log(e)
	case "exit":
		e := &CanonEv{Step: *st, Seen: 1}
		err := s.ctx[st.C-1].ExitCall()
		e.St, e.Ob = outcome(err), s.see()
		s.gone[st.C-1] = err == nil
		s.log(e)
	case "put":
		s.put(st)
	case "lift":
		s.lift(st)
	case "lower":
		s.lower(st)
	case "post":
		s.log(&CanonEv{Step: *st})
		s.posted[st.K-1] = true
		s.posts[st.K-1]()
		s.log(&CanonEv{Step: Step{Op: "end"}, St: "ok", Lifted: 1, Seen: 1, Ob: s.see()})
	default:
		panic("harness: step " + st.Op)
	}
}

// put lowers values into an instance outside any call.
func (s *session) put(st *Step) Seq[Core] {
	e := &CanonEv{Step: *st, Seen: 1}
	cx := &types.CallContext{Options: s.opts[st.I-1], Instance: s.inst(st.I)}
	calls := s.calls
	s.calls = 0
	fl, err := io.LowerValues(cx, st.MaxP, goVals(st.Ps, st.Vs), s.goTypes(st.Ps), nil)
	s.calls = calls
	e.St = outcome(err)
	e.F = coresOf(fl)
	s.lastPut = e.F
	e.Ob = s.see()
	s.log(e)
	if err != nil {
		s.over = true
	}
	return e.F
}

// body runs the steps of a callee up to its return.
func (s *session) body() *Step {
	for !s.over {
		st := s.choose()
		if st == nil || s.over {
			break
		}
		if st.Op == "ret" || st.Op == "throw" {
			return st
		}
		s.perform(st)
	}
	s.over = true
	return nil
}

func (s *session) lift(st *Step) {
	s.log(&CanonEv{Step: *st})
	inst := s.inst(st.I)
	refused := !inst.MayEnter || !inst.MayLeave
	depth := len(s.frames)
	before := s.borrowed(st.I)
	callee := func(flat any) (any, error) {
		calls := s.calls
		s.calls = 0
		defer func() { s.calls = calls }()
		e := &CanonEv{Step: Step{Op: "callee"}, Seen: 1}
		fl, ok := flat.([]any)
		if ok {
			e.F = coresOf(fl)
		} else {
			e.F = Seq[Core]{{K: "?"}}
		}
		fr := &callFrame{kind: "lift", step: st, f: e.F}
		for h := range s.borrowed(st.I) {
			if !before[h] {
				fr.borrows = append(fr.borrows, h)
			}
		}
		e.Ob = s.see()
		s.log(e)
		s.frames = append(s.frames, fr)
		r := s.body()
		if r == nil {
			return nil, errThrow
		}
		s.log(&CanonEv{Step: *r})
		if r.Op == "throw" {
			return nil, errThrow
		}
		return coreAnys(r.F), nil
	}
	s.calls++
	xs, post, err := io.CanonLift(s.opts[st.I-1], inst, callee, s.funcType(st), goVals(st.Ps, st.Vs), st.MaxP, st.MaxR)
	s.calls--
	if s.over {
		return
	}
	leak := false
	if len(s.frames) > depth {
		leak = s.frames[depth].leak
	}
	s.frames = s.frames[:depth]
	e := &CanonEv{Step: Step{Op: "end"}, Lifted: 1, Seen: 1, St: outcome(err)}
	if err == nil {
		e.Vs = outs(st.Rs, xs, &e.St)
		s.posts, s.postI, s.posted = append(s.posts, post), append(s.postI, st.I), append(s.posted, leak)
		if depth > 0 {
			fr := s.frames[depth-1]
			fr.lifts, fr.last, fr.lastOf = append(fr.lifts, len(s.posts)), e.Vs, st
		}
	} else if !refused {
		s.over = true
	}
	e.Ob = s.see()
	s.log(e)
}

func (s *session) lower(st *Step) {
	s.log(&CanonEv{Step: *st})
	inst := s.inst(st.I)
	refused := !inst.MayEnter || !inst.MayLeave
	depth := len(s.frames)
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		calls := s.calls
		s.calls = 0
		e := &CanonEv{Step: Step{Op: "callee"}, Seen: 1}
		bad := ""
		e.Vs = outs(st.Ps, args, &bad)
		if bad != "" {
			e.Vs = Seq[*V]{leaf(-1)}
		}
		fr := &callFrame{kind: "lower", step: st, vs: e.Vs}
		e.Ob = s.see()
		s.log(e)
		s.frames = append(s.frames, fr)
		r := s.body()
		s.calls = calls
		if r == nil {
			return nil, nil, errThrow
		}
		s.log(&CanonEv{Step: *r})
		if r.Op == "throw" {
			return nil, nil, errThrow
		}
		post := types.PostReturnFunc(func() {})
		if r.K > 0 {
			s.posted[r.K-1] = true
			post = s.posts[r.K-1]
		}
		return goVals(st.Rs, r.Vs), post, nil
	}
	s.calls++
	fl, err := io.CanonLower(s.opts[st.I-1], inst, callee, st.Ci == 1, s.funcType(st), coreAnys(st.F), st.MaxP, st.MaxR)
	s.calls--
	if s.over {
		return
	}
	s.frames = s.frames[:depth]
	e := &CanonEv{Step: Step{Op: "end"}, Seen: 1, St: outcome(err)}
	if err == nil {
		e.F = coresOf(fl)
	} else if !refused {
		s.over = true
	}
	e.Ob = s.see()
	s.log(e)
}

func newWorldNd(n int, impl, nd []int) *World {
	w := newWorld(n, impl)
	for r, x := range nd {
		if x == 1 {
			w.Rts[r] = types.NewResourceType(nil, w.Insts[impl[r]-1])
		}
	}
	return w
}

func runCanon(in *CanonIn) *CanonOut {
	s := in.start()
	for !s.over {
		st := s.choose()
		if st == nil || s.over {
			break
		}
		if st.Op == "ret" || st.Op == "throw" {
			panic("harness: return outside a call")
		}
		s.perform(st)
	}
	return &CanonOut{"ok", s.ev, s.R}
}

type canonDriver struct{ asp string }

func (d canonDriver) Run(raw json.RawMessage) any {
	var in CanonIn
	if err := json.Unmarshal(raw, &in); err != nil {
		panic("harness: " + err.Error())
	}
	return runCanon(&in)
}

// ---- choosing ----

type slot struct {
	r, ix     int
	own, lend bool
}

func (s *session) slots(i int) []slot {
	var res []slot
	for r, tab := range s.w.tables(nil)[i-1] {
		for ix, e := range tab {
			if len(e) > 0 {
				res = append(res, slot{r + 1, ix, e[0].Own != 0, e[0].Lend > 0})
			}
		}
	}
	return res
}

func (s *session) borrowed(i int) map[[2]int]bool {
	m := map[[2]int]bool{}
	for _, h := range s.slots(i) {
		if !h.own {
			m[[2]int{h.r, h.ix}] = true
		}
	}
	return m
}

func (s *session) freshRep() Ints {
	s.rep++
	if s.g.Chance(0.1) {
		return s.g.bits(4)
	}
	return u32b(uint32(100 + s.rep))
}

// index picks a handle number for use in instance i, mostly a valid one.
func (s *session) index(i, r int, own bool, used map[[2]int]bool) Ints {
	if s.g.Chance(0.012) {
		return pick(s.g, u32b(uint32(s.g.Intn(6))), Ints{255, 255, 255, 255}, Ints{0, 0, 0, 1})
	}
	var xs []int
	for _, h := range s.slots(i) {
		if h.r == r && (!own || (h.own && !h.lend && !used[[2]int{r, h.ix}])) {
			xs = append(xs, h.ix)
		}
	}
	if len(xs) == 0 {
		return nil
	}
	x := xs[s.g.Intn(len(xs))]
	if used != nil {
		used[[2]int{r, x}] = true
	}
	return u32b(uint32(x))
}

// guestVal makes a value of t with handle numbers valid in instance i in place
// of handles, making handles where there are none.
func (s *session) guestVal(i int, t *T, used map[[2]int]bool) *V {
	if t.K == "own" || t.K == "borrow" {
		ix := s.index(i, t.Rt, t.K == "own", used)
		if ix == nil {
			// make one
			s.perform(&Step{Op: "new", I: i, R: t.Rt, Rep: s.freshRep()})
			ix = s.index(i, t.Rt, t.K == "own", used)
			if ix == nil {
				ix = u32b(0)
			}
		}
		return &V{N: ix}
	}
	switch t.K {
	case "record", "tuple":
		v := &V{}
		for _, x := range *t.Ts {
			v.S = append(v.S, s.guestVal(i, x, used))
		}
		return v
	case "list":
		v := &V{}
		for n := s.g.Intn(3); n > 0; n-- {
			x := s.guestVal(i, t.E, used)
			v.S = append(v.S, x)
		}
		return v
	case "option":
		v := leaf(s.g.Intn(2))
		if v.N[0] == 1 {
			x := s.guestVal(i, t.E, used)
			v.S = Seq[*V]{x}
		}
		return v
	}
	return s.g.val(plain(t))
}

// plain is t with numbers in place of handles.
func plain(t *T) *T {
	if t == nil {
		return nil
	}
	if t.K == "own" || t.K == "borrow" {
		return prim("u32")
	}
	seq := func(p *Seq[*T]) *Seq[*T] {
		if p == nil {
			return nil
		}
		r := Seq[*T]{}
		for _, x := range *p {
			r = append(r, plain(x))
		}
		return &r
	}
	r := &T{K: t.K, E: plain(t.E), Ts: seq(t.Ts), Pad: t.Pad, N: t.N, A: seq(t.A), B: seq(t.B)}
	if t.Cs != nil {
		cs := Seq[C]{}
		for _, c := range *t.Cs {
			c.T = *seq(&c.T)
			cs = append(cs, c)
		}
		r.Cs = &cs
	}
	return r
}

// coresFor puts values of the types ts into instance i and gives the core
// values that stand for them.
func (s *session) coresFor(i int, ts []*T, max int) Seq[Core] {
	st := &Step{Op: "put", I: i, MaxP: max}
	used := map[[2]int]bool{}
	for _, t := range ts {
		v := s.guestVal(i, t, used)
		st.Ps, st.Vs = append(st.Ps, plain(t)), append(st.Vs, v)
	}
	return s.put(st)
}

// hostVal makes a host value, with representations for handles.
func (s *session) hostVal(t *T) *V {
	switch t.K {
	case "own", "borrow":
		return &V{N: s.freshRep()}
	case "record", "tuple":
		v := &V{}
		for _, x := range *t.Ts {
			v.S = append(v.S, s.hostVal(x))
		}
		return v
	case "list":
		v := &V{}
		for n := s.g.Intn(3); n > 0; n-- {
			v.S = append(v.S, s.hostVal(t.E))
		}
		return v
	}
	return s.g.val(t)
}

func (s *session) hostVals(ts []*T) Seq[*V] {
	r := Seq[*V]{}
	for _, t := range ts {
		r = append(r, s.hostVal(t))
	}
	return r
}

func (s *session) sigType(result bool) *T {
	g := s.g
	h := func() *T {
		k := "own"
		if g.Chance(0.5) && (!result || g.Chance(0.1)) {
			k = "borrow"
		}
		return tHandle(k, 1+g.Intn(len(s.in.Impl)))
	}
	switch s.in.Mode {
	case "handles":
		switch g.Intn(8) {
		case 0:
			return prim("u32")
		case 1:
			return tRec("record", h(), prim("u8"), h())
		case 2:
			return tList(h())
		case 3:
			return tOpt(h())
		}
		return h()
	case "calls":
		switch g.Intn(6) {
		case 0:
			return h()
		case 1:
			return tList(prim("u16"))
		case 2, 3:
			return prim("string")
		case 4:
			return tRec("record", prim("u8"), prim("u64"))
		}
		return prim("u32")
	}
	return g.typ(g.Intn(3), typeOpts{})
}

func (s *session) signature(st *Step) {
	g := s.g
	np, nr := g.Intn(4), g.Intn(3)
	if s.in.Mode == "values" {
		np, nr = g.Intn(5), g.Intn(4)
		if g.Chance(0.1) {
			np = 8 + g.Intn(25)
		}
		if g.Chance(0.1) {
			nr = 8 + g.Intn(25)
		}
	}
	typ := func(n int, result bool) *T {
		if n > 4 {
			return g.prim()
		}
		return s.sigType(result)
	}
	for i := 0; i < np; i++ {
		st.Ps = append(st.Ps, typ(np, false))
	}
	for i := 0; i < nr; i++ {
		st.Rs = append(st.Rs, typ(nr, true))
	}
	st.MaxP, st.MaxR = s.limits(st)
}

// limits picks flat limits, often right at the number of core values.
func (s *session) limits(st *Step) (int, int) {
	lim := func(n, usual int) int {
		switch s.g.Intn(5) {
		case 0:
			return usual
		case 1:
			return n
		case 2:
			if n > 1 {
				return n - 1
			}
			return 1
		case 3:
			return 1
		}
		return s.g.Intn(20)
	}
	return lim(len(flatAll(st.Ps)), 16), lim(len(flatAll(st.Rs)), 1)
}

func (s *session) liftStep(i int) *Step {
	st := &Step{Op: "lift", I: i}
	s.signature(st)
	st.Vs = s.hostVals(st.Ps)
	return st
}

func (s *session) outPtr(i int, st *Step) {
	if len(flatAll(st.Rs)) > st.MaxR {
		t := tRec("tuple", st.Rs...)
		p := alignUp(int(s.heap[i-1]), t.align())
		s.heap[i-1] = uint32(p + t.size())
		st.F = append(append(Seq[Core]{}, st.F...), Core{"i32", u32b(uint32(p))})
	}
}

func (s *session) lowerStep(i int) *Step {
	st := &Step{Op: "lower", I: i, Ci: b2i(s.g.Chance(0.75))}
	s.signature(st)
	st.F = s.coresFor(i, st.Ps, st.MaxP)
	s.outPtr(i, st)
	return st
}

func (s *session) anyInst() int { return 1 + s.g.Intn(len(s.w.Insts)) }

// choose gives the next step, nil at the end.
func (s *session) choose() *Step {
	if s.in.Mode == "steps" {
		if s.next >= len(s.in.Steps) {
			if len(s.frames) > 0 {
				return &Step{Op: "throw"}
			}
			return nil
		}
		s.next++
		return s.resolve(s.in.Steps[s.next-1])
	}
	g := s.g
	s.left--
	if s.fill < s.in.Fill {
		s.fill++
		return &Step{Op: "new", I: 1, R: 1, Rep: s.freshRep()}
	}
	var fr *callFrame
	if n := len(s.frames); n > 0 {
		fr = s.frames[n-1]
	}
	if s.left <= 0 || (fr != nil && g.Chance(0.25)) {
		if fr == nil {
			return nil
		}
		return s.ret(fr)
	}
	if fr != nil && g.Chance(0.01) {
		return &Step{Op: "throw"}
	}
	// forward a call to another instance
	if fr != nil && fr.kind == "lower" && len(fr.lifts) == 0 && g.Chance(0.5) {
		st := &Step{Op: "lift", I: s.anyInst(), Ps: fr.step.Ps, Rs: fr.step.Rs, Vs: fr.vs}
		st.MaxP, st.MaxR = s.limits(st)
		return st
	}
	// call on from inside an instance
	if fr != nil && fr.kind == "lift" && g.Chance(0.25) {
		return s.lowerStep(fr.step.I)
	}
	i := s.anyInst()
	if fr != nil && fr.kind == "lift" && g.Chance(0.7) {
		i = fr.step.I
	}
	w := 12
	if s.in.Mode == "calls" {
		w = 6
	} else if s.in.Mode == "values" {
		w = 3
	}
	if len(s.frames) < 5 && g.Intn(12) >= w-3 {
		if g.Chance(0.5) {
			return s.liftStep(i)
		}
		return s.lowerStep(i)
	}
	if len(s.posts) > 0 && g.Chance(0.3) {
		for k := range s.posts {
			if !s.posted[k] {
				return &Step{Op: "post", K: k + 1}
			}
		}
	}
	r := 1 + g.Intn(len(s.in.Impl))
	switch n := g.Intn(14); {
	case n < 4:
		return &Step{Op: "new", I: i, R: r, Rep: s.freshRep()}
	case n < 5:
		return &Step{Op: "rep", I: i, R: r, Ix: s.anyIndex(i, r)}
	case n < 8:
		return &Step{Op: "drop", I: i, R: r, Ix: s.anyIndex(i, r)}
	}
	// contexts of the session's own
	c := 0
	for k := range s.ctx {
		if !s.gone[k] && (c == 0 || g.Chance(0.5)) {
			c = k + 1
		}
	}
	if c == 0 || g.Chance(0.1) {
		return &Step{Op: "ctx", I: i}
	}
	i = s.ctxI[c-1]
	switch n := g.Intn(8); {
	case n < 2:
		return &Step{Op: "li", C: c, Ps: Seq[*T]{tHandle("borrow", r)}, F: Seq[Core]{{"i32", s.anyIndex(i, r)}}}
	case n < 4:
		return &Step{Op: "li", C: c, Ps: Seq[*T]{tHandle("own", r)}, F: Seq[Core]{{"i32", s.anyIndex(i, r)}}}
	case n < 5:
		return &Step{Op: "lo", C: c, Ps: Seq[*T]{tHandle("own", r)}, Vs: Seq[*V]{{N: s.freshRep()}}}
	case n < 6:
		return &Step{Op: "lo", C: c, Ps: Seq[*T]{tHandle("borrow", r)}, Vs: Seq[*V]{{N: s.freshRep()}}}
	}
	return &Step{Op: "exit", C: c}
}

// resolve fills in what a step of a script takes from the steps before it.
func (s *session) resolve(st Step) *Step {
	if st.C != 1 {
		return &st
	}
	var fr *callFrame
	if n := len(s.frames); n > 0 {
		fr = s.frames[n-1]
	}
	switch st.Op {
	case "lower":
		st.F = s.lastPut
		s.outPtr(st.I, &st)
	case "lift":
		st.Vs = fr.vs
	case "ret":
		if fr.kind == "lift" {
			st.F = s.lastPut
		} else {
			st.Vs = fr.last
		}
	}
	return &st
}

// anyIndex prefers numbers that are or were in use.
func (s *session) anyIndex(i, r int) Ints {
	n := len(s.inst(i).Handles.Table(s.w.Rts[r-1]).Array)
	if s.g.Chance(0.05) {
		return pick(s.g, Ints{255, 255, 255, 255}, Ints{0, 0, 0, 128}, Ints{0, 1, 0, 0}, u32b(uint32(n)), u32b(uint32(n+1)))
	}
	if s.g.Chance(0.6) {
		if ix := s.index(i, r, false, nil); ix != nil {
			return ix
		}
	}
	return u32b(uint32(s.g.Intn(n + 1)))
}

// ret ends the callee of frame fr.
func (s *session) ret(fr *callFrame) *Step {
	if fr.kind == "lift" {
		i := fr.step.I
		for _, h := range fr.borrows {
			if s.borrowed(i)[h] {
				s.perform(&Step{Op: "drop", I: i, R: h[0], Ix: u32b(uint32(h[1]))})
			}
			if s.over {
				return nil
			}
			fr.leak = fr.leak || s.borrowed(i)[h]
		}
		return &Step{Op: "ret", F: s.coresFor(i, fr.step.Rs, fr.step.MaxR)}
	}
	st := &Step{Op: "ret"}
	if n := len(fr.lifts); n > 0 && !s.posted[fr.lifts[n-1]-1] {
		st.K = fr.lifts[n-1]
	}
	if fr.lastOf != nil && sameTypes(fr.lastOf.Rs, fr.step.Rs) {
		st.Vs = fr.last
	} else {
		st.Vs = s.hostVals(fr.step.Rs)
	}
	return st
}

func sameTypes(a, b Seq[*T]) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

func (d canonDriver) Gen(g *Gen, emit func(string, any)) {
	base := func(n, mem, rts int) *CanonIn {
		in := &CanonIn{Asp: d.asp, Heap: 16}
		for i := 0; i < n; i++ {
			in.Msz = append(in.Msz, mem)
			in.Enc = append(in.Enc, pick(g, "utf-8", "utf-16", "latin1+utf16"))
			in.Hook = append(in.Hook, b2i(g.Chance(0.7)))
		}
		for r := 0; r < rts; r++ {
			in.Impl = append(in.Impl, 1+g.Intn(n))
			in.Nd = append(in.Nd, b2i(g.Chance(0.15)))
		}
		return in
	}
	g.EachScript(func(line []byte) {
		in := base(2, 8, 2)
		in.Impl, in.Nd = Ints{1, 2}, Ints{0, 0}
		in.Mode = "steps"
		if err := json.Unmarshal(line, in); err != nil {
			fail(err)
		}
		in.Asp = d.asp
		emit("spec", in)
	})
	switch d.asp {
	case "C12":
		for n := g.N(300, 3000); n > 0; n-- {
			in := base(2+g.Intn(2), 2048, 1)
			in.Mode, in.Len, in.Seed = "values", 3+g.Intn(8), g.Int63()
			emit("calls", in)
		}
	case "C04":
		for n := g.N(400, 4000); n > 0; n-- {
			in := base(2+g.Intn(2), 512, 1)
			in.Mode, in.Len, in.Seed = "calls", 5+g.Intn(20), g.Int63()
			emit("nested calls", in)
		}
	default:
		for n := g.N(400, 4000); n > 0; n-- {
			in := base(2+g.Intn(2), 256, 1+g.Intn(3))
			in.Mode, in.Len, in.Seed = "handles", 10+g.Intn(50), g.Int63()
			emit("history", in)
		}
		for n := g.N(12, 60); n > 0; n-- {
			in := base(2, 256, 1+g.Intn(2))
			in.Fill = 10 + g.Intn(60)
			in.Mode, in.Len, in.Seed = "handles", in.Fill+20+g.Intn(60), g.Int63()
			emit("crowd", in)
		}
	}
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C12"} {
		drivers[p] = canonDriver{p}
	}
}
