package main

import (
	"encoding/json"
	"math"
	"math/big"
	"strings"

	wastast "github.com/patrickhuber/go-wasm/wast/ast"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	watast "github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
)

// ---- numeric literals ----

type NumIn struct {
	W   string `json:"w"`
	Lit Ints   `json:"lit"`
}

type NumObs struct {
	St string `json:"st"`
	B  Ints   `json:"b"`
}

type NumOut struct {
	St string   `json:"st"`
	O  []NumObs `json:"o"`
}

// constBits are the bits of a constant of either syntax tree.
func constBits(c any) (string, Ints) {
	switch c := c.(type) {
	case watast.I32Const:
		return "i32", le(uint64(uint32(c.Value)), 4)
	case watast.I64Const:
		return "i64", le(uint64(c.Value), 8)
	case watast.F32Const:
		return "f32", le(uint64(math.Float32bits(c.Value)), 4)
	case watast.F64Const:
		return "f64", le(math.Float64bits(c.Value), 8)
	case wastast.I32Const:
		return "i32", le(uint64(uint32(c.Value)), 4)
	case wastast.I64Const:
		return "i64", le(uint64(c.Value), 8)
	case wastast.F32Const:
		return "f32", le(uint64(math.Float32bits(c.Value)), 4)
	case wastast.F64Const:
		return "f64", le(math.Float64bits(c.Value), 8)
	}
	return "", nil
}

func numObs(w string, c any) NumObs {
	ty, b := constBits(c)
	if ty != w {
		return NumObs{St: "wrong instruction"}
	}
	return NumObs{"ok", b}
}

type numDriver struct{}

func (numDriver) Run(raw json.RawMessage) any {
	var in NumIn
	must(json.Unmarshal(raw, &in))
	c := in.W + ".const " + string(intBytes(in.Lit))
	out := NumOut{St: "ok"}

	dir, err := watparse.Parse(lex.New("(module (func (" + c + ")))"))
	if m, ok := dir.(*watast.Module); err != nil {
		out.O = append(out.O, NumObs{St: "err"})
	} else if ok && len(m.Functions) == 1 && len(m.Functions[0].Instructions) == 1 {
		out.O = append(out.O, numObs(in.W, m.Functions[0].Instructions[0]))
	} else {
		out.O = append(out.O, NumObs{St: "no instruction"})
	}

	wast, err := wastparse.Parse("(assert_return (invoke \"f\" (" + c + ")) (" + c + "))")
	if err != nil {
		out.O = append(out.O, NumObs{St: "err"})
		return out
	}
	if len(wast.Directives) == 1 {
		if r, ok := wast.Directives[0].(wastast.AssertReturn); ok {
			if i, ok := r.Action.(wastast.Invoke); ok && len(i.Const) == 1 && len(r.Results) == 1 {
				out.O = append(out.O, numObs(in.W, i.Const[0]), numObs(in.W, r.Results[0]))
				return out
			}
		}
	}
	out.O = append(out.O, NumObs{St: "no constant"})
	return out
}

func (d numDriver) Gen(g *Gen, emit func(string, any)) {
	g.EachScript(func(line []byte) {
		var in NumIn
		must(json.Unmarshal(line, &in))
		emit("model/"+in.W, in)
	})
	put := func(kind, w, lit string) { emit(kind, NumIn{w, byteInts([]byte(lit))}) }
	for n := g.N(1500, 15000); n > 0; n-- {
		put("int", pick(g, "i32", "i64"), intLit(g))
		w := pick(g, "f32", "f64")
		put("float/"+w, w, floatLit(g, w))
		if g.Chance(0.15) {
			put("cross", pick(g, "i32", "i64", "f32", "f64"), pick(g, intLit(g), floatLit(g, "f32")))
		}
		if g.Chance(0.1) {
			put("broken", pick(g, "i32", "i64", "f32", "f64"), breakLit(g, pick(g, intLit(g), floatLit(g, w))))
		}
	}
}

func sign(g *Gen) string { return pick(g, "", "", "+", "-", "-") }

// separate puts underscores between digits.
func separate(g *Gen, digits string) string {
	if g.Chance(0.7) {
		return digits
	}
	var b strings.Builder
	for i := range digits {
		if i > 0 && g.Chance(0.3) {
			b.WriteByte('_')
		}
		b.WriteByte(digits[i])
	}
	return b.String()
}

func hexCase(g *Gen, s string) string {
	if g.Chance(0.3) {
		return strings.ToUpper(s)
	}
	return s
}

func intLit(g *Gen) string {
	x := new(big.Int).Rand(g.Rand, new(big.Int).Lsh(big.NewInt(1), uint(1+g.Intn(68))))
	if g.Chance(0.4) {
		x.Lsh(big.NewInt(1), pick(g, uint(31), 32, 63, 64, uint(g.Intn(70))))
		x.Add(x, big.NewInt(int64(g.Intn(5)-2)))
		x.Abs(x)
	}
	zeros := strings.Repeat("0", pick(g, 0, 0, 0, 1, 3))
	if g.Chance(0.5) {
		return sign(g) + "0x" + separate(g, zeros+hexCase(g, x.Text(16)))
	}
	return sign(g) + separate(g, zeros+x.Text(10))
}

// floatLit is a literal at, near or far from a number of the format or the
// midpoint between two of them.
func floatLit(g *Gen, w string) string {
	if g.Chance(0.08) {
		return sign(g) + pick(g, "inf", "nan", "nan:0x"+separate(g, hexCase(g, new(big.Int).Rand(g.Rand, new(big.Int).Lsh(big.NewInt(1), uint(1+g.Intn(54)))).Text(16))),
			"nan:0x7fffff", "nan:0x800000", "nan:0xfffffffffffff", "nan:0x10000000000000", "nan:0x0", "nan:canonical", "nan:arithmetic")
	}
	if g.Chance(0.15) {
		return intLit(g)
	}
	if g.Chance(0.3) {
		return sign(g) + simpleFloat(g)
	}
	bits, p, qmin, qmax := 32, 24, -149, 104
	if w == "f64" {
		bits, p, qmin, qmax = 64, 53, -1074, 971
	}
	q := qmin + g.Intn(qmax-qmin+1)
	if g.Chance(0.5) {
		q = -p + g.Intn(40) - 20
	}
	if g.Chance(0.2) {
		q = pick(g, qmin, qmin+1, qmax, qmax-1)
	}
	if bits == 64 && g.Chance(0.8) && (q > 200 || q < -300) {
		q = g.Intn(400) - 250 // long decimals are expensive to judge
	}
	m := new(big.Int).Rand(g.Rand, new(big.Int).Lsh(big.NewInt(1), uint(p)))
	if q != qmin || g.Chance(0.3) {
		m.SetBit(m, p-1, 1)
	}
	if g.Chance(0.1) {
		m.Sub(new(big.Int).Lsh(big.NewInt(1), uint(p)), big.NewInt(1))
	}
	// m*2^q, or the midpoint behind it, and perhaps a tiny bit more or less
	if g.Chance(0.7) {
		m.Lsh(m, 1).Add(m, big.NewInt(1))
		q--
	}
	if g.Chance(0.5) {
		k := 1 + g.Intn(24)
		m.Lsh(m, uint(k)).Add(m, big.NewInt(int64(g.Intn(3)-1)))
		q -= k
	}
	if g.Chance(0.4) {
		return sign(g) + hexFloat(g, m, q)
	}
	return sign(g) + decFloat(g, m, q)
}

func simpleFloat(g *Gen) string {
	digits := func(n int) string {
		s := ""
		for k := 1 + g.Intn(n); k > 0; k-- {
			s += string(rune('0' + g.Intn(10)))
		}
		return separate(g, s)
	}
	s := digits(19)
	if g.Chance(0.6) {
		s += "."
		if g.Chance(0.8) {
			s += digits(19)
		}
	}
	if g.Chance(0.6) {
		s += pick(g, "e", "E") + pick(g, "", "+", "-") + pick(g, "0", "1", "00", "7", "20", "38", "39", "45", "46", "60", "1_0", digits(2), pick(g, "300", "308", "309", "324", "325", "1000", "99999999999999999999"))
	}
	return s
}

func hexFloat(g *Gen, m *big.Int, q int) string {
	if m.Sign() < 0 {
		m = big.NewInt(1)
	}
	s := hexCase(g, m.Text(16))
	// move the point
	f := 0
	if g.Chance(0.6) {
		f = g.Intn(len(s))
	}
	out := "0x" + separate(g, s[:len(s)-f])
	if f > 0 || g.Chance(0.2) {
		out += "."
	}
	if f > 0 {
		out += separate(g, s[len(s)-f:])
	}
	e := q + 4*f
	if e == 0 && g.Chance(0.5) {
		return out
	}
	es := big.NewInt(int64(e)).Text(10)
	if e >= 0 {
		es = pick(g, "", "+") + es
	}
	return out + pick(g, "p", "P") + es
}

// decFloat writes m*2^q exactly.
func decFloat(g *Gen, m *big.Int, q int) string {
	if m.Sign() < 0 {
		m = big.NewInt(1)
	}
	x := new(big.Int).Set(m)
	e := 0
	if q >= 0 {
		x.Lsh(x, uint(q))
	} else {
		// m * 5^-q * 10^q
		x.Mul(x, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(-q)), nil))
		e = q
	}
	s := x.Text(10)
	// leave out digits, or change the last one
	if len(s) > 60 || g.Chance(0.3) {
		if keep := 1 + g.Intn(50); keep < len(s) {
			e += len(s) - keep
			s = s[:keep]
		}
	}
	f := g.Intn(len(s))
	out := separate(g, s[:len(s)-f])
	if f > 0 {
		out += "." + separate(g, s[len(s)-f:])
	}
	if e += f; e != 0 {
		es := big.NewInt(int64(e)).Text(10)
		if e > 0 {
			es = pick(g, "", "+") + es
		}
		out += pick(g, "e", "E") + es
	}
	return out
}

// breakLit changes one character.
func breakLit(g *Gen, s string) string {
	i := g.Intn(len(s) + 1)
	c := pick(g, "_", "x", ".", "-", "+", "e", "p", "g", "0", "n", "")
	if g.Chance(0.5) && i < len(s) {
		return s[:i] + c + s[i+1:]
	}
	return s[:i] + c + s[i:]
}

func init() { drivers["C17"] = numDriver{} }
