package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	"github.com/patrickhuber/go-wasm/encoding"
	"golang.org/x/text/encoding/unicode"
)

// CodecIn converts bytes, or looks for a codec in a factory.  The reader gives
// pieces of the sizes in cuts, then the rest, tells the end together with the
// last of them if eof is set, and fails at the end if it is broken; the writer takes room bytes, or any number if that is negative.  The
// codec has converted before, which must make no difference.
type CodecIn struct {
	Op     string      `json:"op"`
	Enc    string      `json:"enc"`
	Bs     Ints        `json:"bs"`
	Cuts   Ints        `json:"cuts"`
	Broken bool        `json:"broken"`
	Room   int         `json:"room"`
	Cs     Seq[string] `json:"cs"`
	Name   string      `json:"name"`
	Helper bool        `json:"helper"`
	Before Ints        `json:"before"`
	Eof    bool        `json:"eof"`
}

type CodecOut struct {
	St   string `json:"st"`
	Out  Ints   `json:"out"`
	Name string `json:"name"`
	Al   int    `json:"al"`
	Sz   int    `json:"sz"`
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type cutReader struct {
	b      []byte
	cuts   []int
	broken bool
	eof    bool
	read   int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		if c.broken {
			return 0, broken(c.read)
		}
		return 0, io.EOF
	}
	n := len(c.b)
	if len(c.cuts) > 0 {
		n = least(n, c.cuts[0])
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	c.read += n
	if len(c.cuts) > 0 {
		if c.cuts[0] -= n; c.cuts[0] <= 0 {
			c.cuts = c.cuts[1:]
		}
	}
	if len(c.b) == 0 && c.eof && !c.broken {
		return n, io.EOF
	}
	return n, nil
}

type roomWriter struct {
	b    bytes.Buffer
	room int
}

func (w *roomWriter) Write(p []byte) (int, error) {
	if w.room < 0 {
		return w.b.Write(p)
	}
	n := least(len(p), w.room)
	w.b.Write(p[:n])
	w.room -= n
	if n < len(p) {
		return n, errors.New("no room")
	}
	return n, nil
}

var codecs = map[string]func() encoding.Codec{
	"utf-8":        encoding.NewUTF8,
	"utf-16":       encoding.NewUTF16,
	"utf-16-le":    func() encoding.Codec { return encoding.NewUTF16WithEndianess(unicode.LittleEndian) },
	"utf-16-be":    func() encoding.Codec { return encoding.NewUTF16WithEndianess(unicode.BigEndian) },
	"latin1":       encoding.NewLatin1,
	"latin1+utf16": encoding.NewLatin1Utf16,
}

var codecNames = []string{"utf-8", "utf-16", "utf-16-le", "utf-16-be", "latin1", "latin1+utf16"}

type codecDriver struct{}

func (codecDriver) Run(raw json.RawMessage) any {
	var in CodecIn
	must(json.Unmarshal(raw, &in))
	if in.Op == "find" {
		return findCodec(in)
	}
	codec, err := encoding.DefaultFactory().Get(encoding.Encoding(in.Enc))
	if err != nil {
		return CodecOut{St: "no codec"}
	}
	if len(in.Before) > 0 {
		_ = codec.Encode(io.Discard, bytes.NewReader(intBytes(in.Before)))
		_ = codec.Decode(io.Discard, bytes.NewReader(intBytes(in.Before)))
	}
	r := &cutReader{intBytes(in.Bs), append([]int{}, in.Cuts...), in.Broken, in.Eof, 0}
	if in.Helper {
		// the functions for strings; nothing is known of what was written when they fail
		var out string
		if in.Op == "enc" {
			var b []byte
			b, err = encoding.EncodeString(codec, string(intBytes(in.Bs)))
			out = string(b)
		} else {
			out, err = encoding.DecodeString(codec, r)
		}
		if err != nil {
			return CodecOut{St: "err"}
		}
		return CodecOut{St: "ok", Out: byteInts([]byte(out))}
	}
	w := &roomWriter{room: in.Room}
	if in.Op == "enc" {
		err = codec.Encode(w, r)
	} else {
		err = codec.Decode(w, r)
	}
	out := CodecOut{St: "ok", Out: byteInts(w.b.Bytes())}
	if err != nil {
		out.St = "err"
	}
	return out
}

func findCodec(in CodecIn) CodecOut {
	var cs []encoding.Codec
	for _, c := range in.Cs {
		cs = append(cs, codecs[c]())
	}
	f := encoding.NewFactory(cs...)
	if in.Helper {
		f = encoding.DefaultFactory()
	}
	name := encoding.Encoding(in.Name)
	c, ok := f.Lookup(name)
	d, err := f.Get(name)
	if !ok {
		if !errors.Is(err, encoding.ErrNotExist) {
			return CodecOut{St: "wrong error"}
		}
		return CodecOut{St: "none"}
	}
	if err != nil || c.Encoding() != d.Encoding() {
		return CodecOut{St: "different codecs"}
	}
	return CodecOut{St: "ok", Name: string(c.Encoding()), Al: c.Alignment(), Sz: c.RuneSize()}
}

func (d codecDriver) Gen(g *Gen, emit func(string, any)) {
	convert := func(kind string, in CodecIn) {
		in.Room = -1
		if g.Chance(0.2) {
			in.Before = Ints{pick(g, 0x41, 0xc3, 0xe2, 0xd8), pick(g, 0x42, 0x80, 0xd8), pick(g, 0x43, 0x82, 0xf0)}
		}
		in.Eof = g.Chance(0.2)
		emit(kind, in)
		if in.Op == "dec" || len(in.Cuts) == 0 {
			in.Helper = true
			emit(kind+"/string", in)
			in.Helper = false
		}
		switch g.Intn(6) {
		case 0:
			in.Broken = true
			emit(kind+"/broken", in)
		case 1:
			in.Room = g.Intn(2*len(in.Bs) + 1)
			emit(kind+"/room", in)
		}
	}
	g.EachScript(func(line []byte) {
		var in CodecIn
		must(json.Unmarshal(line, &in))
		convert("model/"+in.Op, in)
	})
	for n := g.N(1500, 20000); n > 0; n-- {
		in := CodecIn{Op: pick(g, "enc", "dec"), Enc: pick(g, codecNames...)}
		var text []rune
		size := pick(g, 1, 3, 10, 40)
		if n <= 6 {
			// more than the buffers of a conversion
			size = 4200
		}
		if n == 1 {
			size = 4200 * 16
		}
		top := pick(g, 0x7f, 0xff, 0xff, 0x7ff, 0xffff, 0x10ffff)
		for k := size - g.Intn(size%4200+1); k > 0; k-- {
			r := rune(g.Intn(top + 1))
			switch g.Intn(12) {
			case 0:
				r = pick[rune](g, 0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xfffd, 0xffff, 0x10000, 0x10ffff)
			}
			if r >= 0xd800 && r < 0xe000 || int(r) > top {
				r = 'x'
			}
			text = append(text, r)
		}
		bs := []byte(string(text))
		if in.Op == "dec" {
			bs = nil
			for _, r := range text {
				bs = append(bs, encodeRune(in.Enc, r)...)
			}
		}
		kind := "text/"
		if g.Chance(0.3) && len(bs) > 0 {
			kind = "damaged/"
			switch g.Intn(3) {
			case 0:
				bs = bs[:g.Intn(len(bs))]
			case 1:
				bs[g.Intn(len(bs))] = byte(g.Intn(256))
			case 2:
				at := g.Intn(len(bs) + 1)
				bs = append(bs[:at:at], append([]byte{pick[byte](g, 0x80, 0xbf, 0xc3, 0xe0, 0xf0, 0xff, 0xd8, 0xdc, 0x41)}, bs[at:]...)...)
			}
		}
		in.Bs = byteInts(bs)
		for k := g.Intn(4) * g.Intn(4); k > 0; k-- {
			in.Cuts = append(in.Cuts, g.Intn(pick(g, 2, 4, 9, 2+len(bs))))
		}
		convert(kind+in.Op, in)
	}
	for n := g.N(60, 600); n > 0; n-- {
		in := CodecIn{Op: "find", Name: pick(g, append(codecNames, "", "UTF-8", "utf8", "utf-32", "latin-1")...)}
		if g.Chance(0.3) {
			in.Cs, in.Helper = codecNames, true
		} else {
			for k := g.Intn(5); k > 0; k-- {
				in.Cs = append(in.Cs, pick(g, codecNames...))
			}
		}
		emit("find", in)
	}
}

func encodeRune(enc string, r rune) []byte {
	unit := func(u rune) []byte {
		if enc == "utf-16-be" {
			return []byte{byte(u >> 8), byte(u)}
		}
		return []byte{byte(u), byte(u >> 8)}
	}
	switch {
	case enc == "utf-8":
		return []byte(string(r))
	case enc == "latin1" || enc == "latin1+utf16":
		return []byte{byte(r)}
	case r < 0x10000:
		return unit(r)
	}
	r -= 0x10000
	return append(unit(0xd800+r>>10), unit(0xdc00+r&0x3ff)...)
}

func init() { drivers["C23"] = codecDriver{} }
