package main

import (
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

var watTokens = names[token.Type]{
	{token.LineComment, "linecomment"},
	{token.BlockComment, "blockcomment"},
	{token.Whitespace, "space"},
	{token.OpenParen, "open"},
	{token.CloseParen, "close"},
	{token.String, "string"},
	{token.Id, "id"},
	{token.Keyword, "keyword"},
	{token.Reserved, "reserved"},
	{token.Integer, "integer"},
	{token.Float, "float"},
	{token.EndOfStream, "eof"},
	{token.Module, "module"},
	{token.Component, "component"},
}

type watLexer struct{ l *lex.Lexer }

func watTok(t *token.Token, err error) LexTok {
	if err != nil {
		return LexTok{St: "err"}
	}
	return LexTok{"ok", watTokens.of(t.Type), t.Position, t.Line, t.Column, byteInts([]byte(t.Capture))}
}

func (l watLexer) next() LexTok { return watTok(l.l.Next()) }
func (l watLexer) peek() LexTok { return watTok(l.l.Peek()) }
func (l watLexer) clone() lexer { return watLexer{l.l.Clone()} }

func init() {
	drivers["C16"] = lexDriver{
		open: func(text string) lexer { return watLexer{lex.New(text)} },
		spans: []span{
			{"(;", ";)", []string{"a", " ", "\n", "\"", ";", "é"}, true},
			{";;", "\n", []string{"a", " ", "(;", ";)", "\""}, false},
			{"\"", "\"", []string{"a", " ", "(", ";;", "\\n", "\\\"", "\\00", "é"}, false},
			{"$", " ", []string{"a", "Z", "0", ".", "'"}, false},
			{"1", " ", []string{"0", "9", "_3"}, false},
			{"0x1", " ", []string{"0", "f", "_A"}, false},
			{"x", "(", []string{"y", "_", "1"}, false},
			{" ", "\n", []string{" ", "\n", "\t"}, false},
			{"(", ")", []string{"(", ")"}, true},
		},
		atoms: []string{
			" ", "\n", "\t", "\r\n", "  \n ", "(", ")", "()", "((", ";;c\n", ";; \"x\" (; \n", ";;", "(;", ";)", "(;a;)", "(;(;;);)",
			"(;\n;;\n;)", "(; \" ;)", "(;;;)", "(;);)", "(;é\n;)", ";;é\n", "\"\"", "\"a\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\\t\\r\\'\"", "\"\\00\\fF\"",
			"\"\\u{1F600}\"", "\"\\u{1_0}\"", "\"\\u{}\"", "\"\\x\"", "\"\\0\"", "\"é (; ;; )\"", "\"", "$", "$x", "$1", "$$", "$a.b",
			"module", "component", "func", "modules", "i32.const", "offset=4", "a", "_", "0", "1", "12", "1_2", "1__2", "_1", "1_", "0x", "0x1", "0xAb",
			"0x_1", "0x1g", "0X1", "+1", "-1", "+-1", "--1", "1.", "1.5", ".5", "1.5_0", "1._5", "1e", "1e5", "1E+5", "1e-5", "1e_5", "1.5e", "0x1.8",
			"0x1p", "0x1p5", "0x1.P-5", "0x1e5", "0x1.e5p+1", "0xp1", "inf", "+inf", "-inf", "info", "nan", "-nan", "nan:0x1", "nan:0x", "nan:0x1_f", "nan:0xg",
			"nan:canonical", "nan:arithmetic", "nan:", "Nan", "+", "-", "e5", "0x0", "00", "007", "1f", "~!#%&'*/:<=>?@\\^`|", ",", ";", "[", "]", "{", "}", "é", "\x01", "\x7f",
		},
	}
}
