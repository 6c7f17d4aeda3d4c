package main

import (
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

var witTokens = names[token.TokenType]{
	{token.OpenParen, "("}, {token.CloseParen, ")"}, {token.OpenBrace, "{"}, {token.CloseBrace, "}"}, {token.Comma, ","},
	{token.Colon, ":"}, {token.Semicolon, ";"}, {token.At, "@"}, {token.Minus, "-"}, {token.Plus, "+"}, {token.Greater, ">"},
	{token.Less, "<"}, {token.Equal, "="}, {token.Period, "."}, {token.Slash, "/"}, {token.Underscore, "_"}, {token.Star, "*"},
	{token.RightArrow, "->"}, {token.String, "string"}, {token.Whitespace, "space"}, {token.LineComment, "linecomment"},
	{token.BlockComment, "blockcomment"}, {token.EndOfStream, "eof"}, {token.Use, "use"}, {token.Type, "type"},
	{token.Func, "func"}, {token.U8, "u8"}, {token.U16, "u16"}, {token.U32, "u32"}, {token.U64, "u64"}, {token.S8, "s8"},
	{token.S16, "s16"}, {token.S32, "s32"}, {token.S64, "s64"}, {token.Float32, "float32"}, {token.Float64, "float64"},
	{token.Char, "char"}, {token.Resource, "resource"}, {token.Own, "own"}, {token.Borrow, "borrow"}, {token.Record, "record"},
	{token.Flags, "flags"}, {token.Variant, "variant"}, {token.Enum, "enum"}, {token.Union, "union"}, {token.Bool, "bool"},
	{token.Option, "option"}, {token.Result, "result"}, {token.Future, "future"}, {token.Stream, "stream"}, {token.List, "list"},
	{token.As, "as"}, {token.From, "from"}, {token.Tuple, "tuple"}, {token.Constructor, "constructor"}, {token.With, "with"},
	{token.Static, "static"}, {token.Interface, "interface"}, {token.World, "world"}, {token.Import, "import"},
	{token.Export, "export"}, {token.Package, "package"}, {token.Include, "include"}, {token.Id, "id"},
	{token.Integer, "integer"}, {token.ExplicitId, "explicit"},
}

type witLexer struct{ l *lex.Lexer }

func witTok(t *token.Token, err error) LexTok {
	if err != nil {
		return LexTok{St: "err"}
	}
	return LexTok{"ok", witTokens.of(t.Type), t.Position, t.Line, t.Column, byteInts([]byte(t.Capture))}
}

func (l witLexer) next() LexTok { return witTok(l.l.Next()) }
func (l witLexer) peek() LexTok { return witTok(l.l.Peek()) }
func (l witLexer) clone() lexer { return witLexer{l.l.Clone()} }

var witWords = []string{
	"use", "type", "func", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char",
	"resource", "own", "borrow", "record", "flags", "variant", "enum", "union", "bool", "string", "option", "result",
	"future", "stream", "list", "as", "from", "static", "interface", "tuple", "world", "import", "export", "package",
	"constructor", "include", "with",
}

func init() {
	atoms := []string{
		" ", "\n", "\t", "\r\n", "  \n ", "\f", "// c\n", "// /* \n", "//", "///d\n", "/*", "*/", "/**/", "/*a*/", "/*/*x*/*/", "/*\n//\n*/",
		"/*/*/", "/*é*/", "// é\n", "/", "/ ", "=", ",", ":", ".", ";", "(", ")", "{", "}", "<", ">", "*", "@", "+", "-", "->", "->>", "--", "-> ",
		"_", "_ ", "%a", "%use", "%u8", "%", "% ", "%1", "a", "b1", "a-b", "A", "user", "u8a", "us", "u88", "use-", "func-x", "0", "12", "1.0.0", "1a",
		"a1-", "!", "#", "$", "\"", "'", "[", "\\", "|", "~", "\x00", " ", " ", "\n",
	}
	for _, w := range witWords {
		atoms = append(atoms, w+" ", w, w+pick1(w))
	}
	drivers["C20"] = lexDriver{
		open: func(text string) lexer { return witLexer{lex.New(text)} },
		spans: []span{
			{"/*", "*/", []string{"a", " ", "\n", "*", "/ ", "é"}, true},
			{"//", "\n", []string{"a", " ", "/*", "*/", "/"}, false},
			{"///", "\n", []string{"a", " ", "*", "/"}, false},
			{"a", " ", []string{"b", "c", "0", "-d"}, false},
			{"%a", " ", []string{"b", "-c"}, false},
			{"1", " ", []string{"0", "9"}, false},
			{" ", "\n", []string{" ", "\n", "\t"}, false},
			{"{", "}", []string{"{", "}", "<", ">"}, true},
		},
		atoms: atoms,
	}
}

// pick1 is some text behind the word w that is no part of it.
func pick1(w string) string { return []string{"<", ":", ";", "\n", "/", ","}[len(w)%6] }
