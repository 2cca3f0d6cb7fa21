package main

import (
	"strings"

	abnf "github.com/pandatix/go-abnf"
)

// Grammars whose shape is known to be delicate for parsers: nullable and
// left-recursive repetitions, counted repetitions of ambiguous or empty
// elements, hidden and mutual left recursion, sharing.
var curatedABNF = []string{
	`a = 3*("xyz" / "x" / "y" / "z" / "w")`,
	`a = 3["x"]`,
	`a = (a / "x") "y"`,
	`a = 2*3("a" / "aa")`,
	`a = a a / "a"`,
	`a = a / "a"`,
	`a = ["b"] a "a" / "a"`,
	"a = b \"a\" / \"a\"\nb = a \"b\" / \"b\"",
	"a = *b\nb = [\"a\"] [\"b\"]",
	"a = *(*\"a\")",
	"a = 1*(*\"a\" \"b\")",
	"a = 2(*\"a\") \"b\"",
	"a = *2(\"a\" / \"ab\" / \"b\")",
	"a = (\"a\" / \"a\") (\"b\" / \"b\")",
	"a = [\"a\"] [\"a\"] [\"a\"]",
	"a = \"a\" a \"b\" / \"\"",
	"a = \"a\" a \"a\" / \"a\"",
	"a = b c\nb = *\"a\"\nc = *\"a\"",
	"a = b\nb = c / \"a\" b\nc = a \"b\" / \"b\"",
	"a = %x61 / %d97 / \"a\"",
	"a = 2*2\"a\" *1\"b\"",
	"a = 0\"a\" \"b\"",
	"a = *0\"a\" *\"b\"",
	"a = 1*2(\"a\" [\"b\"]) *(\"b\" / \"a\")",
	"a = *( \"a\" / b )\nb = \"b\" [a] \"b\"",
	"a = [a] \"a\" [a]",
	"a = *a \"a\"",
	"a = \"a\" / b b\nb = a / \"b\"",
	"a = 2a / \"a\" / \"\"",
	"a = *3(b / \"a\")\nb = *2\"a\"",
	"a = 2*4([\"a\"] \"b\" / \"a\")",
	"a = ALPHA *(ALPHA / DIGIT)",
	"a = 1*3DIGIT 3(\".\" 1*3DIGIT)",
	"a = LWSP \"a\" LWSP",
	"a = (a \"a\" / \"\") \"b\" / b\nb = a",
	"a = 2(a / \"a\")",
	"a = 3*(\"a\" / \"\")",
	"a = (\"\" / \"a\") a / \"b\"",
	"a = *(b c)\nb = \"a\" / \"\"\nc = \"b\" / \"\"",
	"e = e \"a\" e / e \"b\" e / \"a\"",
	"a = b a b / \"a\"\nb = \"b\" / \"\"",
	"a = 1*1(\"a\" / \"aa\") 1*(\"a\" / \"aa\")",
	"a = \"ab\" / \"a\" \"b\" / 2(\"a\" / \"b\")",
	"a = c / b\nb = b \"a\" / c \"a\"\nc = b \"b\" / \"a\"",
}

func curatedGrammar(i int) *abnf.Grammar {
	src := strings.ReplaceAll(curatedABNF[i%len(curatedABNF)], "\n", "\r\n") + "\r\n"
	g, err := abnf.ParseABNF([]byte(src))
	if err != nil {
		panic("curated grammar " + src + ": " + err.Error())
	}
	return g
}

// nextGrammar gives the curated grammars first, then random ones.
func (c *C) nextGrammar(cfg func() gcfg) *abnf.Grammar {
	if c.idx < len(curatedABNF) {
		return curatedGrammar(c.idx)
	}
	if c.p(3) {
		return c.wideGrammar()
	}
	return c.grammar(cfg())
}
