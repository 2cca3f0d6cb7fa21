package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"unicode/utf8"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	props["C05"] = propDef{run: runC05, quick: 40000, thorough: 400000, rule: "one random terminal (quoted strings over ASCII letters, digits, accents, astral and fold-sensitive characters; series and ranges of values around every boundary in the three bases; prose) against its own spellings, near misses, malformed UTF-8 and truncated characters, through IsValid, ParseForest and ParseBSR; non-trivial: the terminal matches"}
	props["C06"] = propDef{run: runC06, quick: 30000, thorough: 300000, rule: "random digit strings in the three bases (boundary values of 7/8/16/21/31/32/63/64 bits and Unicode, leading zeros, up to 100 digits) through matching, strict validation, generation and deflated transition graphs, against exact integers; non-trivial: value within Unicode or within 3 of a boundary"}
}

var c05chars = []rune{'a', 'b', 'z', 'A', 'Z', '@', '[', '`', '{', '0', '9', ' ', '!', 0x7f, 0x80, 0xe9, 0xc9, 0x17f, 0x212a, 0x130, 0x131, 0x3042, 0xfffd, 0xfffe, 0x1F600, 0x10FFFF, 0x00, 'k', 'K', 's', 'S', 'i', 0xdf, 0x1e9e, 0xd7ff, 0xe000}

var bndVals = []string{"0", "1", "64", "65", "90", "91", "96", "97", "122", "123", "127", "128", "255", "256", "2047", "2048", "55295", "55296", "57343", "57344", "65533", "65535", "65536", "1114110", "1114111", "1114112", "2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "4294967393", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551713", "99999999999999999999999999999999"}

func digitsOf(c *C, v *big.Int, base string) string {
	b := map[string]int{"b": 2, "d": 10, "x": 16}[strings.ToLower(base)]
	s := v.Text(b)
	if c.p(50) {
		s = strings.ToUpper(s)
	}
	if c.p(30) {
		s = strings.Repeat("0", 1+c.pick(5)) + s
	}
	if c.p(3) {
		s = strings.Repeat("0", 60) + s
	}
	return s
}

func randVal(c *C) *big.Int {
	switch c.pick(5) {
	case 4:
		// the largest code point with one digit changed, in some base
		b := pickOf(c, []int{2, 10, 16})
		s := []byte(maxUni.Text(b))
		s[c.pick(len(s))] = "0123456789abcdef"[c.pick(b)]
		if c.p(30) {
			s[c.pick(len(s))] = "0123456789abcdef"[c.pick(b)]
		}
		v, _ := new(big.Int).SetString(string(s), b)
		return v
	case 0:
		v, _ := new(big.Int).SetString(pickOf(c, bndVals), 10)
		v.Add(v, big.NewInt(int64(c.pick(5)-2)))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return v
	case 1:
		return big.NewInt(int64(c.pick(0x110000)))
	case 2:
		return big.NewInt(int64(pickOf(c, c05chars)))
	}
	bits := 1 + c.pick(90)
	return new(big.Int).Rand(c.rng, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
}

func anyBase(c *C) string { return pickOf(c, []string{"b", "d", "x"}) }

func (c *C) anyTerm() abnf.ElemItf {
	switch c.pick(10) {
	case 0, 1, 2, 3:
		n := c.pick(4)
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = pickOf(c, c05chars)
		}
		return abnf.ElemCharVal{Sensitive: c.p(40), Values: rs}
	case 4, 5, 6:
		b := anyBase(c)
		var el []string
		for i := 1 + c.pick(3); i > 0; i-- {
			el = append(el, digitsOf(c, randVal(c), b))
		}
		return num(b, abnf.StatSeries, el...)
	case 7, 8:
		b := anyBase(c)
		lo, hi := randVal(c), randVal(c)
		if lo.Cmp(hi) > 0 && c.p(85) {
			lo, hi = hi, lo
		}
		return num(b, abnf.StatRange, digitsOf(c, lo, b), digitsOf(c, hi, b))
	}
	if c.p(20) {
		return abnf.ElemProseVal{}
	}
	return num("x", abnf.StatRange, "61", "7A")
}

var badUTF8 = []string{"\xff", "\x80", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\xaf", "\xf4\x90\x80\x80", "\xef\xbf\xbd", "\xf8\x88\x80\x80\x80"}

func (c *C) termInputs(e abnf.ElemItf) [][]byte {
	out := [][]byte{{}, []byte(pickOf(c, badUTF8)), []byte(string(pickOf(c, c05chars)))}
	for i := 0; i < 3; i++ {
		if s, ok := sampleTerm(c.rng, e); ok {
			out = append(out, []byte(s))
			if len(s) > 0 {
				out = append(out, []byte(s[:len(s)-1]))
				out = append(out, append([]byte(s), pickOf(c, badUTF8)...))
				rs := []rune(s)
				j := c.pick(len(rs))
				rs[j] += rune(c.pick(3) - 1)
				out = append(out, []byte(string(rs)))
				rs[j] = pickOf(c, c05chars)
				out = append(out, []byte(string(rs)))
				if c.p(30) {
					b := []byte(s)
					b[c.pick(len(b))] = byte(c.pick(256))
					out = append(out, b)
				}
			}
		}
	}
	switch v := e.(type) {
	case abnf.ElemCharVal:
		out = append(out, []byte(strings.ToLower(string(v.Values))), []byte(strings.ToUpper(string(v.Values))))
	case abnf.ElemNumVal:
		for _, s := range v.Elems {
			if b := bigVal(s, v.Base); b != nil && b.IsInt64() && b.Int64() <= 0x7fffffff {
				r := rune(b.Int64())
				out = append(out, []byte(string(r)), []byte(string(r+1)))
				if r > 0 {
					out = append(out, []byte(string(r-1)))
				}
				out = append(out, []byte{byte(b.Int64())})
			} else if b != nil {
				// what a wrapped conversion would match
				low := new(big.Int).And(b, big.NewInt(0xffffffff)).Int64()
				out = append(out, []byte(string(rune(int32(low)))), []byte{byte(low)})
			}
		}
	}
	return out
}

func runC05(c *C) {
	e := c.anyTerm()
	pre, post := "", ""
	el := []abnf.Repetition{one(e)}
	if c.p(40) {
		pre, post = "p", "q"
		el = []abnf.Repetition{one(sstr("p")), one(e), one(sstr("q"))}
	} else if c.p(30) {
		el = []abnf.Repetition{rp(0, infRep, e)}
		pre, post = "*", ""
	}
	g := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(el...))}}}
	gs := gstr(g)
	for _, in := range c.termInputs(e) {
		var want bool
		if pre == "*" {
			if c.p(50) {
				in = append(append([]byte{}, in...), in...)
			}
			want = newRef(g).table(in).derives("t")
		} else {
			want = matchTerm(e, in, 0) == len(in)
			in = []byte(pre + string(in) + post)
			if pre != "" {
				want = newRef(g).table(in).derives("t")
			}
		}
		c.at(gs, q(in))
		c.eval(want, gs, string(in))
		v, err := g.IsValid("t", in)
		if err != nil || v != want {
			c.fail(gs, q(in), "IsValid = %v, %v; the terminal matches: %v", v, err, want)
		}
		f, err := abnf.ParseForest(in, g, "t")
		if err != nil || f.Valid() != want {
			c.fail(gs, q(in), "ParseForest valid = %v, %v; the terminal matches: %v", f != nil && f.Valid(), err, want)
		}
		b, err := abnf.ParseBSR(in, g, "t")
		if err != nil || b.Valid() != want {
			c.fail(gs, q(in), "ParseBSR valid = %v, %v; the terminal matches: %v", b != nil && b.Valid(), err, want)
		}
	}
}

var maxUni = big.NewInt(0x10FFFF)

func runC06(c *C) {
	base := anyBase(c)
	v := randVal(c)
	s := digitsOf(c, v, base)
	interesting := v.Cmp(maxUni) <= 0
	e := num(base, abnf.StatSeries, s)
	g := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(e)))}}}
	gs := gstr(g)
	c.at(gs, "")
	c.eval(interesting, base, s)

	// strict validation, alone, in a series, in a range and nested
	over := v.Cmp(maxUni) > 0
	wrap := g
	switch c.pick(4) {
	case 1:
		wrap = &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(num(base, abnf.StatSeries, "1", s, "0"))))}}}
	case 2:
		wrap = &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(num(base, abnf.StatRange, "0", s))))}}}
	case 3:
		wrap = &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(rp(0, 2, grp(alt(cat(one(opt(alt(cat(one(e)))))))))))}}}
	}
	err := abnf.SemvalABNF(wrap)
	var tl *abnf.ErrTooLargeNumeral
	if over != (err != nil) || (over && !errors.As(err, &tl)) {
		c.fail(gstr(wrap), "", "strict validation of value %v (%s in base %s) gives %v; exceeds U+10FFFF: %v", v, s, base, err, over)
	} else if over {
		b := bigVal(tl.Value, tl.Base)
		if b == nil || b.Cmp(v) != 0 {
			c.fail(gstr(wrap), "", "validation error names value %q in base %q instead of %s", tl.Value, tl.Base, s)
		}
	}
	// and from text, where the default is to validate
	if c.p(20) {
		_, err := abnf.ParseABNF([]byte("t = %" + base + s + "\r\n"))
		if over != (err != nil) {
			c.fail(gs, "", "ParseABNF of value %v gives %v", v, err)
		}
	}

	// matching: exactly the character of that value
	var cands []rune
	if v.IsInt64() && v.Int64() <= 0x7fffffff {
		r := rune(v.Int64())
		cands = append(cands, r, r-1, r+1)
	}
	low := int64(new(big.Int).And(v, big.NewInt(0xffffffff)).Uint64())
	cands = append(cands, rune(int32(low)), rune(low&0xff), rune(low&0xffff), utf8.RuneError, rune(c.pick(0x110000)), utf8.MaxRune, 0, 0x7f)
	want, isChar := scalar(v)
	for _, r := range cands {
		if !utf8.ValidRune(r) {
			continue
		}
		in := []byte(string(r))
		c.at(gs, q(in))
		ok, err := g.IsValid("t", in)
		exp := isChar && r == want
		if err != nil || ok != exp {
			c.fail(gs, q(in), "value %v matches U+%04X: %v, %v", v, r, ok, err)
		}
		// as both bounds of a range, and as each bound
		for _, x := range []struct {
			lo, hi string
			exp    bool
		}{
			{s, s, v.Cmp(big.NewInt(int64(r))) == 0},
			{"0", s, v.Cmp(big.NewInt(int64(r))) >= 0},
			{s, digitsOf(c, new(big.Int).Lsh(big.NewInt(1), 70), base), v.Cmp(big.NewInt(int64(r))) <= 0},
		} {
			rg := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(num(base, abnf.StatRange, x.lo, x.hi))))}}}
			ok, err := rg.IsValid("t", in)
			if err != nil || ok != x.exp {
				c.fail(gstr(rg), q(in), "range contains U+%04X: %v, %v", r, ok, err)
			}
			if c.p(10) {
				f, err := abnf.ParseForest(in, rg, "t")
				if err != nil || f.Valid() != x.exp {
					c.fail(gstr(rg), q(in), "ParseForest: range contains U+%04X: %v, %v", r, f.Valid(), err)
				}
			}
		}
	}

	// generation emits exactly that character
	if isChar {
		ag, err := abnf.NewASTGenerator(g, "t")
		if err != nil {
			c.fail(gs, "", "NewASTGenerator: %v", err)
		} else if got := ag.GenerateRand(rand.New(rand.NewSource(1))); string(got) != string(want) {
			c.fail(gs, "", "AST generation of value %v gave %q", v, got)
		}
		if got, err := g.Generate(int64(c.pick(100)), "t"); err != nil || string(got) != string(want) {
			c.fail(gs, "", "generation of value %v gave %q, %v", v, got, err)
		}
	}

	// formatting: a deflated range enumerates lo..lo+k, converted back exactly
	if v.Cmp(maxUni) < 0 {
		k := int64(c.pick(20))
		if v.Int64()+k > 0x10FFFF {
			k = 0x10FFFF - v.Int64()
		}
		hi := new(big.Int).Add(v, big.NewInt(k))
		rg := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(num(base, abnf.StatRange, s, digitsOf(c, hi, base)))))}}}
		c.at(gstr(rg), "deflated")
		tg, err := rg.TransitionGraph("t", abnf.WithDeflateNumVals(true))
		if err != nil {
			c.fail(gstr(rg), "", "TransitionGraph: %v", err)
			return
		}
		got := map[int64]bool{}
		for _, n := range tg.Entrypoints {
			if n == nil {
				continue
			}
			ev, ok := n.Elem.(abnf.ElemNumVal)
			if !ok || len(ev.Elems) != 1 {
				c.fail(gstr(rg), "", "deflated node %v", n.Elem)
				return
			}
			b := bigVal(ev.Elems[0], ev.Base)
			if b == nil || !b.IsInt64() {
				c.fail(gstr(rg), "", "deflated node %v is not a numeral of its base", ev)
				return
			}
			got[b.Int64()] = true
		}
		for x := v.Int64(); x <= hi.Int64(); x++ {
			if x >= 0xD800 && x <= 0xDFFF {
				delete(got, x) // no character: may be left out
				continue
			}
			if !got[x] {
				c.fail(gstr(rg), "", "deflated range lacks value %d: %v", x, keysOf(got))
				return
			}
			delete(got, x)
		}
		if len(got) > 0 {
			c.fail(gstr(rg), "", "deflated range has extra values %v", keysOf(got))
		}
	}
}

func keysOf(m map[int64]bool) string {
	var xs []string
	for k := range m {
		xs = append(xs, fmt.Sprint(k))
	}
	return strings.Join(xs, ",")
}
