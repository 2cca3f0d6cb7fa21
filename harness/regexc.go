package main

import (
	"errors"
	"regexp"
	"unicode/utf8"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	props["C07"] = propDef{run: runC07, quick: 12000, thorough: 120000, rule: "random closed grammars (mostly acyclic); inputs: small strings, sampled derivations, mutations restricted to valid UTF-8; non-trivial: the rule derives the input or the regex is refused"}
}

// usesProse / depends on a cycle, over the reachable part of the grammar.
func (r *ref) reachable(rule string) map[string]bool {
	dep := r.depMap()
	out := reachFrom(dep, lowerASCII(rule))
	out[lowerASCII(rule)] = true
	return out
}

func (r *ref) cyclicFrom(rule string) bool {
	dep := r.depMap()
	for n := range r.reachable(rule) {
		if reachFrom(dep, n)[n] {
			return true
		}
	}
	return false
}

func (r *ref) hasProse(rule string) bool {
	found := false
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n.kind == kTerm {
			if _, ok := n.term.(abnf.ElemProseVal); ok {
				found = true
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for n := range r.reachable(rule) {
		if a := r.rules[n]; a != nil {
			walk(a)
		}
	}
	return found
}

func runC07(c *C) {
	cfg := defaultCfg(c)
	cfg.acyclic = !c.p(10)
	cfg.prose = c.p(6)
	cfg.sat = !c.p(30)
	var g *abnf.Grammar
	if c.p(25) {
		// one rich terminal, for escaping and ranges
		g = &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"t": {Name: "t", Alternation: alt(cat(one(c.anyRegexTerm())), cat(one(c.anyRegexTerm()), one(c.anyRegexTerm())), cat(rp(0, 1+c.pick(3), c.anyRegexTerm())))}}}
	} else {
		g = c.grammar(cfg)
	}
	r := newRef(g)
	rule := c.ruleOf(g)
	gs := gstr(g)
	c.at(gs+" rule "+rule, "")
	re, err := g.Regex(recase(c, rule))
	if r.cyclicFrom(rule) {
		c.eval(true, gs, rule)
		var ce *abnf.ErrCyclicRule
		if !errors.As(err, &ce) {
			c.fail(gs, "", "Regex(%s) of a rule depending on a cycle gave error %v", rule, err)
		}
		return
	}
	if r.hasProse(rule) {
		c.eval(true, gs, rule)
		if err == nil {
			c.fail(gs, "", "Regex(%s) of a rule with a prose-val gave no error", rule)
		}
		return
	}
	if err != nil {
		c.fail(gs, "", "Regex(%s) failed: %v", rule, err)
		return
	}
	n := 1 + c.pick(len(re)+8)
	re2, err2 := g.Regex(rule, abnf.WithMaxRegexLen(n))
	var tl *abnf.ErrRegexTooLarge
	if err2 == nil && len(re2) > n {
		c.fail(gs, "", "Regex(%s) with length budget %d returned %d bytes", rule, n, len(re2))
	} else if err2 != nil && !errors.As(err2, &tl) {
		c.fail(gs, "", "Regex(%s) with length budget %d failed with %v", rule, n, err2)
	}
	rx, err := regexp.Compile(`\A(?:` + re + `)\z`)
	if err != nil {
		c.skip("regex does not compile")
		if _, err0 := regexp.Compile(re); err0 == nil {
			c.fail(gs, "", "Regex(%s) = %q compiles alone but not anchored: %v", rule, re, err)
		}
		return
	}
	for _, in := range append(c.inputs(r, rule, 16, 8), []byte("\n"), []byte("a\n"), []byte(string(pickOf(c, c05chars)))) {
		if !utf8.Valid(in) {
			continue
		}
		want := r.table(in).derives(rule)
		c.eval(want, gs, rule, string(in))
		if got := rx.Match(in); got != want {
			c.fail(gs, q(in), "Regex(%s) = %q matches: %v, the rule derives it: %v", rule, re, got, want)
		}
	}
}

func (c *C) anyRegexTerm() abnf.ElemItf {
	meta := []rune(`\.+*?()|[]{}^$-/a0"` + "\n\r\t\x00\x7fé&~#:,<=>!k\u212a")
	switch c.pick(4) {
	case 0, 1:
		n := 1 + c.pick(3)
		rs := make([]rune, n)
		for i := range rs {
			rs[i] = pickOf(c, meta)
		}
		return abnf.ElemCharVal{Sensitive: c.p(40), Values: rs}
	case 2:
		a, b := pickOf(c, meta), pickOf(c, meta)
		if a > b {
			a, b = b, a
		}
		return num("d", abnf.StatRange, itoa(int(a)), itoa(int(b)))
	}
	return num("d", abnf.StatSeries, itoa(int(pickOf(c, meta))), itoa(int(pickOf(c, meta))))
}
