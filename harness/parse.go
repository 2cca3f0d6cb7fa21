package main

import (
	"errors"
	"math/big"

	abnf "github.com/pandatix/go-abnf"
)

const grammarRule = "random grammars (1-4 rules, nested groups/options/repetitions, core rules, all terminal kinds, recursion of every kind) preceded by curated delicate shapes; inputs: strings over {a,b} up to length 4, sampled derivations and their mutations; "

func parseCfg(c *C) func() gcfg {
	return func() gcfg {
		cfg := defaultCfg(c)
		cfg.closed = !c.p(15)
		cfg.prose = c.p(10)
		cfg.sat = !c.p(20)
		cfg.incoh = c.p(10)
		return cfg
	}
}

func init() {
	props["C01"] = propDef{run: runC01, quick: 12000, thorough: 150000, rule: grammarRule + "non-trivial: the rule derives the input"}
	props["C02"] = propDef{run: runC02, quick: 8000, thorough: 100000, rule: grammarRule + "non-trivial: the rule derives the input"}
	props["C03"] = propDef{run: runC03, quick: 8000, thorough: 100000, rule: grammarRule + "non-trivial: more than one derivation"}
	props["C04"] = propDef{run: runC04, quick: 8000, thorough: 100000, rule: grammarRule + "non-trivial: a valid input with finitely many derivations"}
}

func runC01(c *C) {
	g := c.nextGrammar(parseCfg(c))
	r := newRef(g)
	rules := sortedRules(g)
	main := pickOf(c, rules)
	if c.idx < len(curatedABNF) {
		main = rules[0]
	}
	gs := gstr(g)
	for _, in := range c.inputs(r, main, 14, 8) {
		t := r.table(in)
		for _, rl := range rules {
			want := t.derives(rl)
			c.at(gs+" rule "+rl, q(in))
			got, err := g.IsValid(recase(c, rl), in)
			c.eval(want, gs, rl, string(in))
			if err != nil {
				c.fail(gs, q(in), "IsValid(%s) returned error %v", rl, err)
			} else if got != want {
				c.fail(gs, q(in), "IsValid(%s) = %v, the rule derives the input: %v", rl, got, want)
			}
		}
	}
	_, err := g.IsValid("unknown-rule", nil)
	var nf *abnf.ErrRuleNotFound
	if !errors.As(err, &nf) {
		c.fail(gs, "", "IsValid on an unknown rule returned %v", err)
	}
}

func runC02(c *C) {
	g := c.nextGrammar(parseCfg(c))
	r := newRef(g)
	rules := sortedRules(g)
	gs := gstr(g)
	main := pickOf(c, rules)
	if c.idx < len(curatedABNF) {
		main = rules[0]
	}
	for _, in := range c.inputs(r, main, 12, 6) {
		want := r.table(in).derives(main)
		c.at(gs+" rule "+main, q(in))
		f, err := abnf.ParseForest(in, g, recase(c, main))
		c.eval(want, gs, main, string(in))
		if err != nil {
			c.fail(gs, q(in), "ParseForest(%s) error %v", main, err)
		} else if f.Valid() != want {
			c.fail(gs, q(in), "ParseForest(%s).Valid() = %v, the rule derives the input: %v", main, f.Valid(), want)
		}
		b, err := abnf.ParseBSR(in, g, recase(c, main))
		if err != nil {
			c.fail(gs, q(in), "ParseBSR(%s) error %v", main, err)
		} else if b.Valid() != want {
			c.fail(gs, q(in), "ParseBSR(%s).Valid() = %v, the rule derives the input: %v", main, b.Valid(), want)
		}
		v, err := g.IsValid(main, in)
		if err != nil || v != want {
			c.fail(gs, q(in), "IsValid(%s) = %v, %v; the rule derives the input: %v", main, v, err, want)
		}
	}
}

func runC03(c *C) {
	g := c.nextGrammar(parseCfg(c))
	r := newRef(g)
	rules := sortedRules(g)
	gs := gstr(g)
	main := pickOf(c, rules)
	if c.idx < len(curatedABNF) {
		main = rules[0]
	}
	for _, in := range c.inputs(r, main, 10, 6) {
		t := r.table(in)
		want := big.NewInt(0)
		if t.derives(main) {
			want = t.countTrees(main, 4000)
			if want == nil {
				c.skip("state space too large to count")
				continue
			}
		}
		amb := want.Sign() != 0 && want.Cmp(big.NewInt(1)) != 0
		c.at(gs+" rule "+main, q(in))
		c.eval(amb, gs, main, string(in))
		f, err := abnf.ParseForest(in, g, main)
		if err != nil {
			c.fail(gs, q(in), "ParseForest(%s) error %v", main, err)
			continue
		}
		if n := f.NumTrees(); n.Cmp(want) != 0 {
			c.fail(gs, q(in), "ParseForest(%s).NumTrees() = %v, derivations: %v", main, n, want)
		}
		if a := f.Ambiguous(); a != amb {
			c.fail(gs, q(in), "ParseForest(%s).Ambiguous() = %v with %v derivations", main, a, want)
		}
		b, err := abnf.ParseBSR(in, g, main)
		if err != nil {
			c.fail(gs, q(in), "ParseBSR(%s) error %v", main, err)
			continue
		}
		if n := b.NumTrees(); n.Cmp(want) != 0 {
			c.fail(gs, q(in), "ParseBSR(%s).NumTrees() = %v, derivations: %v", main, n, want)
		}
		if a := b.Ambiguous(); a != amb {
			c.fail(gs, q(in), "ParseBSR(%s).Ambiguous() = %v with %v derivations", main, a, want)
		}
	}
}

func runC04(c *C) {
	g := c.nextGrammar(parseCfg(c))
	r := newRef(g)
	rules := sortedRules(g)
	gs := gstr(g)
	main := pickOf(c, rules)
	if c.idx < len(curatedABNF) {
		main = rules[0]
	}
	for _, in := range c.inputs(r, main, 10, 6) {
		t := r.table(in)
		c.at(gs+" rule "+main, q(in))
		valid := t.derives(main)
		f, err1 := abnf.ParseForest(in, g, main)
		b, err2 := abnf.ParseBSR(in, g, main)
		if err1 != nil || err2 != nil {
			c.fail(gs, q(in), "parsing errors %v, %v", err1, err2)
			continue
		}
		if !valid {
			c.eval(false)
			if f.Tree() != nil {
				c.fail(gs, q(in), "ParseForest(%s).Tree() is not nil on invalid input", main)
			}
			if b.Tree() != nil {
				c.fail(gs, q(in), "ParseBSR(%s).Tree() is not nil on invalid input", main)
			}
			continue
		}
		cnt := t.countTrees(main, 4000)
		if cnt == nil || cnt.Sign() < 0 {
			c.skip("infinitely many derivations")
			continue
		}
		c.eval(true, gs, main, string(in))
		for _, x := range []struct {
			n string
			t *abnf.ParseTree
		}{{"ParseForest", f.Tree()}, {"ParseBSR", b.Tree()}} {
			if msg := t.checkTree(x.t, main, 0, len(in)); msg != "" {
				c.fail(gs, q(in), "%s(%s).Tree(): %s: %s", x.n, main, msg, treeStr(x.t))
			}
		}
	}
}

func treeStr(t *abnf.ParseTree) string {
	if t == nil {
		return "<nil>"
	}
	s := t.Rule
	if s == "" {
		s = "'"
	}
	s += "[" + itoa(t.Start) + ":" + itoa(t.End) + "]"
	if len(t.Children) > 0 {
		s += "("
		for i, ch := range t.Children {
			if i > 0 {
				s += " "
			}
			s += treeStr(ch)
		}
		s += ")"
	}
	return s
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }
