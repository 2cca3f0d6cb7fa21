package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	props["C15"] = propDef{run: runC15, quick: 30000, thorough: 300000, rule: "random reference graphs between 1-6 rules (core rules redefined or referenced, dangling references, mixed case), each query repeated to vary map iteration order; non-trivial: a cycle exists"}
	props["C16"] = propDef{run: runC16, quick: 5000, thorough: 50000, rule: "random grammars and inputs parsed, expanded and rendered with random budgets from far below to far above the unbudgeted size; non-trivial: the budget is hit"}
	props["C17"] = propDef{run: runC17, quick: 10000, thorough: 100000, rule: "random grammars with invalid and valid inputs, and damaged ABNF texts; every reported field against an independent left-to-right exploration; non-trivial: an invalid input"}
	props["C19"] = propDef{run: runC19, quick: 2500, thorough: 100000, rule: "random grammars with core rules redefined in random case; every API taking a rule name called with random case variants and unknown names; non-trivial: the name resolves"}
	props["C20"] = propDef{run: runC20, quick: 2500, thorough: 25000, rule: "random sequences of all operations over shared grammars, sequentially and concurrently, with deep snapshots of every argument, of the core rules and of the meta-grammar before and after, results compared with fresh copies; non-trivial: a sequence of at least two operations"}
}

// ---- C15 -----------------------------------------------------------------------

func runC15(c *C) {
	n := 1 + c.pick(6)
	names := ruleNames(c, n)
	if c.p(20) {
		names[c.pick(n)] = recase(c, pickOf(c, coreNames))
	}
	g := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	dens := 1 + c.pick(3)
	for _, nm := range names {
		var cs []abnf.Concatenation
		for k := c.pick(dens + 1); k > 0; k-- {
			var e abnf.ElemItf = rnm(recase(c, pickOf(c, names)))
			if c.p(15) {
				e = rnm(recase(c, pickOf(c, coreNames)))
			}
			if c.p(5) {
				e = rnm("dangling")
			}
			if c.p(30) {
				e = grp(alt(cat(one(str("x")), one(e))))
			} else if c.p(20) {
				e = opt(alt(cat(one(e))))
			}
			cs = append(cs, cat(c.smallRep(e)))
		}
		cs = append(cs, cat(one(str("a"))))
		g.Rulemap[nm] = &abnf.Rule{Name: nm, Alternation: abnf.Alternation{Concatenations: cs}}
	}
	r := newRef(g)
	dep := r.depMap()
	any := false
	for nm := range r.rules {
		if reachFrom(dep, nm)[nm] {
			any = true
		}
	}
	gs := gstr(g)
	for k := 0; k < 4; k++ {
		c.at(gs, "IsDAG")
		c.eval(any, gs)
		if got := g.IsDAG(); got == any {
			c.fail(gs, "", "IsDAG = %v, a rule reaches itself: %v", got, any)
			return
		}
		for _, nm := range append(append([]string{}, names...), "DIGIT", "LWSP", "HEXDIG") {
			want := r.cyclicFrom(nm)
			c.at(gs, "RuleContainsCycle "+nm)
			got, err := g.RuleContainsCycle(recase(c, nm))
			if err != nil || got != want {
				c.fail(gs, "", "RuleContainsCycle(%s) = %v, %v; depends on a cycle: %v", nm, got, err, want)
				return
			}
		}
		_, err := g.RuleContainsCycle("unknown-rule")
		var nf *abnf.ErrRuleNotFound
		if !errors.As(err, &nf) {
			c.fail(gs, "", "RuleContainsCycle of an unknown rule: %v", err)
		}
	}
}

// ---- C16 -----------------------------------------------------------------------

func sigGraph(tg *abnf.TransitionGraph) (string, int) {
	// canonical up to node identity: breadth-first numbering from the entries
	id := map[*abnf.Node]int{}
	var order []*abnf.Node
	num := func(n *abnf.Node) int {
		if n == nil {
			return -1
		}
		if v, ok := id[n]; ok {
			return v
		}
		id[n] = len(order)
		order = append(order, n)
		return id[n]
	}
	var sb strings.Builder
	for _, e := range tg.Entrypoints {
		fmt.Fprintf(&sb, "E%d ", num(e))
	}
	for i := 0; i < len(order); i++ {
		n := order[i]
		fmt.Fprintf(&sb, "%d:%s>", i, dumpElem(n.Elem))
		for _, m := range n.Nexts {
			fmt.Fprintf(&sb, "%d,", num(m))
		}
		sb.WriteString(" ")
	}
	cnt := len(order)
	for _, e := range tg.Endpoints {
		fmt.Fprintf(&sb, "X%d ", num(e))
	}
	return sb.String(), cnt
}

func (c *C) budget(size int) int {
	switch c.pick(6) {
	case 0:
		return 1 + c.pick(3)
	case 1:
		return size
	case 2:
		return max(1, size-1)
	case 3:
		return size + 1 + c.pick(3)
	case 4:
		if c.p(50) {
			return 1000000
		}
		return 4*size + 50
	}
	return 1 + c.pick(2*size+2)
}

func runC16(c *C) {
	g := c.nextGrammar(func() gcfg {
		cfg := defaultCfg(c)
		return cfg
	})
	r := newRef(g)
	rule := c.ruleOf(g)
	gs := gstr(g)
	in := pickOf(c, c.inputs(r, rule, 12, 6))
	c.at(gs+" rule "+rule, q(in))
	f0, err := abnf.ParseForest(in, g, rule)
	if err != nil {
		c.fail(gs, q(in), "ParseForest without budget: %v", err)
		return
	}
	b0, err := abnf.ParseBSR(in, g, rule)
	if err != nil {
		c.fail(gs, q(in), "ParseBSR without budget: %v", err)
		return
	}
	var fl *abnf.ErrForestTooLarge
	var gl *abnf.ErrGrammarTooLarge
	for k := 0; k < 4; k++ {
		n := c.budget(f0.Nodes())
		c.at(gs+" rule "+rule, q(in)+fmt.Sprintf(" forest budget %d", n))
		f, err := abnf.ParseForest(in, g, rule, abnf.WithMaxForestNodes(n))
		c.eval(err != nil, gs, rule, string(in), "forest", itoa(n))
		if err != nil {
			if !errors.As(err, &fl) || fl.Max != n {
				c.fail(gs, q(in), "ParseForest with budget %d: %v", n, err)
			}
			if f0.Valid() && n >= 1000000 {
				c.fail(gs, q(in), "ParseForest with budget %d fails, the forest has %d nodes", n, f0.Nodes())
			}
		} else if f.Nodes() > n {
			c.fail(gs, q(in), "ParseForest with budget %d gives %d nodes", n, f.Nodes())
		} else if f.Valid() != f0.Valid() || f.NumTrees().Cmp(f0.NumTrees()) != 0 || f.Ambiguous() != f0.Ambiguous() || f.Nodes() != f0.Nodes() || (!f.Ambiguous() && treeStr(f.Tree()) != treeStr(f0.Tree())) {
			c.fail(gs, q(in), "ParseForest with budget %d gives another result", n)
		}
		n = c.budget(b0.Nodes())
		b, err := abnf.ParseBSR(in, g, rule, abnf.WithMaxForestNodes(n))
		c.eval(err != nil, gs, rule, string(in), "bsr", itoa(n))
		if err != nil {
			if !errors.As(err, &fl) || fl.Max != n {
				c.fail(gs, q(in), "ParseBSR with budget %d: %v", n, err)
			}
			if b0.Valid() && n >= 1000000 {
				c.fail(gs, q(in), "ParseBSR with budget %d fails, the result has %d elements", n, b0.Nodes())
			}
		} else if b.Nodes() > n {
			c.fail(gs, q(in), "ParseBSR with budget %d gives %d elements", n, b.Nodes())
		} else if b.Valid() != b0.Valid() || b.NumTrees().Cmp(b0.NumTrees()) != 0 || b.Ambiguous() != b0.Ambiguous() || b.Nodes() != b0.Nodes() {
			c.fail(gs, q(in), "ParseBSR with budget %d gives another result", n)
		}
		n = 1 + c.pick(60)
		if c.p(20) {
			n = 100000
		}
		f, err = abnf.ParseForest(in, g, rule, abnf.WithMaxSlots(n))
		c.eval(err != nil, gs, rule, string(in), "slots", itoa(n))
		if err != nil {
			if !errors.As(err, &gl) || gl.Max != n || n == 100000 {
				c.fail(gs, q(in), "ParseForest with slot budget %d: %v", n, err)
			}
		} else if f.Valid() != f0.Valid() || f.NumTrees().Cmp(f0.NumTrees()) != 0 || f.Nodes() != f0.Nodes() {
			c.fail(gs, q(in), "ParseForest with slot budget %d gives another result", n)
		}
		_, err2 := abnf.ParseBSR(in, g, rule, abnf.WithMaxSlots(n))
		if (err2 != nil) != (err != nil) || (err2 != nil && (!errors.As(err2, &gl) || gl.Max != n)) {
			c.fail(gs, q(in), "ParseBSR with slot budget %d: %v, ParseForest: %v", n, err2, err)
		}
	}
	// graphs and regexes need a non-recursive rule
	if r.cyclicFrom(rule) || r.undefinedFrom(rule) {
		return
	}
	a, b := c.p(40), c.p(40)
	opts := []abnf.TGOption{abnf.WithDeflateRules(c.p(70)), abnf.WithDeflateCharVals(a), abnf.WithDeflateNumVals(b)}
	probe := append(append([]abnf.TGOption{}, opts...), abnf.WithMaxNodes(5000))
	tg0, err := g.TransitionGraph(rule, probe...)
	var mx *abnf.ErrMaxNodesExceeded
	if err != nil {
		if !errors.As(err, &mx) || mx.Max != 5000 {
			c.fail(gs, "", "TransitionGraph with node budget 5000: %v", err)
		}
		return
	}
	s0, size := sigGraph(tg0)
	if size > 5000 {
		c.fail(gs, "", "TransitionGraph with node budget 5000 has %d nodes", size)
	}
	tgU, err := g.TransitionGraph(rule, opts...)
	if err != nil {
		c.fail(gs, "", "TransitionGraph without budget: %v", err)
		return
	}
	if s, _ := sigGraph(tgU); s != s0 {
		c.fail(gs, "", "TransitionGraph with budget differs: %s / %s", s0, s)
	}
	for k := 0; k < 3; k++ {
		n := c.budget(size)
		c.at(gs+" rule "+rule, fmt.Sprintf("node budget %d", n))
		tg, err := g.TransitionGraph(rule, append(append([]abnf.TGOption{}, opts...), abnf.WithMaxNodes(n))...)
		c.eval(err != nil, gs, rule, "graph", itoa(n))
		if err != nil {
			if !errors.As(err, &mx) || mx.Max != n {
				c.fail(gs, "", "TransitionGraph with node budget %d: %v", n, err)
			}
			continue
		}
		s, cnt := sigGraph(tg)
		if cnt > n {
			c.fail(gs, "", "TransitionGraph with node budget %d has %d nodes", n, cnt)
		}
		if s != s0 {
			c.fail(gs, "", "TransitionGraph with node budget %d differs: %s / %s", n, s0, s)
		}
		// repetition threshold
		t := c.pick(5)
		tg, err = g.TransitionGraph(rule, append(append([]abnf.TGOption{}, opts...), abnf.WithRepetitionThreshold(t))...)
		if err != nil {
			if !errors.Is(err, abnf.ErrRepetitionThreshold) {
				c.fail(gs, "", "TransitionGraph with repetition threshold %d: %v", t, err)
			}
		} else if s, _ := sigGraph(tg); s != s0 {
			c.fail(gs, "", "TransitionGraph with repetition threshold %d differs", t)
		}
	}
	re0, err := g.Regex(rule)
	if err != nil {
		return
	}
	var rl *abnf.ErrRegexTooLarge
	for k := 0; k < 3; k++ {
		n := c.budget(len(re0))
		re, err := g.Regex(rule, abnf.WithMaxRegexLen(n))
		c.eval(err != nil, gs, rule, "regex", itoa(n))
		if err != nil {
			if !errors.As(err, &rl) || rl.Max != n {
				c.fail(gs, "", "Regex with length budget %d: %v", n, err)
			}
		} else if len(re) > n || re != re0 {
			c.fail(gs, "", "Regex with length budget %d gives %q instead of %q", n, re, re0)
		}
	}
}

// ---- C17 -----------------------------------------------------------------------

func describe(b byte) string {
	switch b {
	case '\n':
		return "%x0A (LF)"
	case '\r':
		return "%x0D (CR)"
	case '\t':
		return "%x09 (HTAB)"
	case ' ':
		return "%x20 (SP)"
	}
	return ""
}

func runC17(c *C) {
	if c.p(25) {
		c17text(c)
		return
	}
	g := c.nextGrammar(func() gcfg {
		cfg := parseCfg(c)()
		cfg.incoh = false
		return cfg
	})
	r := newRef(g)
	rule := c.ruleOf(g)
	gs := gstr(g)
	for _, in := range c.inputs(r, rule, 12, 5) {
		if c.p(15) {
			in = append(append([]byte{}, in...), pickOf(c, []string{"\n", "\r\n", "\r", "\na", "\n\n"})...)
		}
		c.at(gs+" rule "+rule, q(in))
		f, err := abnf.ParseForest(in, g, rule)
		if err != nil {
			c.fail(gs, q(in), "ParseForest: %v", err)
			continue
		}
		t := r.table(in)
		valid := t.derives(rule)
		pe := f.ParseError()
		c.eval(!valid, gs, rule, string(in))
		if valid {
			if pe != nil {
				c.fail(gs, q(in), "valid input has parse error %v", pe)
			}
			continue
		}
		if pe == nil {
			c.fail(gs, q(in), "invalid input has no parse error")
			continue
		}
		c17check(c, gs, in, pe, t.failedAttempts(rule))
	}
}

func c17check(c *C, gs string, in []byte, pe *abnf.ParseError, att map[attempt]bool) {
	off := 0
	for a := range att {
		if a.pos > off {
			off = a.pos
		}
	}
	if pe.Offset != off {
		c.fail(gs, q(in), "offset %d, the furthest failed terminal attempt is at %d", pe.Offset, off)
		return
	}
	line, col := 1, 1
	for _, b := range in[:off] {
		if b == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
	if pe.Line != line || pe.Col != col {
		c.fail(gs, q(in), "position %d:%d, expected %d:%d", pe.Line, pe.Col, line, col)
	}
	exp := map[string]bool{}
	for a := range att {
		if a.pos == off {
			exp[a.term] = true
		}
	}
	got := map[string]bool{}
	for _, s := range pe.Expected {
		if got[s] {
			c.fail(gs, q(in), "expected list repeats %q", s)
		}
		got[s] = true
	}
	if !reflect.DeepEqual(exp, got) {
		c.fail(gs, q(in), "expected list %v, terminals failing there %v", keys(got), keys(exp))
	}
	if !sort.StringsAreSorted(pe.Expected) {
		c.fail(gs, q(in), "expected list %v is not sorted", pe.Expected)
	}
	if off == len(in) {
		if pe.Found != "EOF" || pe.Hint != "" {
			c.fail(gs, q(in), "found %q, hint %q at the end of input", pe.Found, pe.Hint)
		}
	} else {
		b := in[off]
		ok := strings.Contains(pe.Found, fmt.Sprintf("%%x%02X", b))
		if b >= 0x21 && b < 0x7f {
			ok = pe.Found == fmt.Sprintf("%q", string(rune(b)))
		}
		if b == ' ' {
			ok = ok || pe.Found == `" "`
		}
		if !ok {
			c.fail(gs, q(in), "found %q, the byte there is %02x", pe.Found, b)
		}
		lf := b == '\n' && (off == 0 || in[off-1] != '\r')
		if lf != (pe.Hint != "") {
			c.fail(gs, q(in), "hint %q, offending bare LF: %v", pe.Hint, lf)
		}
	}
	if !errors.Is(pe, abnf.ErrNoSolutionFound) {
		c.fail(gs, q(in), "the error does not unwrap to ErrNoSolutionFound")
	}
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

var metaRef *ref
var metaOnce sync.Once

func c17text(c *C) {
	metaOnce.Do(func() { metaRef = newRef(abnf.ABNF) })
	text := pickOf(c, []string{"a = \"x\"\r\n", "a = b / 2*\"c\"\r\nb = %x41-5A\r\n", "a=b\r\nb=*c\r\nc=\"d\"\r\n"})
	i := c.pick(len(text) + 1)
	switch c.pick(3) {
	case 0:
		text = text[:i] + pickOf(c, textChars) + text[i:]
	case 1:
		text = strings.Replace(text, "\r\n", "\n", 1)
	case 2:
		text = text[:i]
	}
	in := []byte(text)
	c.at("ABNF meta-grammar", q(in))
	_, err := abnf.ParseABNF(in, abnf.WithValidation(false))
	t := metaRef.table(in)
	if t.derives("rulelist") {
		c.eval(false)
		var pe *abnf.ParseError
		if errors.As(err, &pe) {
			c.fail("ABNF", q(in), "well-formed text gives a parse error %v", err)
		}
		return
	}
	c.eval(true, text)
	var pe *abnf.ParseError
	if !errors.As(err, &pe) {
		c.fail("ABNF", q(in), "malformed text gives %v", err)
		return
	}
	c17check(c, "ABNF meta-grammar", in, pe, t.failedAttempts("rulelist"))
}

// ---- C19 -----------------------------------------------------------------------

func runC19(c *C) {
	cfg := defaultCfg(c)
	cfg.acyclic = true
	cfg.rules = 1 + c.pick(3)
	cfg.multibyte = false
	g := c.grammar(cfg)
	// redefine some core rules under a random case
	for k := c.pick(3); k > 0; k-- {
		nm := recase(c, pickOf(c, coreNames))
		dup := false
		for n := range g.Rulemap {
			dup = dup || strings.EqualFold(n, nm)
		}
		if !dup {
			g.Rulemap[nm] = &abnf.Rule{Name: nm, Alternation: alt(cat(one(pickOf(c, []abnf.ElemItf{sstr("q"), str("zz"), num("x", abnf.StatRange, "61", "63")}))))}
		}
	}
	gs := gstr(g)
	r := newRef(g)
	all := append(sortedRules(g), coreNames...)
	for k := 0; k < 3; k++ {
		for _, nm := range all {
			v := recase(c, nm)
			got := abnf.GetRule(v, g.Rulemap)
			own := false
			for _, rl := range g.Rulemap {
				if strings.EqualFold(rl.Name, v) {
					own = true
					if got != rl {
						c.fail(gs, v, "GetRule does not return the grammar's own rule")
						return
					}
				}
			}
			c.eval(true, gs, v)
			if !own {
				if got == nil || !strings.EqualFold(got.Name, v) {
					c.fail(gs, v, "GetRule does not return the core rule")
					return
				}
				a, _ := coreAlt(v)
				t1 := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"lookup": {Name: "lookup", Alternation: a}}}
				for _, in := range [][]byte{{}, []byte("a"), []byte("0"), []byte("\r\n"), []byte(" "), []byte("\n"), {byte(c.pick(128))}, []byte("F"), []byte("\r\n "), []byte("\"")} {
					got, err := (&abnf.Grammar{}).IsValid(v, in)
					if want := newRef(t1).table(in).derives("lookup"); err != nil || got != want {
						c.fail(v, q(in), "core rule %s: IsValid %v, %v; RFC 5234 says %v", v, got, err, want)
					}
				}
			}
		}
	}
	// every API resolves alike, whatever the case
	nm := pickOf(c, all)
	v1, v2 := recase(c, nm), recase(c, nm)
	ins := c.inputs(r, nm, 8, 3)
	for _, in := range ins {
		c.at(gs, v1+" "+q(in))
		want := r.table(in).derives(nm)
		a1, e1 := g.IsValid(v1, in)
		if e1 != nil || a1 != want {
			c.fail(gs, q(in), "IsValid(%s) = %v, %v, the resolved rule derives it: %v", v1, a1, e1, want)
		}
		f, e2 := abnf.ParseForest(in, g, v2)
		if e2 != nil || f.Valid() != want {
			c.fail(gs, q(in), "ParseForest(%s) differs from the resolved rule: %v", v2, e2)
		}
		b, e3 := abnf.ParseBSR(in, g, v1)
		if e3 != nil || b.Valid() != want {
			c.fail(gs, q(in), "ParseBSR(%s) differs from the resolved rule: %v", v1, e3)
		}
	}
	x1, e1 := g.Regex(v1)
	x2, e2 := g.Regex(v2)
	if x1 != x2 || (e1 == nil) != (e2 == nil) {
		c.fail(gs, "", "Regex(%s) = %q, %v; Regex(%s) = %q, %v", v1, x1, e1, v2, x2, e2)
	}
	s := c.rng.Int63()
	o1, e1 := g.Generate(s, v1, abnf.WithRepMax(3))
	o2, e2 := g.Generate(s, v2, abnf.WithRepMax(3))
	if string(o1) != string(o2) || (e1 == nil) != (e2 == nil) {
		c.fail(gs, "", "Generate(%s) = %q, %v; Generate(%s) = %q, %v", v1, o1, e1, v2, o2, e2)
	}
	ag1, e1 := abnf.NewASTGenerator(g, v1, abnf.WithMaxRepeat(2))
	ag2, e2 := abnf.NewASTGenerator(g, v2, abnf.WithMaxRepeat(2))
	if e1 != nil || e2 != nil {
		c.fail(gs, "", "NewASTGenerator(%s): %v; (%s): %v", v1, e1, v2, e2)
	} else {
		tp := c.tape()
		if string(ag1.Generate(tp)) != string(ag2.Generate(tp)) {
			c.fail(gs, "", "ASTGenerator depends on the case of %s", nm)
		}
	}
	tg1, e1 := g.TransitionGraph(v1, abnf.WithDeflateRules(true), abnf.WithMaxNodes(2000))
	tg2, e2 := g.TransitionGraph(v2, abnf.WithDeflateRules(true), abnf.WithMaxNodes(2000))
	if (e1 == nil) != (e2 == nil) {
		c.fail(gs, "", "TransitionGraph(%s): %v; (%s): %v", v1, e1, v2, e2)
	} else if e1 == nil {
		a, _ := sigGraph(tg1)
		b, _ := sigGraph(tg2)
		if a != b {
			c.fail(gs, "", "TransitionGraph depends on the case of %s", nm)
		}
	}
	if c.p(20) {
		s1, e1 := abnf.GenerateGoParser(g, v1, "p")
		s2, e2 := abnf.GenerateGoParser(g, v2, "p")
		if (e1 == nil) != (e2 == nil) || len(s1) != len(s2) {
			c.fail(gs, "", "GenerateGoParser(%s): %v; (%s): %v", v1, e1, v2, e2)
		}
	}
	// unknown names
	u := pickOf(c, []string{"nowhere", "r99", "ALPH", "ALPHAS", "", "a b", "DIGIT "})
	errs := map[string]error{}
	_, errs["IsValid"] = g.IsValid(u, nil)
	_, errs["ParseForest"] = abnf.ParseForest(nil, g, u)
	_, errs["ParseBSR"] = abnf.ParseBSR(nil, g, u)
	_, errs["Regex"] = g.Regex(u)
	_, errs["Generate"] = g.Generate(1, u)
	_, errs["NewASTGenerator"] = abnf.NewASTGenerator(g, u)
	_, errs["TransitionGraph"] = g.TransitionGraph(u)
	_, errs["RuleContainsCycle"] = g.RuleContainsCycle(u)
	_, errs["GenerateGoParser"] = abnf.GenerateGoParser(g, u, "p")
	c.eval(false)
	for k, e := range errs {
		if e == nil {
			c.fail(gs, u, "%s of the unknown rule %q gives no error", k, u)
		}
	}
	if abnf.GetRule(u, g.Rulemap) != nil {
		c.fail(gs, u, "GetRule of the unknown rule %q is not nil", u)
	}
}

// ---- C20 -----------------------------------------------------------------------

func cloneGrammar(g *abnf.Grammar) *abnf.Grammar {
	o := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	for k, r := range g.Rulemap {
		o.Rulemap[k] = &abnf.Rule{Name: r.Name, Alternation: cloneAlt(r.Alternation)}
	}
	return o
}

func cloneAlt(a abnf.Alternation) abnf.Alternation {
	var o abnf.Alternation
	for _, cc := range a.Concatenations {
		var nc abnf.Concatenation
		for _, r := range cc.Repetitions {
			nr := r
			switch v := r.Element.(type) {
			case abnf.ElemGroup:
				nr.Element = abnf.ElemGroup{Alternation: cloneAlt(v.Alternation)}
			case abnf.ElemOption:
				nr.Element = abnf.ElemOption{Alternation: cloneAlt(v.Alternation)}
			case abnf.ElemCharVal:
				nr.Element = abnf.ElemCharVal{Sensitive: v.Sensitive, Values: append([]rune{}, v.Values...)}
			case abnf.ElemNumVal:
				nr.Element = abnf.ElemNumVal{Base: v.Base, Status: v.Status, Elems: append([]string{}, v.Elems...)}
			}
			nc.Repetitions = append(nc.Repetitions, nr)
		}
		o.Concatenations = append(o.Concatenations, nc)
	}
	return o
}

func snapGrammar(g *abnf.Grammar) string {
	s := dumpGrammar(g)
	var ks []string
	for k, r := range g.Rulemap {
		ks = append(ks, fmt.Sprintf("%s@%p", k, r))
	}
	sort.Strings(ks)
	return s + strings.Join(ks, ",")
}

func snapShared() string {
	var sb strings.Builder
	sb.WriteString(snapGrammar(abnf.ABNF))
	for _, n := range coreNames {
		r := abnf.GetRule(n, nil)
		fmt.Fprintf(&sb, "%p %s = %s\n", r, r.Name, dumpAlt(r.Alternation))
	}
	return sb.String()
}

type op struct {
	name string
	run  func(g *abnf.Grammar) string
}

func es(err error) string {
	if err == nil {
		return ""
	}
	return fmt.Sprintf("%T", err)
}

// ops whose outcome is a function of the grammar's contents
func (c *C) randomOp(g *abnf.Grammar, r *ref) op {
	rule := c.ruleOf(g)
	in := append([]byte{}, pickOf(c, c.inputs(r, rule, 8, 2))...)
	keep := string(in)
	tape := c.tape()
	tkeep := string(tape)
	seed := c.rng.Int63()
	guard := func(s string) string {
		if string(in) != keep {
			return "INPUT MODIFIED"
		}
		if string(tape) != tkeep {
			return "TAPE MODIFIED"
		}
		return s
	}
	acyc := !r.cyclicFrom(rule)
	for {
		switch c.pick(15) {
		case 0:
			return op{"IsValid " + rule + " " + q(in), func(g *abnf.Grammar) string {
				v, e := g.IsValid(rule, in)
				return guard(fmt.Sprint(v, es(e)))
			}}
		case 1:
			return op{"ParseForest " + rule + " " + q(in), func(g *abnf.Grammar) string {
				f, e := abnf.ParseForest(in, g, rule)
				if e != nil {
					return es(e)
				}
				pe := ""
				if x := f.ParseError(); x != nil {
					pe = x.Error()
				}
				// which derivation Tree picks is only determined when there is one
				tr := ""
				if t := f.Tree(); !f.Ambiguous() {
					tr = treeStr(t)
				}
				return guard(fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.Nodes(), tr, pe, f.NumTrees(), f.Ambiguous()))
			}}
		case 2:
			return op{"ParseBSR " + rule + " " + q(in), func(g *abnf.Grammar) string {
				f, e := abnf.ParseBSR(in, g, rule)
				if e != nil {
					return es(e)
				}
				tr := ""
				if t := f.Tree(); !f.Ambiguous() {
					tr = treeStr(t)
				}
				return guard(fmt.Sprint(f.Valid(), f.NumTrees(), f.Ambiguous(), f.Nodes(), tr, f.NumTrees()))
			}}
		case 3:
			return op{"Regex " + rule, func(g *abnf.Grammar) string {
				s, e := g.Regex(rule)
				return s + es(e)
			}}
		case 4:
			if !acyc {
				continue
			}
			return op{"Generate " + rule, func(g *abnf.Grammar) string {
				s, e := g.Generate(seed, rule, abnf.WithRepMax(2))
				return string(s) + es(e)
			}}
		case 5:
			return op{"ASTGenerator " + rule, func(g *abnf.Grammar) string {
				ag, e := abnf.NewASTGenerator(g, rule, abnf.WithMaxDepth(4), abnf.WithMaxLen(20), abnf.WithMaxRepeat(2))
				if e != nil {
					return "err"
				}
				return guard(string(ag.Generate(tape)) + string(ag.GenerateRand(rand.New(rand.NewSource(seed)))))
			}}
		case 6:
			if !acyc {
				continue
			}
			return op{"TransitionGraph " + rule, func(g *abnf.Grammar) string {
				tg, e := g.TransitionGraph(rule, abnf.WithDeflateRules(true), abnf.WithMaxNodes(500))
				if e != nil {
					return es(e)
				}
				s, _ := sigGraph(tg)
				gen, e := abnf.NewGenerator(tg, abnf.WithMaxLength(12), abnf.WithMaxReps(2))
				if e != nil {
					return s + es(e)
				}
				o := string(gen.Generate(tape))
				a, l, k := gen.NearMiss(tape)
				nx, ac, ok := gen.ExpectedNext([]byte(o))
				s2, _ := sigGraph(tg)
				if s != s2 {
					return "GRAPH MODIFIED"
				}
				return guard(s + o + string(a) + l + fmt.Sprint(k, nx, ac, ok))
			}}
		case 7:
			return op{"IsDAG", func(g *abnf.Grammar) string { return fmt.Sprint(g.IsDAG()) }}
		case 8:
			return op{"RuleContainsCycle " + rule, func(g *abnf.Grammar) string {
				v, e := g.RuleContainsCycle(rule)
				return fmt.Sprint(v, es(e))
			}}
		case 9:
			return op{"SemvalABNF", func(g *abnf.Grammar) string { return fmt.Sprint(abnf.SemvalABNF(g) == nil) }}
		case 10:
			return op{"String", func(g *abnf.Grammar) string {
				ls := strings.Split(g.String(), "\r\n")
				ps := strings.Split(g.PrettyPrint(), "\r\n")
				sort.Strings(ls)
				sort.Strings(ps)
				return strings.Join(ls, "\n") + strings.Join(ps, "\n")
			}}
		case 11:
			text := c.abnfText()
			redef := c.p(60)
			tb := []byte(text)
			return op{"ParseABNF " + q(tb), func(*abnf.Grammar) string {
				g2, e := abnf.ParseABNF(tb, abnf.WithRedefineCoreRules(redef), abnf.WithValidation(false))
				if string(tb) != text {
					return "INPUT MODIFIED"
				}
				if e != nil {
					return es(e)
				}
				return dumpGrammar(g2)
			}}
		case 12:
			text := "a = b\r\n" + pickOf(c, coreNames) + " =/ \"leak\"\r\nb = \"x\"\r\nb =/ \"y\"\r\n"
			return op{"ParseABNF " + q([]byte(text)), func(*abnf.Grammar) string {
				g2, e := abnf.ParseABNF([]byte(text), abnf.WithRedefineCoreRules(true))
				if e != nil {
					return es(e)
				}
				return dumpGrammar(g2)
			}}
		case 13:
			return op{"DependencyGraph", func(g *abnf.Grammar) string {
				dg := g.DependencyGraph()
				var ks []string
				for k, n := range dg {
					ks = append(ks, k+n.Rulename+strings.Join(n.Dependencies, ","))
				}
				sort.Strings(ks)
				return strings.Join(ks, ";")
			}}
		case 14:
			if c.p(70) {
				continue
			}
			return op{"GenerateGoParser " + rule, func(g *abnf.Grammar) string {
				s, e := abnf.GenerateGoParser(g, rule, "p")
				return string(s) + es(e)
			}}
		}
	}
}

func runC20(c *C) {
	g := c.nextGrammar(func() gcfg {
		cfg := defaultCfg(c)
		cfg.acyclic = c.p(60)
		return cfg
	})
	if c.p(15) {
		nm := pickOf(c, coreNames)
		g.Rulemap[nm] = &abnf.Rule{Name: nm, Alternation: alt(cat(one(str("q"))))}
	}
	r := newRef(g)
	gs := gstr(g)
	var ops []op
	for k := 2 + c.pick(5); k > 0; k-- {
		ops = append(ops, c.randomOp(g, r))
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	desc := strings.Join(names, " ; ")
	c.at(gs, desc)
	c.eval(true, gs, desc)
	snap, shared := snapGrammar(g), snapShared()
	// alone, on fresh copies
	var alone []string
	for _, o := range ops {
		alone = append(alone, o.run(cloneGrammar(g)))
	}
	if s := snapShared(); s != shared {
		c.fail(gs, desc, "an operation modified the core rules or the meta-grammar")
		return
	}
	check := func(how string, i int, got string) {
		if got != alone[i] {
			c.fail(gs, desc, "%s: %s gives %q, alone %q", how, ops[i].name, clip(got), clip(alone[i]))
		}
	}
	// in sequence, on the shared grammar, in a random order
	for _, i := range c.rng.Perm(len(ops)) {
		check("in sequence", i, ops[i].run(g))
	}
	if snapGrammar(g) != snap {
		c.fail(gs, desc, "an operation modified the grammar")
	}
	// concurrently
	res := make([]string, 2*len(ops))
	pan := make([]any, 2*len(ops))
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { pan[i] = recover() }()
			res[i] = ops[i%len(ops)].run(g)
		}(i)
	}
	wg.Wait()
	for i := range res {
		if pan[i] != nil {
			c.fail(gs, desc, "concurrently: %s panics: %v", ops[i%len(ops)].name, pan[i])
			continue
		}
		check("concurrently", i%len(ops), res[i])
	}
	if snapGrammar(g) != snap || snapShared() != shared {
		c.fail(gs, desc, "a concurrent operation modified shared data")
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
