package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	props["C08"] = propDef{run: runC08, quick: 12000, thorough: 120000, rule: "random closed grammars with satisfiable terminals: acyclic ones and benign right/nested recursion are generated from with random seeds, repetition caps and thresholds; rules without a finite derivation must be refused; non-trivial: a non-empty production, or a refusal"}
	props["C09"] = propDef{run: runC09, quick: 12000, thorough: 120000, rule: "random grammars, recursive ones included, some with undefined references or non-productive rules; random tapes, random sources and budgets; non-trivial: a non-empty production, or a refusal"}
	props["C10"] = propDef{run: runC10, quick: 8000, thorough: 80000, rule: "random closed acyclic grammars expanded to transition graphs with every option mix; random tapes/sources/budgets; prefixes of sampled words; non-trivial: non-empty production, near miss or viable prefix"}
	props["C11"] = propDef{run: runC11, quick: 6000, thorough: 60000, rule: "random closed acyclic grammars expanded with every option mix; random walks, all reader productions (capped), and acceptance of sampled words and mutations by the graph; non-trivial: a non-empty string"}
}

func genCfg(c *C) gcfg {
	cfg := defaultCfg(c)
	cfg.closed, cfg.prose, cfg.sat, cfg.incoh = true, false, true, false
	return cfg
}

// productive rules: those deriving at least one finite string.
func (r *ref) productive() map[string]bool {
	p := map[string]bool{}
	var ok func(n *gnode) bool
	ok = func(n *gnode) bool {
		switch n.kind {
		case kAlt:
			for _, k := range n.kids {
				if ok(k) {
					return true
				}
			}
			return false
		case kCat:
			for _, k := range n.kids {
				if !ok(k) {
					return false
				}
			}
			return true
		case kRep:
			return n.min == 0 || ok(n.kids[0])
		case kOpt:
			return true
		case kRule:
			return p[n.rule]
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for nm, a := range r.rules {
			if !p[nm] && ok(a) {
				p[nm] = true
				ch = true
			}
		}
	}
	return p
}

func (r *ref) undefinedFrom(rule string) bool {
	dep := r.depMap()
	for n := range r.reachable(rule) {
		for m := range dep[n] {
			if r.rules[m] == nil {
				return true
			}
		}
	}
	return false
}

// benign: recursion that random expansion leaves with certainty and quickly
var benign = []string{
	`a = "x" / "y" / "z" / "w" a`,
	`a = "x" / "(" a ")" / "y" / "z"`,
	"a = \"x\" / \"y\" / \"z\" b\nb = \"1\" / \"2\" / \"3\" a",
	`a = "x" / "y" / %x61-63 / ["-"] a`,
	"a = DIGIT / ALPHA / \"[\" a \"]\" / %d48-57",
}

func runC08(c *C) {
	var g *abnf.Grammar
	if c.idx < 4*len(benign) {
		g = parseLF(benign[c.idx%len(benign)])
	} else {
		cfg := genCfg(c)
		cfg.acyclic = c.p(80)
		g = c.grammar(cfg)
	}
	r := newRef(g)
	rule := c.ruleOf(g)
	gs := gstr(g)
	c.at(gs+" rule "+rule, "")
	if !r.productive()[lowerASCII(rule)] {
		_, err := g.Generate(int64(c.pick(1000)), rule)
		c.eval(true, gs, rule)
		if err == nil {
			c.fail(gs, "", "Generate(%s) of a rule without finite derivation gave no error", rule)
		}
		return
	}
	if c.idx >= 4*len(benign) && r.cyclicFrom(rule) {
		c.skip("productive recursive rule: termination of random expansion is not claimed")
		return
	}
	for k := 0; k < 6; k++ {
		seed := c.rng.Int63()
		repMax, thr := c.pick(6), c.pick(40)
		opts := []abnf.GenerateOption{abnf.WithRepMax(repMax), abnf.WithThreshold(thr)}
		if c.p(15) && c.idx >= 4*len(benign) {
			repMax = 0
			opts[0] = abnf.WithRepMax(0)
		}
		c.at(gs+" rule "+rule, fmt.Sprintf("seed %d repMax %d threshold %d", seed, repMax, thr))
		out, err := g.Generate(seed, recase(c, rule), opts...)
		if err != nil {
			c.fail(gs, "", "Generate(seed %d, %s) failed: %v", seed, rule, err)
			return
		}
		keep := append([]byte{}, out...)
		c.eval(len(out) > 0, gs, rule, string(out))
		if len(out) <= 60 {
			if !r.table(out).derives(rule) {
				c.fail(gs, q(out), "Generate(seed %d, %s, repMax %d, threshold %d) is not derivable", seed, rule, repMax, thr)
			}
		} else if v, err := g.IsValid(rule, out); err != nil || !v {
			c.fail(gs, q(out), "Generate(seed %d, %s, repMax %d, threshold %d) is rejected by IsValid", seed, rule, repMax, thr)
		}
		out2, err := g.Generate(seed, rule, opts...)
		if err != nil || !bytes.Equal(keep, out2) {
			c.fail(gs, "", "Generate(seed %d, %s) gives %q then %q, %v", seed, rule, keep, out2, err)
		}
	}
}

func parseLF(src string) *abnf.Grammar {
	g, err := abnf.ParseABNF([]byte(crlf(src)), abnf.WithValidation(false))
	if err != nil {
		panic("harness grammar " + src + ": " + err.Error())
	}
	return g
}

func crlf(s string) string {
	return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte("\r\n"))) + "\r\n"
}

func (c *C) tape() []byte {
	n := c.pick(40)
	b := make([]byte, n)
	c.rng.Read(b)
	if c.p(20) {
		for i := range b {
			b[i] = byte(c.pick(2))
		}
	}
	if c.p(5) {
		return nil
	}
	return b
}

func runC09(c *C) {
	cfg := genCfg(c)
	cfg.closed = !c.p(15)
	var g *abnf.Grammar
	if c.idx < len(curatedABNF) {
		g = curatedGrammar(c.idx)
	} else {
		g = c.grammar(cfg)
	}
	r := newRef(g)
	rule := c.ruleOf(g)
	gs := gstr(g)
	c.at(gs+" rule "+rule, "")
	prod := r.productive()
	bad := ""
	for n := range r.reachable(rule) {
		if !prod[n] {
			bad = "reaches the non-productive or undefined rule " + n
		}
	}
	if r.undefinedFrom(rule) {
		bad = "reaches an undefined rule"
	}
	md, ml, mr := 1+c.pick(6), 1+c.pick(24), c.pick(4)
	ag, err := abnf.NewASTGenerator(g, recase(c, rule), abnf.WithMaxDepth(md), abnf.WithMaxLen(ml), abnf.WithMaxRepeat(mr))
	if (bad != "") != (err != nil) {
		c.eval(true, gs, rule)
		c.fail(gs, "", "NewASTGenerator(%s) error %v; the rule %s", rule, err, bad)
		return
	}
	if err != nil {
		c.eval(true, gs, rule)
		return
	}
	for k := 0; k < 6; k++ {
		tape := c.tape()
		keep := append([]byte{}, tape...)
		c.at(gs+" rule "+rule, fmt.Sprintf("tape %x depth %d len %d repeat %d", tape, md, ml, mr))
		out := ag.Generate(tape)
		if !bytes.Equal(tape, keep) {
			c.fail(gs, "", "Generate modified its tape")
		}
		o2 := ag.Generate(tape)
		if !bytes.Equal(out, o2) {
			c.fail(gs, "", "tape %x gives %q then %q", tape, out, o2)
		}
		c.derivable(g, r, rule, gs, out, fmt.Sprintf("ASTGenerator tape %x (depth %d, len %d, repeat %d)", tape, md, ml, mr))
		seed := c.rng.Int63()
		out = ag.GenerateRand(rand.New(rand.NewSource(seed)))
		c.derivable(g, r, rule, gs, out, fmt.Sprintf("ASTGenerator seed %d (depth %d, len %d, repeat %d)", seed, md, ml, mr))
	}
}

func (c *C) derivable(g *abnf.Grammar, r *ref, rule, gs string, out []byte, what string) {
	c.eval(len(out) > 0, gs, rule, string(out))
	if len(out) > 60 {
		c.skip("production longer than 60 bytes checked with IsValid only")
		if len(out) > 300 {
			return
		}
		v, err := g.IsValid(rule, out)
		if err != nil || !v {
			c.fail(gs, q(out), "%s: production of %s rejected by IsValid", what, rule)
		}
		return
	}
	if !r.table(out).derives(rule) {
		c.fail(gs, q(out), "%s: production of %s is not derivable", what, rule)
	}
}

// ---- transition graphs ------------------------------------------------------------

func (c *C) tgOpts() ([]abnf.TGOption, string) {
	a, b := c.p(40), c.p(40)
	return []abnf.TGOption{abnf.WithDeflateRules(true), abnf.WithDeflateCharVals(a), abnf.WithDeflateNumVals(b), abnf.WithMaxNodes(3000)},
		fmt.Sprintf("deflateChars=%v deflateNums=%v", a, b)
}

func (c *C) tgGrammar() (*abnf.Grammar, *ref, string) {
	cfg := genCfg(c)
	cfg.acyclic = true
	cfg.rules = 1 + c.pick(3)
	cfg.core = c.p(30)
	g := c.grammar(cfg)
	return g, newRef(g), c.ruleOf(g)
}

func hasEmptyTerm(r *ref, rule string) bool {
	found := false
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n.kind == kTerm {
			if v, ok := n.term.(abnf.ElemCharVal); ok && len(v.Values) == 0 {
				found = true
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for n := range r.reachable(rule) {
		if a := r.rules[n]; a != nil {
			walk(a)
		}
	}
	return found
}

func (c *C) buildTG(g *abnf.Grammar, gs, rule string) (*abnf.TransitionGraph, string) {
	opts, od := c.tgOpts()
	c.at(gs+" rule "+rule, od)
	tg, err := g.TransitionGraph(recase(c, rule), opts...)
	if err != nil {
		var mx *abnf.ErrMaxNodesExceeded
		if errors.As(err, &mx) {
			c.skip("graph above 3000 nodes")
		} else {
			c.fail(gs, "", "TransitionGraph(%s, %s) failed: %v", rule, od, err)
		}
		return nil, od
	}
	return tg, od
}

func runC10(c *C) {
	g, r, rule := c.tgGrammar()
	gs := gstr(g)
	tg, od := c.buildTG(g, gs, rule)
	if tg == nil {
		return
	}
	ml, mr, ms := c.pick(20), c.pick(5), c.pick(60)
	opts := []abnf.GenOption{abnf.WithMaxLength(ml), abnf.WithMaxReps(mr), abnf.WithMaxSteps(ms)}
	if c.p(40) {
		opts = append(opts, abnf.WithStableAddressing())
	}
	gen, err := abnf.NewGenerator(tg, opts...)
	if err != nil {
		c.fail(gs, "", "NewGenerator(%s, %s) failed: %v", rule, od, err)
		return
	}
	for k := 0; k < 6; k++ {
		tape := c.tape()
		keep := append([]byte{}, tape...)
		c.at(gs+" rule "+rule+" "+od, fmt.Sprintf("tape %x", tape))
		out := gen.Generate(tape)
		o2 := gen.Generate(tape)
		if !bytes.Equal(out, o2) || !bytes.Equal(tape, keep) {
			c.fail(gs, "", "tape %x gives %q then %q", tape, out, o2)
		}
		c.derivable(g, r, rule, gs, out, fmt.Sprintf("Generator(%s) tape %x length %d reps %d steps %d", od, tape, ml, mr, ms))
		seed := c.rng.Int63()
		out = gen.GenerateRand(rand.New(rand.NewSource(seed)))
		c.derivable(g, r, rule, gs, out, fmt.Sprintf("Generator(%s) seed %d", od, seed))
		nm, label, ok := gen.NearMiss(tape)
		if ok {
			c.eval(true, gs, rule, "near", string(nm))
			if len(nm) <= 60 && r.table(nm).derives(rule) {
				c.fail(gs, q(nm), "NearMiss(tape %x) %q is derivable", tape, label)
			}
		}
		nm2, l2, ok2 := gen.NearMiss(tape)
		if !bytes.Equal(nm, nm2) || label != l2 || ok != ok2 {
			c.fail(gs, "", "NearMiss(tape %x) gives %q then %q", tape, nm, nm2)
		}
	}
	// ExpectedNext
	nf := newPrefixer(r, rule)
	for k := 0; k < 6; k++ {
		w, ok := r.sample(c.rng, rule, 30)
		if !ok || len(w) > 24 {
			continue
		}
		if c.p(30) {
			w = c.mutate(w)
		}
		for i := 0; i <= len(w); i++ {
			p := w[:i]
			c.at(gs+" rule "+rule+" "+od, "ExpectedNext "+q(p))
			next, accepts, ok := gen.ExpectedNext(p)
			if !ok {
				if asciiOnly(r, rule) {
					c.fail(gs, q(p), "ExpectedNext(%s) declines a rule with ASCII terminals only", od)
				}
				c.skip("ExpectedNext declined")
				break
			}
			wa := r.table(p).derives(rule)
			viable, follow, exact := nf.follow(p)
			c.eval(viable, gs, rule, "next", string(p))
			if accepts != wa && (wa || exact) {
				c.fail(gs, q(p), "ExpectedNext(%s) accepts = %v, the prefix is a word: %v", od, accepts, wa)
			}
			var have [256]bool
			for _, b := range next {
				have[b] = true
			}
			for b := 0; b < 256; b++ {
				if follow[b] && !have[b] {
					c.fail(gs, q(p), "ExpectedNext(%s) omits octet %02x", od, b)
					break
				}
				if exact && have[b] && !follow[b] {
					c.fail(gs, q(p), "ExpectedNext(%s) lists octet %02x that cannot follow", od, b)
					break
				}
			}
			if !sort.SliceIsSorted(next, func(i, j int) bool { return next[i] < next[j] }) {
				c.fail(gs, q(p), "ExpectedNext(%s) is not sorted", od)
			}
		}
	}
}

// asciiOnly reports whether every terminal the rule reaches stands for ASCII characters.
func asciiOnly(r *ref, rule string) bool {
	ok := true
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n.kind == kTerm {
			switch v := n.term.(type) {
			case abnf.ElemCharVal:
				for _, x := range v.Values {
					ok = ok && x <= 0x7f
				}
			case abnf.ElemNumVal:
				for _, s := range v.Elems {
					b := bigVal(s, v.Base)
					ok = ok && b != nil && b.IsInt64() && b.Int64() <= 0x7f
				}
			default:
				ok = false
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for nm := range r.reachable(rule) {
		if a := r.rules[nm]; a != nil {
			walk(a)
		} else {
			ok = false
		}
	}
	return ok
}

// prefixer answers which octets can follow a prefix, by a recursive matcher over
// the acyclic rule: it runs a set-valued automaton directly on the syntax.
type prefixer struct {
	r     *ref
	rule  string
	exact bool
}

func newPrefixer(r *ref, rule string) *prefixer {
	p := &prefixer{r: r, rule: rule, exact: true}
	var walk func(n *gnode)
	walk = func(n *gnode) {
		if n.kind == kTerm {
			switch v := n.term.(type) {
			case abnf.ElemCharVal:
			case abnf.ElemNumVal:
				if v.Status == abnf.StatRange {
					for _, s := range v.Elems {
						if b := bigVal(s, v.Base); b == nil || !b.IsInt64() || b.Int64() > 0x7f {
							p.exact = false
						}
					}
				}
			}
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for nm := range r.reachable(rule) {
		if a := r.rules[nm]; a != nil {
			walk(a)
		}
	}
	return p
}

// follow: run(n, i) gives the positions reachable by n inside the prefix; when a
// terminal's spelling runs past the end of the prefix its next octet is noted,
// provided what comes after can be completed (always true here: every rule of a
// closed acyclic satisfiable grammar is productive).
func (p *prefixer) follow(pre []byte) (bool, [256]bool, bool) {
	var out [256]bool
	viable := false
	memo := map[[2]int][]int{}
	var run func(n *gnode, i int) []int
	run = func(n *gnode, i int) []int {
		if v, ok := memo[[2]int{n.id, i}]; ok {
			return v
		}
		var res []int
		switch n.kind {
		case kTerm:
			for _, sp := range spellings(n.term, pre[i:]) {
				// sp is a set sequence; compare octet by octet
				j := 0
				for j < len(sp) && i+j < len(pre) && sp[j][pre[i+j]] {
					j++
				}
				if j == len(sp) {
					res = append(res, i+j)
				} else if i+j == len(pre) {
					for b := 0; b < 256; b++ {
						if sp[j][b] {
							out[b] = true
						}
					}
					viable = true
				}
			}
		case kRule:
			if a := p.r.rules[n.rule]; a != nil {
				res = run(a, i)
			}
		case kOpt:
			res = append([]int{i}, run(n.kids[0], i)...)
		case kAlt:
			for _, k := range n.kids {
				res = append(res, run(k, i)...)
			}
		case kCat:
			cur := []int{i}
			for _, k := range n.kids {
				var nx []int
				for _, x := range cur {
					nx = append(nx, run(k, x)...)
				}
				cur = uniqInts(nx)
			}
			res = cur
		case kRep:
			cur := []int{i}
			for k := 0; ; k++ {
				if k >= n.min {
					res = append(res, cur...)
				}
				if len(cur) == 0 || (n.max != infRep && k >= n.max) || k > n.min+len(pre)+1 {
					break
				}
				var nx []int
				for _, x := range cur {
					nx = append(nx, run(n.kids[0], x)...)
				}
				cur = uniqInts(nx)
			}
		}
		res = uniqInts(res)
		memo[[2]int{n.id, i}] = res
		return res
	}
	a := p.r.rules[lowerASCII(p.rule)]
	for _, e := range run(a, 0) {
		if e == len(pre) {
			viable = true
		}
	}
	return viable, out, p.exact
}

// spellings lists, per possible octet length, the octet sets of a terminal that
// is compatible with the beginning of rest (multi-octet ranges are filtered by
// the octets already given, so the sets are exact).
func spellings(e abnf.ElemItf, rest []byte) [][]*[256]bool {
	single := func(bs []byte) []*[256]bool {
		var o []*[256]bool
		for _, b := range bs {
			s := &[256]bool{}
			s[b] = true
			o = append(o, s)
		}
		return o
	}
	switch v := e.(type) {
	case abnf.ElemCharVal:
		var o []*[256]bool
		for _, r := range v.Values {
			if !v.Sensitive && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
				s := &[256]bool{}
				s[r|32] = true
				s[r&^32] = true
				o = append(o, s)
			} else {
				o = append(o, single([]byte(string(r)))...)
			}
		}
		return [][]*[256]bool{o}
	case abnf.ElemNumVal:
		if v.Status == abnf.StatSeries {
			var o []*[256]bool
			for _, s := range v.Elems {
				r, ok := scalar(bigVal(s, v.Base))
				if !ok {
					return nil
				}
				o = append(o, single([]byte(string(r)))...)
			}
			return [][]*[256]bool{o}
		}
		lo, hi := bigVal(v.Elems[0], v.Base), bigVal(v.Elems[1], v.Base)
		if lo == nil || hi == nil || !lo.IsInt64() || lo.Int64() > 0x10FFFF {
			return nil
		}
		h := int64(0x10FFFF)
		if hi.IsInt64() && hi.Int64() < h {
			h = hi.Int64()
		}
		by := map[int][]*[256]bool{}
		for r := lo.Int64(); r <= h; r++ {
			if r >= 0xD800 && r <= 0xDFFF {
				continue
			}
			bs := []byte(string(rune(r)))
			ok := true
			for j := range bs {
				if j < len(rest) && rest[j] != bs[j] {
					// keep only characters agreeing with the given octets
					if j > 0 || rest[j] != bs[j] {
						ok = false
					}
					break
				}
			}
			if !ok {
				continue
			}
			if by[len(bs)] == nil {
				by[len(bs)] = make([]*[256]bool, len(bs))
				for j := range bs {
					by[len(bs)][j] = &[256]bool{}
				}
			}
			for j, b := range bs {
				by[len(bs)][j][b] = true
			}
		}
		var out [][]*[256]bool
		for _, k := range []int{1, 2, 3, 4} {
			if by[k] != nil {
				out = append(out, by[k])
			}
		}
		return out
	}
	return nil
}

// graphAccepts simulates the graph over in; nil nodes stand for the empty path.
func graphAccepts(tg *abnf.TransitionGraph, in []byte) bool {
	end := map[*abnf.Node]bool{}
	for _, e := range tg.Endpoints {
		end[e] = true
	}
	type st struct {
		n *abnf.Node
		i int
	}
	seen := map[st]bool{}
	var work []st
	push := func(n *abnf.Node, i int) {
		if n == nil {
			return
		}
		e := matchTerm(n.Elem, in, i)
		if e < 0 || seen[st{n, e}] {
			return
		}
		seen[st{n, e}] = true
		work = append(work, st{n, e})
	}
	for _, e := range tg.Entrypoints {
		if e == nil && len(in) == 0 && end[nil] {
			return true
		}
		push(e, 0)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.i == len(in) && end[s.n] {
			return true
		}
		for _, m := range s.n.Nexts {
			push(m, s.i)
		}
	}
	return false
}

// a rule that reaches itself has no finite expanded graph: it is refused
func (c *C) recursiveGraph() {
	cfg := genCfg(c)
	cfg.rules = 2 + c.pick(3)
	g := c.grammar(cfg)
	rule := c.ruleOf(g)
	r := newRef(g)
	if !r.cyclicFrom(rule) {
		return
	}
	gs := gstr(g)
	opts, od := c.tgOpts()
	c.at(gs+" rule "+rule, od)
	c.eval(true, gs, rule, "cyclic")
	if _, err := g.TransitionGraph(rule, opts...); err == nil {
		c.fail(gs, "", "TransitionGraph(%s, %s) accepts a rule that reaches a cycle", rule, od)
	}
}

func runC11(c *C) {
	if c.p(10) {
		c.recursiveGraph()
		return
	}
	g, r, rule := c.tgGrammar()
	gs := gstr(g)
	tg, od := c.buildTG(g, gs, rule)
	if tg == nil {
		return
	}
	end := map[*abnf.Node]bool{}
	for _, e := range tg.Endpoints {
		end[e] = true
	}
	// walks only spell words
	for k := 0; k < 8 && len(tg.Entrypoints) > 0; k++ {
		n := tg.Entrypoints[c.pick(len(tg.Entrypoints))]
		var out []byte
		okw := false
		if n == nil {
			okw = end[nil]
		}
		for steps := 0; n != nil && steps < 25; steps++ {
			s, ok := sampleTerm(c.rng, n.Elem)
			if !ok {
				c.fail(gs, "", "graph(%s) node %v cannot be spelled", od, n.Elem)
				return
			}
			out = append(out, s...)
			if end[n] && (len(n.Nexts) == 0 || c.p(35)) {
				okw = true
				break
			}
			if len(n.Nexts) == 0 {
				break
			}
			n = n.Nexts[c.pick(len(n.Nexts))]
		}
		if !okw {
			continue
		}
		c.derivable(g, r, rule, gs, out, "walk of the graph ("+od+")")
	}
	// words are spelled by walks
	for k := 0; k < 8; k++ {
		w, ok := r.sample(c.rng, rule, 30)
		if !ok || len(w) > 40 {
			continue
		}
		if c.p(30) {
			w = c.mutate(w)
		}
		want := r.table(w).derives(rule)
		c.eval(want && len(w) > 0, gs, rule, string(w))
		if got := graphAccepts(tg, w); got != want {
			c.fail(gs, q(w), "graph(%s) spells it: %v, the rule derives it: %v", od, got, want)
		}
	}
	// readers
	for _, mode := range []abnf.CoverageMode{abnf.CoverageAllTrails, abnf.CoverageCompact} {
		if mode == abnf.CoverageCompact && countRange(tg) > 400 {
			c.skip("compact reader over wide ranges")
			continue
		}
		if nn, ne := graphSize(tg); nn > 24 || ne > 60 {
			c.skip("reader over a large graph (its trails are exponentially many)")
			continue
		}
		rd := tg.Reader(abnf.WithCoverageMode(mode))
		c.at(gs+" rule "+rule+" "+od, fmt.Sprintf("reader mode %v", mode))
		n := 0
		for rd.Next() && n < 40 {
			n++
			out := rd.Scan()
			c.derivable(g, r, rule, gs, out, fmt.Sprintf("reader mode %v (%s)", mode, od))
			if len(c.fails) > 0 {
				return
			}
			if mode == abnf.CoverageAllTrails && len(out) <= 12 && !trailSpells(tg, out) {
				c.fail(gs, q(out), "reader mode %v (%s) production is not spelled by a trail using each edge at most once", mode, od)
			}
		}
		if n == 0 && r.productive()[lowerASCII(rule)] {
			c.fail(gs, "", "reader mode %v (%s) yields nothing", mode, od)
		}
		if !rd.Next() {
			if s := rd.Scan(); s != nil {
				c.fail(gs, q(s), "reader mode %v (%s) scans a production after the end", mode, od)
			}
		}
	}
}

func graphSize(tg *abnf.TransitionGraph) (nodes, edges int) {
	seen := map[*abnf.Node]bool{}
	var walk func(n *abnf.Node)
	walk = func(n *abnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		edges += len(n.Nexts)
		for _, m := range n.Nexts {
			walk(m)
		}
	}
	for _, e := range tg.Entrypoints {
		walk(e)
	}
	return len(seen), edges
}

func countRange(tg *abnf.TransitionGraph) int {
	seen := map[*abnf.Node]bool{}
	tot := 0
	var walk func(n *abnf.Node)
	walk = func(n *abnf.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		switch v := n.Elem.(type) {
		case abnf.ElemNumVal:
			if v.Status == abnf.StatRange {
				lo, hi := bigVal(v.Elems[0], v.Base), bigVal(v.Elems[1], v.Base)
				if lo == nil || hi == nil || !hi.IsInt64() {
					tot += 1 << 20
				} else {
					tot += int(hi.Int64() - lo.Int64())
				}
			}
		case abnf.ElemCharVal:
			tot += 1 << min(20, len(v.Values))
		}
		for _, m := range n.Nexts {
			walk(m)
		}
	}
	for _, e := range tg.Entrypoints {
		walk(e)
	}
	return tot
}

// trailSpells: some entry-to-end walk using each edge at most once spells in.
func trailSpells(tg *abnf.TransitionGraph, in []byte) bool {
	end := map[*abnf.Node]bool{}
	for _, e := range tg.Endpoints {
		end[e] = true
	}
	budget := 200000
	used := map[[2]*abnf.Node]bool{}
	var dfs func(n *abnf.Node, i int) bool
	dfs = func(n *abnf.Node, i int) bool {
		if budget--; budget < 0 {
			return true // undecided within the budget
		}
		if n == nil {
			return i == len(in) && end[nil]
		}
		e := matchTerm(n.Elem, in, i)
		if e < 0 {
			return false
		}
		if e == len(in) && end[n] {
			return true
		}
		for _, m := range n.Nexts {
			k := [2]*abnf.Node{n, m}
			if used[k] {
				continue
			}
			used[k] = true
			if dfs(m, e) {
				return true
			}
			used[k] = false
		}
		return false
	}
	for _, e := range tg.Entrypoints {
		if dfs(e, 0) {
			return true
		}
	}
	return false
}
