package main

// Reference semantics of RFC 5234/7405 grammars, written against the exported
// AST only: a least-fixpoint evaluator of the derivation relation, a derivation
// counter and a tree checker. Nothing here shares code with the library.

import (
	"math/big"
	"strings"
	"unicode/utf8"

	abnf "github.com/pandatix/go-abnf"
)

const infRep = -1

// ---- normal form of a grammar -------------------------------------------

type nkind int

const (
	kAlt nkind = iota
	kCat
	kRep
	kRule
	kTerm
	kOpt
)

type gnode struct {
	id       int
	kind     nkind
	kids     []*gnode
	min, max int
	rule     string // lower-case name for kRule
	term     abnf.ElemItf
}

type ref struct {
	g     *abnf.Grammar
	rules map[string]*gnode // lower-case name -> alternation
	names map[string]string // lower-case -> declared name
	nodes []*gnode
}

func lowerASCII(s string) string { return strings.ToLower(s) }

var coreNames = []string{"ALPHA", "BIT", "CHAR", "CR", "CRLF", "CTL", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "LF", "LWSP", "OCTET", "SP", "VCHAR", "WSP"}

// core rules of RFC 5234 Appendix B.1, written independently of the library
func coreAlt(name string) (abnf.Alternation, bool) {
	rng := func(a, b string) abnf.Repetition { return one(num("x", abnf.StatRange, a, b)) }
	val := func(a string) abnf.Repetition { return one(num("x", abnf.StatSeries, a)) }
	rn := func(s string) abnf.Repetition { return one(abnf.ElemRulename{Name: s}) }
	switch strings.ToUpper(name) {
	case "ALPHA":
		return alt(cat(rng("41", "5A")), cat(rng("61", "7A"))), true
	case "BIT":
		return alt(cat(one(str("0"))), cat(one(str("1")))), true
	case "CHAR":
		return alt(cat(rng("01", "7F"))), true
	case "CR":
		return alt(cat(val("0D"))), true
	case "CRLF":
		return alt(cat(rn("CR"), rn("LF"))), true
	case "CTL":
		return alt(cat(rng("00", "1F")), cat(val("7F"))), true
	case "DIGIT":
		return alt(cat(rng("30", "39"))), true
	case "DQUOTE":
		return alt(cat(val("22"))), true
	case "HEXDIG":
		return alt(cat(rn("DIGIT")), cat(one(str("A"))), cat(one(str("B"))), cat(one(str("C"))), cat(one(str("D"))), cat(one(str("E"))), cat(one(str("F")))), true
	case "HTAB":
		return alt(cat(val("09"))), true
	case "LF":
		return alt(cat(val("0A"))), true
	case "LWSP":
		return alt(cat(rp(0, infRep, abnf.ElemGroup{Alternation: alt(cat(rn("WSP")), cat(rn("CRLF"), rn("WSP")))}))), true
	case "OCTET":
		return alt(cat(rng("00", "FF"))), true
	case "SP":
		return alt(cat(val("20"))), true
	case "VCHAR":
		return alt(cat(rng("21", "7E"))), true
	case "WSP":
		return alt(cat(rn("SP")), cat(rn("HTAB"))), true
	}
	return abnf.Alternation{}, false
}

func one(e abnf.ElemItf) abnf.Repetition { return abnf.Repetition{Min: 1, Max: 1, Element: e} }
func rp(min, max int, e abnf.ElemItf) abnf.Repetition {
	return abnf.Repetition{Min: min, Max: max, Element: e}
}
func str(s string) abnf.ElemCharVal       { return abnf.ElemCharVal{Values: []rune(s)} }
func sstr(s string) abnf.ElemCharVal      { return abnf.ElemCharVal{Sensitive: true, Values: []rune(s)} }
func rnm(s string) abnf.ElemRulename      { return abnf.ElemRulename{Name: s} }
func grp(a abnf.Alternation) abnf.ElemItf { return abnf.ElemGroup{Alternation: a} }
func opt(a abnf.Alternation) abnf.ElemItf { return abnf.ElemOption{Alternation: a} }
func num(base string, st abnf.Status, el ...string) abnf.ElemNumVal {
	return abnf.ElemNumVal{Base: base, Status: st, Elems: el}
}
func alt(cs ...abnf.Concatenation) abnf.Alternation { return abnf.Alternation{Concatenations: cs} }
func cat(rs ...abnf.Repetition) abnf.Concatenation  { return abnf.Concatenation{Repetitions: rs} }

func newRef(g *abnf.Grammar) *ref {
	r := &ref{g: g, rules: map[string]*gnode{}, names: map[string]string{}}
	for _, rl := range g.Rulemap {
		r.names[lowerASCII(rl.Name)] = rl.Name
	}
	for _, rl := range g.Rulemap {
		r.rules[lowerASCII(rl.Name)] = r.alt(rl.Alternation)
	}
	for _, c := range coreNames {
		l := lowerASCII(c)
		if _, ok := r.rules[l]; !ok {
			a, _ := coreAlt(c)
			r.rules[l] = r.alt(a)
			r.names[l] = c
		}
	}
	return r
}

func (r *ref) node(k nkind) *gnode {
	n := &gnode{id: len(r.nodes), kind: k}
	r.nodes = append(r.nodes, n)
	return n
}

func (r *ref) alt(a abnf.Alternation) *gnode {
	n := r.node(kAlt)
	for _, c := range a.Concatenations {
		n.kids = append(n.kids, r.cat(c))
	}
	return n
}

func (r *ref) cat(c abnf.Concatenation) *gnode {
	n := r.node(kCat)
	for _, rep := range c.Repetitions {
		m := r.node(kRep)
		m.min, m.max = rep.Min, rep.Max
		m.kids = []*gnode{r.elem(rep.Element)}
		n.kids = append(n.kids, m)
	}
	return n
}

func (r *ref) elem(e abnf.ElemItf) *gnode {
	switch v := e.(type) {
	case abnf.ElemRulename:
		n := r.node(kRule)
		n.rule = lowerASCII(v.Name)
		return n
	case abnf.ElemGroup:
		return r.alt(v.Alternation)
	case abnf.ElemOption:
		n := r.node(kOpt)
		n.kids = []*gnode{r.alt(v.Alternation)}
		return n
	}
	n := r.node(kTerm)
	n.term = e
	return n
}

// ---- terminals -------------------------------------------------------------

// bigVal is the integer a num-val digit string denotes (nil when malformed).
func bigVal(s, base string) *big.Int {
	b := 10
	switch base {
	case "b", "B":
		b = 2
	case "x", "X":
		b = 16
	}
	if s == "" {
		return nil
	}
	for _, c := range s {
		d := 99
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d >= b {
			return nil
		}
	}
	v, ok := new(big.Int).SetString(s, b)
	if !ok {
		return nil
	}
	return v
}

func scalar(v *big.Int) (rune, bool) {
	if v == nil || !v.IsInt64() || v.Int64() > 0x10FFFF || v.Int64() < 0 {
		return 0, false
	}
	r := rune(v.Int64())
	if r >= 0xD800 && r <= 0xDFFF {
		return 0, false
	}
	return r, true
}

func foldEq(a, b rune, sensitive bool) bool {
	if a == b {
		return true
	}
	if sensitive {
		return false
	}
	lo := func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}
	return lo(a) == lo(b)
}

// matchTerm returns the end of the terminal's match at i, or -1.
func matchTerm(e abnf.ElemItf, in []byte, i int) int {
	next := func(p int) (rune, int, bool) {
		if p >= len(in) {
			return 0, 0, false
		}
		r, n := utf8.DecodeRune(in[p:])
		if r == utf8.RuneError && n <= 1 {
			return 0, 0, false
		}
		return r, n, true
	}
	switch v := e.(type) {
	case abnf.ElemCharVal:
		p := i
		for _, want := range v.Values {
			r, n, ok := next(p)
			if !ok || !foldEq(want, r, v.Sensitive) {
				return -1
			}
			p += n
		}
		return p
	case abnf.ElemNumVal:
		if v.Status == abnf.StatRange {
			if len(v.Elems) != 2 {
				return -1
			}
			lo, hi := bigVal(v.Elems[0], v.Base), bigVal(v.Elems[1], v.Base)
			r, n, ok := next(i)
			if !ok || lo == nil || hi == nil {
				return -1
			}
			b := big.NewInt(int64(r))
			if lo.Cmp(b) <= 0 && b.Cmp(hi) <= 0 {
				return i + n
			}
			return -1
		}
		p := i
		for _, s := range v.Elems {
			want, ok := scalar(bigVal(s, v.Base))
			if !ok {
				return -1
			}
			r, n, ok2 := next(p)
			if !ok2 || r != want {
				return -1
			}
			p += n
		}
		return p
	}
	return -1
}

// ---- derivation relation ---------------------------------------------------

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+64)/64) }
func (b bitset) has(i int) bool { return b[i/64]>>(uint(i)%64)&1 == 1 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (uint(i) % 64) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}
func (b bitset) eq(o bitset) bool {
	for i := range b {
		if b[i] != o[i] {
			return false
		}
	}
	return true
}
func (b bitset) clone() bitset { return append(bitset(nil), b...) }

type table struct {
	r    *ref
	in   []byte
	ends map[string][]bitset // rule -> start -> set of ends
	memo [][]bitset          // node id -> start -> ends (after the fixpoint)
}

func (r *ref) table(in []byte) *table {
	t := &table{r: r, in: in, ends: map[string][]bitset{}}
	n := len(in)
	used := r.reachableRules()
	for nm := range used {
		row := make([]bitset, n+1)
		for i := range row {
			row[i] = newBits(n + 1)
		}
		t.ends[nm] = row
	}
	for changed := true; changed; {
		changed = false
		for nm := range used {
			a := r.rules[nm]
			if a == nil {
				continue
			}
			for i := n; i >= 0; i-- {
				if t.ends[nm][i].or(t.reach(a, i)) {
					changed = true
				}
			}
		}
	}
	return t
}

// reachableRules is every rule name occurring in the grammar's own rules
// (transitively through core rules).
func (r *ref) reachableRules() map[string]bool {
	out := map[string]bool{}
	var walk func(n *gnode)
	var add func(nm string)
	add = func(nm string) {
		if out[nm] {
			return
		}
		out[nm] = true
		if a := r.rules[nm]; a != nil {
			walk(a)
		}
	}
	walk = func(n *gnode) {
		if n.kind == kRule {
			add(n.rule)
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, rl := range r.g.Rulemap {
		add(lowerASCII(rl.Name))
	}
	return out
}

func (t *table) need(nm string) {
	if _, ok := t.ends[nm]; ok {
		return
	}
	// a core rule used as start
	sub := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	for k, v := range t.r.g.Rulemap {
		sub.Rulemap[k] = v
	}
	a, ok := coreAlt(nm)
	if !ok {
		t.ends[nm] = nil
		return
	}
	sub.Rulemap["__"+nm] = &abnf.Rule{Name: nm, Alternation: a}
	nt := newRef(sub).table(t.in)
	t.ends[nm] = nt.ends[nm]
}

func (t *table) step(n *gnode, from bitset) bitset {
	out := newBits(len(t.in) + 1)
	for i := 0; i <= len(t.in); i++ {
		if from.has(i) {
			out.or(t.reach(n, i))
		}
	}
	return out
}

// reach gives the ends of n from i under the current table.
func (t *table) reach(n *gnode, i int) bitset {
	L := len(t.in)
	out := newBits(L + 1)
	switch n.kind {
	case kTerm:
		if e := matchTerm(n.term, t.in, i); e >= 0 {
			out.set(e)
		}
	case kRule:
		if row, ok := t.ends[n.rule]; ok && row != nil {
			out.or(row[i])
		}
	case kOpt:
		out.set(i)
		out.or(t.reach(n.kids[0], i))
	case kAlt:
		for _, k := range n.kids {
			out.or(t.reach(k, i))
		}
	case kCat:
		out.set(i)
		for _, k := range n.kids {
			out = t.step(k, out)
		}
	case kRep:
		cur := newBits(L + 1)
		cur.set(i)
		// union of the count-k end sets for k in [min,max]; the sequence of sets
		// is eventually periodic, so a revisited set ends the enumeration
		var seen []bitset
		for k := 0; n.max == infRep || k <= n.max; k++ {
			if k >= n.min {
				out.or(cur)
			}
			for j, s := range seen {
				if s.eq(cur) {
					// period k-j from index j on
					per := k - j
					for q := j; q < k; q++ {
						// counts q + m*per for m>=0: does one lie in [min,max]?
						c := q
						if c < n.min {
							c += (n.min - c + per - 1) / per * per
						}
						if n.max == infRep || c <= n.max {
							out.or(seen[q])
						}
					}
					return out
				}
			}
			seen = append(seen, cur)
			cur = t.step(n.kids[0], cur)
		}
	}
	return out
}

func (t *table) derives(rule string) bool {
	nm := lowerASCII(rule)
	t.need(nm)
	row := t.ends[nm]
	if row == nil {
		return false
	}
	return row[0].has(len(t.in))
}

// ---- counting derivations -----------------------------------------------------

type dkey struct {
	id, pos, k, i, j int
}

type counter struct {
	t     *table
	packs map[dkey][][]dkey
	order []dkey
	node  map[int]*gnode
	big   bool
}

// countTrees returns the number of derivations of the whole input from rule;
// -1 for infinitely many, nil when the state space is too large to count.
func (t *table) countTrees(rule string, limit int) *big.Int {
	c := &counter{t: t, packs: map[dkey][][]dkey{}}
	a := t.r.rules[lowerASCII(rule)]
	if a == nil {
		return big.NewInt(0)
	}
	root := dkey{a.id, 0, 0, 0, len(t.in)}
	work := []dkey{root}
	c.packs[root] = nil
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		ps := c.expand(k)
		c.packs[k] = ps
		for _, p := range ps {
			for _, ch := range p {
				if _, ok := c.packs[ch]; !ok {
					c.packs[ch] = nil
					work = append(work, ch)
				}
			}
		}
		if len(c.packs) > limit {
			return nil
		}
	}
	// productive nodes
	prod := map[dkey]bool{}
	for ch := true; ch; {
		ch = false
		for k, ps := range c.packs {
			if prod[k] {
				continue
			}
			for _, p := range ps {
				ok := true
				for _, x := range p {
					if !prod[x] {
						ok = false
						break
					}
				}
				if ok {
					prod[k] = true
					ch = true
					break
				}
			}
		}
	}
	if !prod[root] {
		return big.NewInt(0)
	}
	memo := map[dkey]*big.Int{}
	on := map[dkey]bool{}
	infinite := false
	var count func(k dkey) *big.Int
	count = func(k dkey) *big.Int {
		if v, ok := memo[k]; ok {
			return v
		}
		if on[k] {
			infinite = true
			return big.NewInt(1)
		}
		on[k] = true
		tot := big.NewInt(0)
	pk:
		for _, p := range c.packs[k] {
			for _, x := range p {
				if !prod[x] {
					continue pk
				}
			}
			m := big.NewInt(1)
			for _, x := range p {
				m.Mul(m, count(x))
			}
			tot.Add(tot, m)
		}
		delete(on, k)
		memo[k] = tot
		return tot
	}
	v := count(root)
	if infinite {
		return big.NewInt(-1)
	}
	return v
}

func (c *counter) expand(k dkey) [][]dkey {
	n := c.t.r.nodes[k.id]
	switch n.kind {
	case kAlt:
		var out [][]dkey
		for _, x := range n.kids {
			out = append(out, []dkey{{x.id, 0, 0, k.i, k.j}})
		}
		return out
	case kOpt:
		out := [][]dkey{{{n.kids[0].id, 0, 0, k.i, k.j}}}
		if k.i == k.j {
			out = append(out, []dkey{})
		}
		return out
	case kRule:
		a := c.t.r.rules[n.rule]
		if a == nil {
			return nil
		}
		return [][]dkey{{{a.id, 0, 0, k.i, k.j}}}
	case kTerm:
		if matchTerm(n.term, c.t.in, k.i) == k.j {
			return [][]dkey{{}}
		}
		return nil
	case kCat:
		if k.pos == len(n.kids) {
			if k.i == k.j {
				return [][]dkey{{}}
			}
			return nil
		}
		var out [][]dkey
		e := c.t.reach(n.kids[k.pos], k.i)
		for m := k.i; m <= k.j; m++ {
			if e.has(m) {
				out = append(out, []dkey{{n.kids[k.pos].id, 0, 0, k.i, m}, {k.id, k.pos + 1, 0, m, k.j}})
			}
		}
		return out
	case kRep:
		var out [][]dkey
		if k.k >= n.min && k.i == k.j {
			out = append(out, []dkey{})
		}
		if n.max == infRep || k.k < n.max {
			nk := k.k + 1
			if n.max == infRep && nk > n.min {
				nk = n.min
			}
			e := c.t.reach(n.kids[0], k.i)
			for m := k.i; m <= k.j; m++ {
				if e.has(m) {
					out = append(out, []dkey{{n.kids[0].id, 0, 0, k.i, m}, {k.id, 0, nk, m, k.j}})
				}
			}
		}
		return out
	}
	return nil
}

// ---- trees --------------------------------------------------------------------

// checkTree verifies that a tree is (the rule/leaf skeleton of) a derivation.
func (t *table) checkTree(tr *abnf.ParseTree, rule string, start, end int) string {
	if tr == nil {
		return "nil tree"
	}
	if !strings.EqualFold(tr.Rule, rule) {
		return "root rule " + tr.Rule + " instead of " + rule
	}
	if tr.Start != start || tr.End != end {
		return "root span"
	}
	return t.checkRuleNode(tr, 0)
}

func (t *table) checkRuleNode(tr *abnf.ParseTree, depth int) string {
	if depth > 200 {
		return "tree too deep"
	}
	pos := tr.Start
	for _, ch := range tr.Children {
		if ch.Start != pos || ch.End < ch.Start {
			return "children of " + tr.Rule + " are not adjacent"
		}
		pos = ch.End
	}
	if pos != tr.End {
		return "children of " + tr.Rule + " do not cover it"
	}
	a := t.r.rules[lowerASCII(tr.Rule)]
	if a == nil {
		return "node of unknown rule " + tr.Rule
	}
	m := &treeMatch{t: t, kids: tr.Children, at: tr.Start}
	ok := false
	for _, e := range m.run(a, 0) {
		if e == len(tr.Children) {
			ok = true
		}
	}
	if !ok {
		return "children of " + tr.Rule + " are not an expansion of the rule"
	}
	for _, ch := range tr.Children {
		if ch.Rule != "" {
			if s := t.checkRuleNode(ch, depth+1); s != "" {
				return s
			}
		} else if len(ch.Children) > 0 {
			return "leaf with children"
		}
	}
	return ""
}

type treeMatch struct {
	t    *table
	kids []*abnf.ParseTree
	at   int
}

func (m *treeMatch) off(p int) int {
	if p == 0 {
		return m.at
	}
	return m.kids[p-1].End
}

func uniqInts(a []int) []int {
	var out []int
	seen := map[int]bool{}
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// run returns the child positions reachable by matching n from child p.
func (m *treeMatch) run(n *gnode, p int) []int {
	switch n.kind {
	case kTerm:
		var out []int
		e := matchTerm(n.term, m.t.in, m.off(p))
		if e < 0 {
			return nil
		}
		if e == m.off(p) { // an empty match may leave no leaf
			out = append(out, p)
		}
		if p < len(m.kids) && m.kids[p].Rule == "" && m.kids[p].End == e {
			out = append(out, p+1)
		}
		return out
	case kRule:
		if p < len(m.kids) && m.kids[p].Rule != "" && lowerASCII(m.kids[p].Rule) == n.rule {
			return []int{p + 1}
		}
		return nil
	case kOpt:
		return uniqInts(append([]int{p}, m.run(n.kids[0], p)...))
	case kAlt:
		var out []int
		for _, k := range n.kids {
			out = append(out, m.run(k, p)...)
		}
		return uniqInts(out)
	case kCat:
		cur := []int{p}
		for _, k := range n.kids {
			var nx []int
			for _, q := range cur {
				nx = append(nx, m.run(k, q)...)
			}
			cur = uniqInts(nx)
		}
		return cur
	case kRep:
		var out []int
		cur := []int{p}
		for k := 0; n.max == infRep || k <= n.max; k++ {
			if k >= n.min {
				out = append(out, cur...)
			}
			if len(cur) == 0 || k > n.min+len(m.kids)+2 {
				break
			}
			var nx []int
			for _, q := range cur {
				nx = append(nx, m.run(n.kids[0], q)...)
			}
			cur = uniqInts(nx)
		}
		return uniqInts(out)
	}
	return nil
}

// ---- left-to-right exploration (diagnostics) -------------------------------

type attempt struct {
	term string
	pos  int
}

// attempts returns every (terminal, position) a top-down left-to-right parse
// tries and fails.
func (t *table) failedAttempts(rule string) map[attempt]bool {
	out := map[attempt]bool{}
	seen := map[[2]int]bool{}
	var call func(n *gnode, i int)
	call = func(n *gnode, i int) {
		key := [2]int{n.id, i}
		if seen[key] {
			return
		}
		seen[key] = true
		switch n.kind {
		case kTerm:
			if matchTerm(n.term, t.in, i) < 0 {
				out[attempt{n.term.String(), i}] = true
			}
		case kRule:
			if a := t.r.rules[n.rule]; a != nil {
				call(a, i)
			}
		case kOpt:
			call(n.kids[0], i)
		case kAlt:
			for _, k := range n.kids {
				call(k, i)
			}
		case kCat:
			cur := newBits(len(t.in) + 1)
			cur.set(i)
			for _, k := range n.kids {
				for p := 0; p <= len(t.in); p++ {
					if cur.has(p) {
						call(k, p)
					}
				}
				cur = t.step(k, cur)
			}
		case kRep:
			cur := newBits(len(t.in) + 1)
			cur.set(i)
			var hist []bitset
			for k := 0; n.max == infRep || k < n.max; k++ {
				for _, s := range hist {
					if s.eq(cur) {
						return
					}
				}
				hist = append(hist, cur)
				for p := 0; p <= len(t.in); p++ {
					if cur.has(p) {
						call(n.kids[0], p)
					}
				}
				cur = t.step(n.kids[0], cur)
			}
		}
	}
	if a := t.r.rules[lowerASCII(rule)]; a != nil {
		call(a, 0)
	}
	return out
}

// ---- grammar-level facts ---------------------------------------------------------

// refs lists the lower-case rule names an alternation mentions.
func refNames(a abnf.Alternation, into map[string]bool) {
	for _, c := range a.Concatenations {
		for _, rep := range c.Repetitions {
			switch v := rep.Element.(type) {
			case abnf.ElemRulename:
				into[lowerASCII(v.Name)] = true
			case abnf.ElemGroup:
				refNames(v.Alternation, into)
			case abnf.ElemOption:
				refNames(v.Alternation, into)
			}
		}
	}
}

func (r *ref) depMap() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for nm := range r.rules {
		out[nm] = map[string]bool{}
	}
	for _, c := range coreNames {
		a, _ := coreAlt(c)
		refNames(a, out[lowerASCII(c)])
	}
	for _, rl := range r.g.Rulemap {
		m := map[string]bool{}
		refNames(rl.Alternation, m)
		out[lowerASCII(rl.Name)] = m
	}
	return out
}

// reachFrom: rules reachable in >= 1 references.
func reachFrom(dep map[string]map[string]bool, s string) map[string]bool {
	out := map[string]bool{}
	var walk func(x string)
	walk = func(x string) {
		for y := range dep[x] {
			if !out[y] {
				out[y] = true
				walk(y)
			}
		}
	}
	walk(s)
	return out
}
