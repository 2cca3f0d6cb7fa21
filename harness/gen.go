package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	abnf "github.com/pandatix/go-abnf"
)

// ---- independent printer -----------------------------------------------------

// dumpGrammar renders a grammar for reports, with rules sorted by name. It is
// written against the AST so it is usable where the library's printer is not.
func dumpGrammar(g *abnf.Grammar) string {
	var ks []string
	for k := range g.Rulemap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		r := g.Rulemap[k]
		sb.WriteString(r.Name + " = " + dumpAlt(r.Alternation) + "\r\n")
	}
	return sb.String()
}

func dumpAlt(a abnf.Alternation) string {
	var cs []string
	for _, c := range a.Concatenations {
		var rs []string
		for _, r := range c.Repetitions {
			rs = append(rs, dumpRep(r))
		}
		cs = append(cs, strings.Join(rs, " "))
	}
	return strings.Join(cs, " / ")
}

func dumpRep(r abnf.Repetition) string {
	e := dumpElem(r.Element)
	switch {
	case r.Min == 1 && r.Max == 1:
		return e
	case r.Min == r.Max:
		return fmt.Sprintf("%d%s", r.Min, e)
	}
	s := ""
	if r.Min != 0 {
		s = fmt.Sprint(r.Min)
	}
	s += "*"
	if r.Max != infRep {
		s += fmt.Sprint(r.Max)
	}
	return s + e
}

func dumpElem(e abnf.ElemItf) string {
	switch v := e.(type) {
	case abnf.ElemRulename:
		return v.Name
	case abnf.ElemGroup:
		return "(" + dumpAlt(v.Alternation) + ")"
	case abnf.ElemOption:
		return "[" + dumpAlt(v.Alternation) + "]"
	case abnf.ElemCharVal:
		if v.Sensitive {
			return "%s\"" + string(v.Values) + "\""
		}
		return "\"" + string(v.Values) + "\""
	case abnf.ElemNumVal:
		sep := "."
		if v.Status == abnf.StatRange {
			sep = "-"
		}
		return "%" + v.Base + strings.Join(v.Elems, sep)
	case abnf.ElemProseVal:
		return v.String()
	}
	return fmt.Sprintf("?%T", e)
}

// ---- random grammars -----------------------------------------------------------

type gcfg struct {
	rules     int
	depth     int
	acyclic   bool
	closed    bool // no undefined references
	prose     bool
	sat       bool // satisfiable terminals only
	core      bool
	multibyte bool
	empties   bool // "" terminals
	maxRep    int  // largest bound
	alts      int
	cats      int
	bigNum    bool
	asciiOnly bool
	noStar    bool
	incoh     bool // allow min>max
}

func defaultCfg(c *C) gcfg {
	return gcfg{rules: 1 + c.pick(4), depth: 2, core: true, multibyte: c.p(30), empties: true, maxRep: 3, alts: 3, cats: 3, sat: true, closed: true}
}

type ggen struct {
	c   *C
	cfg gcfg
	nm  []string
}

var caseNames = []string{"r", "R", "x-Y", "Foo"}

func ruleNames(c *C, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		b := "r"
		if c.p(15) {
			b = pickOf(c, caseNames)
		}
		out = append(out, fmt.Sprintf("%s%d", b, i))
	}
	return out
}

func recase(c *C, s string) string {
	switch c.pick(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if c.p(50) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func (c *C) grammar(cfg gcfg) *abnf.Grammar {
	gg := &ggen{c: c, cfg: cfg, nm: ruleNames(c, cfg.rules)}
	g := &abnf.Grammar{Rulemap: map[string]*abnf.Rule{}}
	for i, n := range gg.nm {
		g.Rulemap[n] = &abnf.Rule{Name: n, Alternation: gg.alt(i, cfg.depth)}
	}
	return g
}

func (gg *ggen) n(max int) int {
	// geometric-ish
	k := 1
	for k < max && gg.c.p(45) {
		k++
	}
	return k
}

func (gg *ggen) alt(rule, depth int) abnf.Alternation {
	var cs []abnf.Concatenation
	for i := gg.n(gg.cfg.alts); i > 0; i-- {
		cs = append(cs, gg.cat(rule, depth))
	}
	return abnf.Alternation{Concatenations: cs}
}

func (gg *ggen) cat(rule, depth int) abnf.Concatenation {
	var rs []abnf.Repetition
	for i := gg.n(gg.cfg.cats); i > 0; i-- {
		rs = append(rs, gg.rep(rule, depth))
	}
	return abnf.Concatenation{Repetitions: rs}
}

func (gg *ggen) rep(rule, depth int) abnf.Repetition {
	e := gg.elem(rule, depth)
	c := gg.c
	if c.p(62) {
		return one(e)
	}
	m := gg.cfg.maxRep
	switch c.pick(7) {
	case 0:
		if gg.cfg.noStar {
			return rp(0, m, e)
		}
		return rp(0, infRep, e)
	case 1:
		if gg.cfg.noStar {
			return rp(1, m, e)
		}
		return rp(1, infRep, e)
	case 2:
		k := c.pick(m + 1)
		return rp(k, k, e)
	case 3:
		a := c.pick(m + 1)
		b := a + c.pick(m+1-a)
		return rp(a, b, e)
	case 4:
		if gg.cfg.noStar {
			return rp(0, 1, e)
		}
		return rp(c.pick(m+1), infRep, e)
	case 5:
		return rp(0, c.pick(m+1), e)
	}
	if gg.cfg.incoh && c.p(30) {
		return rp(1+c.pick(3), c.pick(2), e)
	}
	return rp(1, 1+c.pick(m), e)
}

func (gg *ggen) elem(rule, depth int) abnf.ElemItf {
	c := gg.c
	switch k := c.pick(100); {
	case k < 22: // reference
		if gg.cfg.acyclic {
			if rule+1 < len(gg.nm) {
				return rnm(recase(c, gg.nm[rule+1+c.pick(len(gg.nm)-rule-1)]))
			}
		} else {
			return rnm(recase(c, pickOf(c, gg.nm)))
		}
	case k < 34 && depth > 0:
		return grp(gg.alt(rule, depth-1))
	case k < 42 && depth > 0:
		return opt(gg.alt(rule, depth-1))
	case k < 45 && gg.cfg.core:
		return rnm(recase(c, pickOf(c, []string{"ALPHA", "BIT", "DIGIT", "WSP", "HEXDIG", "CRLF", "VCHAR", "CHAR", "OCTET", "LWSP", "DQUOTE", "CTL", "SP", "HTAB", "CR", "LF"})))
	case k < 47 && !gg.cfg.closed:
		return rnm("nowhere")
	case k < 49 && gg.cfg.prose:
		return abnf.ElemProseVal{}
	}
	return gg.term()
}

func (gg *ggen) term() abnf.ElemItf {
	c := gg.c
	cfg := gg.cfg
	if cfg.multibyte && c.p(25) {
		switch c.pick(8) {
		case 0:
			return str("é")
		case 1:
			return num("x", abnf.StatSeries, "E9")
		case 2:
			return num("x", abnf.StatRange, "61", "E9")
		case 3:
			return num("x", abnf.StatSeries, "3042", "61")
		case 4:
			return num("d", abnf.StatRange, "128", "2047")
		case 5:
			return num("x", abnf.StatRange, "FFF0", "10010")
		case 6:
			return sstr("aÉ")
		default:
			return num("x", abnf.StatSeries, "1F600")
		}
	}
	if !cfg.sat && c.p(10) {
		switch c.pick(6) {
		case 0:
			return num("x", abnf.StatSeries, "D800")
		case 1:
			return num("x", abnf.StatSeries, "110000")
		case 2:
			return num("x", abnf.StatRange, "62", "61")
		case 3:
			return num("d", abnf.StatSeries, "99999999999999999999999")
		case 4:
			return num("x", abnf.StatRange, "100000061", "100000062")
		default:
			return num("x", abnf.StatRange, "61", "FFFFFFFFFFFFFFFFFF")
		}
	}
	if c.p(12) {
		return gg.rich()
	}
	switch k := c.pick(30); {
	case k < 8:
		return str("a")
	case k < 14:
		return str("b")
	case k < 16:
		return str("ab")
	case k < 17:
		return str("aa")
	case k < 18:
		return str("ba")
	case k < 19:
		return sstr("a")
	case k < 20:
		return sstr("A")
	case k < 21:
		return sstr("aB")
	case k < 22:
		if cfg.empties {
			return str("")
		}
		return str("abc")
	case k < 23:
		return num("x", abnf.StatSeries, "61")
	case k < 24:
		return num("d", abnf.StatSeries, "97", "98")
	case k < 25:
		return num("b", abnf.StatSeries, "1100010")
	case k < 26:
		return num("x", abnf.StatRange, "61", "62")
	case k < 27:
		return num("d", abnf.StatRange, "65", "98")
	case k < 28:
		return num("x", abnf.StatRange, "0061", "0062")
	case k < 29:
		return num("b", abnf.StatRange, "1100001", "1100011")
	}
	return str("AB")
}

// richChars weights the characters at the edges of the letter blocks: folding
// and range arithmetic go wrong there first.
const richChars = "@AZ[`az{09/:~ !#mMnN_^"

// rich draws a terminal from the whole printable range rather than from the
// small alphabet that makes grammars ambiguous.
func (gg *ggen) rich() abnf.ElemItf {
	c := gg.c
	ch := func() rune {
		if c.p(70) {
			return rune(richChars[c.pick(len(richChars))])
		}
		for {
			if r := rune(0x20 + c.pick(0x5f)); r != '"' {
				return r
			}
		}
	}
	bases := []struct {
		n string
		f string
	}{{"x", "%x"}, {"x", "%X"}, {"x", "%04x"}, {"x", "%02X"}, {"d", "%d"}, {"d", "%03d"}, {"b", "%b"}, {"b", "%010b"}, {"X", "%x"}, {"D", "%d"}, {"B", "%b"}}
	b := pickOf(c, bases)
	switch c.pick(4) {
	case 0, 1:
		var rs []rune
		for i := 1 + c.pick(3); i > 0; i-- {
			rs = append(rs, ch())
		}
		if c.p(35) {
			return sstr(string(rs))
		}
		return str(string(rs))
	case 2:
		var es []string
		for i := 1 + c.pick(3); i > 0; i-- {
			es = append(es, fmt.Sprintf(b.f, ch()))
		}
		return num(b.n, abnf.StatSeries, es...)
	}
	lo, hi := ch(), ch()
	if lo > hi {
		lo, hi = hi, lo
	}
	return num(b.n, abnf.StatRange, fmt.Sprintf(b.f, lo), fmt.Sprintf(b.f, hi))
}

// ---- inputs ------------------------------------------------------------------------

// sample draws a random derivation of rule; ok is false when the depth limit hits.
func (r *ref) sample(rng *rand.Rand, rule string, depth int) (out []byte, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if e == errDeep {
				out, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	a := r.rules[lowerASCII(rule)]
	if a == nil {
		return nil, false
	}
	var buf []byte
	if !r.sampleNode(rng, a, depth, &buf) {
		return nil, false
	}
	return buf, true
}

var errDeep = fmt.Errorf("deep")

func (r *ref) sampleNode(rng *rand.Rand, n *gnode, depth int, out *[]byte) bool {
	if depth < 0 || len(*out) > 64 {
		panic(errDeep)
	}
	switch n.kind {
	case kAlt:
		if len(n.kids) == 0 {
			return false
		}
		return r.sampleNode(rng, n.kids[rng.Intn(len(n.kids))], depth-1, out)
	case kCat:
		for _, k := range n.kids {
			if !r.sampleNode(rng, k, depth-1, out) {
				return false
			}
		}
		return true
	case kRep:
		hi := n.max
		if hi == infRep || hi > n.min+2 {
			hi = n.min + 2
		}
		if hi < n.min {
			return false
		}
		k := n.min + rng.Intn(hi-n.min+1)
		if k > 40 {
			panic(errDeep)
		}
		for i := 0; i < k; i++ {
			if !r.sampleNode(rng, n.kids[0], depth-1, out) {
				return false
			}
		}
		return true
	case kOpt:
		if rng.Intn(2) == 0 {
			return true
		}
		return r.sampleNode(rng, n.kids[0], depth-1, out)
	case kRule:
		a := r.rules[n.rule]
		if a == nil {
			return false
		}
		return r.sampleNode(rng, a, depth-1, out)
	case kTerm:
		s, ok := sampleTerm(rng, n.term)
		*out = append(*out, s...)
		return ok
	}
	return false
}

func sampleTerm(rng *rand.Rand, e abnf.ElemItf) (string, bool) {
	switch v := e.(type) {
	case abnf.ElemCharVal:
		var sb strings.Builder
		for _, r := range v.Values {
			if !v.Sensitive && rng.Intn(2) == 0 {
				if r >= 'a' && r <= 'z' {
					r -= 32
				} else if r >= 'A' && r <= 'Z' {
					r += 32
				}
			}
			sb.WriteRune(r)
		}
		return sb.String(), true
	case abnf.ElemNumVal:
		if v.Status == abnf.StatRange {
			lo, hi := bigVal(v.Elems[0], v.Base), bigVal(v.Elems[1], v.Base)
			if lo == nil || hi == nil || !lo.IsInt64() || lo.Int64() > 0x10FFFF {
				return "", false
			}
			l := lo.Int64()
			h := int64(0x10FFFF)
			if hi.IsInt64() && hi.Int64() < h {
				h = hi.Int64()
			}
			for try := 0; try < 10 && h >= l; try++ {
				var r int64
				switch rng.Intn(4) {
				case 0:
					r = l
				case 1:
					r = h
				default:
					r = l + rng.Int63n(h-l+1)
				}
				if r >= 0xD800 && r <= 0xDFFF {
					continue
				}
				return string(rune(r)), true
			}
			return "", false
		}
		var sb strings.Builder
		for _, s := range v.Elems {
			r, ok := scalar(bigVal(s, v.Base))
			if !ok {
				return "", false
			}
			sb.WriteRune(r)
		}
		return sb.String(), true
	}
	return "", false
}

var smallStrings = func() [][]byte {
	out := [][]byte{{}}
	prev := out
	for l := 1; l <= 4; l++ {
		var nx [][]byte
		for _, p := range prev {
			for _, ch := range []byte("ab") {
				nx = append(nx, append(append([]byte{}, p...), ch))
			}
		}
		out = append(out, nx...)
		prev = nx
	}
	return out
}()

var alphabet = []byte("aAbBcC01 \t\r\n\"!\xff\x80\xc3\xa9\xed\xa0@[`{Zz_^")

func (c *C) mutate(b []byte) []byte {
	o := append([]byte{}, b...)
	switch c.pick(6) {
	case 5:
		if len(o) > 0 {
			i := c.pick(len(o))
			switch c.pick(3) {
			case 0:
				o[i]++
			case 1:
				o[i]--
			default:
				o[i] ^= 0x20
			}
		}
	case 0:
		if len(o) > 0 {
			i := c.pick(len(o))
			o[i] = pickOf(c, alphabet)
		}
	case 1:
		if len(o) > 0 {
			i := c.pick(len(o))
			o = append(o[:i], o[i+1:]...)
		}
	case 2:
		i := c.pick(len(o) + 1)
		o = append(o[:i], append([]byte{pickOf(c, alphabet)}, o[i:]...)...)
	case 3:
		if len(o) > 0 {
			o = o[:c.pick(len(o))]
		}
	case 4:
		for i := range o {
			if c.p(50) {
				if o[i] >= 'a' && o[i] <= 'z' {
					o[i] -= 32
				} else if o[i] >= 'A' && o[i] <= 'Z' {
					o[i] += 32
				}
			}
		}
	}
	return o
}

// inputs gives the byte strings a grammar is probed with.
// wideGrammar counts an element between bounds further apart, or larger, than the random
// grammars use.
func (c *C) wideGrammar() *abnf.Grammar {
	elems := []abnf.ElemItf{sstr("a"), grp(alt(cat(one(sstr("a"))), cat(one(sstr("ab"))))), grp(alt(cat(one(opt(alt(cat(one(sstr("a")))))), one(sstr("b"))))), num("x", abnf.StatRange, "61", "62"), opt(alt(cat(one(sstr("a")))))}
	lo := c.pick(6)
	hi := lo + 4 + c.pick(14)
	if c.p(20) {
		lo = hi
	}
	top := []abnf.Repetition{rp(lo, hi, pickOf(c, elems))}
	if c.p(50) {
		top = append(top, one(sstr("b")))
	}
	if c.p(30) {
		top = []abnf.Repetition{one(grp(alt(cat(top...), cat(one(sstr("a"))))))}
	}
	return &abnf.Grammar{Rulemap: map[string]*abnf.Rule{"a": {Name: "a", Alternation: alt(cat(top...))}}}
}

// wideBounds finds the bounds of such a repetition.
func wideBounds(g *abnf.Grammar) (lo, hi int) {
	var walk func(a abnf.Alternation)
	walk = func(a abnf.Alternation) {
		for _, k := range a.Concatenations {
			for _, rep := range k.Repetitions {
				if rep.Max != infRep && rep.Max > 3 && rep.Max < 40 {
					lo, hi = rep.Min, rep.Max
				}
				switch e := rep.Element.(type) {
				case abnf.ElemGroup:
					walk(e.Alternation)
				case abnf.ElemOption:
					walk(e.Alternation)
				}
			}
		}
	}
	if len(g.Rulemap) == 1 {
		for _, x := range g.Rulemap {
			walk(x.Alternation)
		}
	}
	return lo, hi
}

func (c *C) inputs(r *ref, rule string, maxLen, extra int) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	add := func(b []byte) {
		if len(b) <= maxLen && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	for _, s := range smallStrings {
		if len(s) <= 2 || c.p(25) {
			add(s)
		}
	}
	if lo, hi := wideBounds(r.g); hi > 0 {
		maxLen = 80
		for _, n := range []int{lo - 1, lo, hi - 1, hi, hi + 1} {
			for _, u := range []string{"a", "ab", "b"} {
				if n >= 0 {
					w := strings.Repeat(u, n)
					add([]byte(w))
					add([]byte(w + "b"))
				}
			}
		}
	}
	for i := 0; i < extra; i++ {
		if s, ok := r.sample(c.rng, rule, 24); ok {
			add(s)
			if c.p(60) {
				add(c.mutate(s))
			}
		}
	}
	return out
}

func (c *C) ruleOf(g *abnf.Grammar) string {
	var ks []string
	for k := range g.Rulemap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return g.Rulemap[pickOf(c, ks)].Name
}

func sortedRules(g *abnf.Grammar) []string {
	var ks []string
	for _, r := range g.Rulemap {
		ks = append(ks, r.Name)
	}
	sort.Strings(ks)
	return ks
}

// smallRep wraps an element in one of the small repetitions, the empty one included.
func (c *C) smallRep(e abnf.ElemItf) abnf.Repetition {
	lo := c.pick(2)
	if c.p(15) {
		return rp(0, 0, e)
	}
	return rp(lo, 1+c.pick(2), e)
}
