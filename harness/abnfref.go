package main

// Reference reading of ABNF text (RFC 5234 with its errata, RFC 7405), by
// hand-written recursive descent, and the checks that use it.

import (
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	abnf "github.com/pandatix/go-abnf"
)

func init() {
	props["C12"] = propDef{run: runC12, quick: 12000, thorough: 120000, rule: "random grammars written as ABNF text with random layout (comments, continuation lines, case of names, bases and %s/%i, incremental alternatives, duplicate and core definitions), half of them with random edits; non-trivial: the text is ABNF"}
	props["C13"] = propDef{run: runC13, quick: 7000, thorough: 120000, rule: "grammars obtained from random ABNF texts, printed both ways and parsed back; pairs of random elements compared for injectivity of printing; non-trivial: a grammar with at least one rule"}
	props["C14"] = propDef{run: runC14, quick: 30000, thorough: 300000, rule: "random grammars with undefined references, inverted repetition bounds and oversized values planted at random depths; non-trivial: an incoherent grammar"}
}

type refRule struct {
	name string
	op   string
	alt  abnf.Alternation
}

type proseRef struct{ text string }

func (p proseRef) String() string { return "<" + p.text + ">" }

type rparser struct {
	s   string
	p   int
	big bool // a repetition bound does not fit an int
}

func isAlpha(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func isDigit(b byte) bool { return b >= '0' && b <= '9' }

func (r *rparser) peek() byte {
	if r.p < len(r.s) {
		return r.s[r.p]
	}
	return 0
}
func (r *rparser) eof() bool { return r.p >= len(r.s) }

func (r *rparser) crlf() bool {
	if strings.HasPrefix(r.s[r.p:], "\r\n") {
		r.p += 2
		return true
	}
	return false
}
func (r *rparser) wsp() bool {
	if !r.eof() && (r.peek() == ' ' || r.peek() == '\t') {
		r.p++
		return true
	}
	return false
}
func (r *rparser) cnl() bool {
	sv := r.p
	if r.crlf() {
		return true
	}
	if !r.eof() && r.peek() == ';' {
		r.p++
		for !r.eof() && (r.peek() == ' ' || r.peek() == '\t' || r.peek() >= 0x21 && r.peek() <= 0x7e) {
			r.p++
		}
		if r.crlf() {
			return true
		}
	}
	r.p = sv
	return false
}
func (r *rparser) cwsp() bool {
	if r.wsp() {
		return true
	}
	sv := r.p
	if r.cnl() && r.wsp() {
		return true
	}
	r.p = sv
	return false
}
func (r *rparser) cwsps() int {
	n := 0
	for r.cwsp() {
		n++
	}
	return n
}

func (r *rparser) rulename() (string, bool) {
	sv := r.p
	if r.eof() || !isAlpha(r.peek()) {
		return "", false
	}
	for !r.eof() && (isAlpha(r.peek()) || isDigit(r.peek()) || r.peek() == '-') {
		r.p++
	}
	return r.s[sv:r.p], true
}

func (r *rparser) rulelist() ([]refRule, bool) {
	var out []refRule
	n := 0
	for !r.eof() {
		sv := r.p
		if rl, ok := r.rule(); ok {
			out = append(out, rl)
			n++
			continue
		}
		r.p = sv
		for r.wsp() {
		}
		if !r.cnl() {
			return nil, false
		}
		n++
	}
	return out, n > 0
}

func (r *rparser) rule() (refRule, bool) {
	nm, ok := r.rulename()
	if !ok {
		return refRule{}, false
	}
	r.cwsps()
	if r.eof() || r.peek() != '=' {
		return refRule{}, false
	}
	r.p++
	op := "="
	if !r.eof() && r.peek() == '/' {
		r.p++
		op = "=/"
	}
	r.cwsps()
	a, ok := r.alternation()
	if !ok {
		return refRule{}, false
	}
	for r.wsp() {
	}
	if !r.cnl() {
		return refRule{}, false
	}
	return refRule{nm, op, a}, true
}

func (r *rparser) alternation() (abnf.Alternation, bool) {
	c, ok := r.concatenation()
	if !ok {
		return abnf.Alternation{}, false
	}
	cs := []abnf.Concatenation{c}
	for {
		sv := r.p
		r.cwsps()
		if r.eof() || r.peek() != '/' {
			r.p = sv
			break
		}
		r.p++
		r.cwsps()
		c, ok := r.concatenation()
		if !ok {
			r.p = sv
			break
		}
		cs = append(cs, c)
	}
	return abnf.Alternation{Concatenations: cs}, true
}

func (r *rparser) concatenation() (abnf.Concatenation, bool) {
	rep, ok := r.repetition()
	if !ok {
		return abnf.Concatenation{}, false
	}
	rs := []abnf.Repetition{rep}
	for {
		sv := r.p
		if r.cwsps() == 0 {
			break
		}
		rep, ok := r.repetition()
		if !ok {
			r.p = sv
			break
		}
		rs = append(rs, rep)
	}
	return abnf.Concatenation{Repetitions: rs}, true
}

func (r *rparser) digits() string {
	sv := r.p
	for !r.eof() && isDigit(r.peek()) {
		r.p++
	}
	return r.s[sv:r.p]
}

func (r *rparser) bound(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil {
		r.big = true
	}
	return v
}

func (r *rparser) repetition() (abnf.Repetition, bool) {
	min, max := 1, 1
	d := r.digits()
	if !r.eof() && r.peek() == '*' {
		r.p++
		e := r.digits()
		min, max = 0, infRep
		if d != "" {
			min = r.bound(d)
		}
		if e != "" {
			max = r.bound(e)
		}
	} else if d != "" {
		min = r.bound(d)
		max = min
	}
	e, ok := r.element()
	if !ok {
		return abnf.Repetition{}, false
	}
	return abnf.Repetition{Min: min, Max: max, Element: e}, true
}

func (r *rparser) quoted() (string, bool) {
	if r.eof() || r.peek() != '"' {
		return "", false
	}
	sv := r.p + 1
	r.p++
	for !r.eof() && r.peek() >= 0x20 && r.peek() <= 0x7e && r.peek() != '"' {
		r.p++
	}
	if r.eof() || r.peek() != '"' {
		return "", false
	}
	r.p++
	return r.s[sv : r.p-1], true
}

func (r *rparser) element() (abnf.ElemItf, bool) {
	if r.eof() {
		return nil, false
	}
	switch b := r.peek(); {
	case isAlpha(b):
		nm, _ := r.rulename()
		return abnf.ElemRulename{Name: nm}, true
	case b == '(' || b == '[':
		r.p++
		r.cwsps()
		a, ok := r.alternation()
		if !ok {
			return nil, false
		}
		r.cwsps()
		want := byte(')')
		if b == '[' {
			want = ']'
		}
		if r.eof() || r.peek() != want {
			return nil, false
		}
		r.p++
		if b == '[' {
			return abnf.ElemOption{Alternation: a}, true
		}
		return abnf.ElemGroup{Alternation: a}, true
	case b == '"':
		s, ok := r.quoted()
		return abnf.ElemCharVal{Values: []rune(s)}, ok
	case b == '<':
		r.p++
		sv := r.p
		for !r.eof() && r.peek() >= 0x20 && r.peek() <= 0x7e && r.peek() != '>' {
			r.p++
		}
		if r.eof() || r.peek() != '>' {
			return nil, false
		}
		r.p++
		return proseRef{r.s[sv : r.p-1]}, true
	case b == '%':
		r.p++
		if r.eof() {
			return nil, false
		}
		k := r.peek()
		r.p++
		isd := func(b byte) bool { return false }
		base := ""
		switch k {
		case 'i', 'I', 's', 'S':
			s, ok := r.quoted()
			return abnf.ElemCharVal{Sensitive: k == 's' || k == 'S', Values: []rune(s)}, ok
		case 'b', 'B':
			base = "b"
			isd = func(b byte) bool { return b == '0' || b == '1' }
		case 'd', 'D':
			base = "d"
			isd = isDigit
		case 'x', 'X':
			base = "x"
			isd = func(b byte) bool { return isDigit(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F' }
		default:
			return nil, false
		}
		take := func() string {
			sv := r.p
			for !r.eof() && isd(r.peek()) {
				r.p++
			}
			return r.s[sv:r.p]
		}
		d := take()
		if d == "" {
			return nil, false
		}
		el := []string{d}
		if !r.eof() && r.peek() == '-' {
			sv := r.p
			r.p++
			d := take()
			if d == "" {
				r.p = sv
				return nil, false
			}
			return abnf.ElemNumVal{Base: base, Status: abnf.StatRange, Elems: append(el, d)}, true
		}
		for !r.eof() && r.peek() == '.' {
			sv := r.p
			r.p++
			d := take()
			if d == "" {
				r.p = sv
				break
			}
			el = append(el, d)
		}
		return abnf.ElemNumVal{Base: base, Status: abnf.StatSeries, Elems: el}, true
	}
	return nil, false
}

// refParse evaluates the text: the rules in a map keyed by lower-case name, or
// the class of error expected.
type refErr struct {
	kind string // "syntax", "dup", "core", "missing"
	name string
}

func refEval(rs []refRule, redefine bool) (map[string]*abnf.Rule, *refErr) {
	m := map[string]*abnf.Rule{}
	for _, r := range rs {
		l := lowerASCII(r.name)
		_, core := coreAlt(r.name)
		if core && !redefine {
			return nil, &refErr{"core", r.name}
		}
		if r.op == "=" {
			if m[l] != nil {
				return nil, &refErr{"dup", r.name}
			}
			m[l] = &abnf.Rule{Name: r.name, Alternation: r.alt}
			continue
		}
		old := m[l]
		if old == nil {
			if !core {
				return nil, &refErr{"missing", r.name}
			}
			a, _ := coreAlt(r.name)
			old = &abnf.Rule{Name: strings.ToUpper(r.name), Alternation: a}
		}
		m[l] = &abnf.Rule{Name: old.Name, Alternation: abnf.Alternation{Concatenations: append(append([]abnf.Concatenation{}, old.Alternation.Concatenations...), r.alt.Concatenations...)}}
	}
	return m, nil
}

// ---- structural equality ---------------------------------------------------

func eqAlt(a, b abnf.Alternation) bool {
	if len(a.Concatenations) != len(b.Concatenations) {
		return false
	}
	for i := range a.Concatenations {
		x, y := a.Concatenations[i].Repetitions, b.Concatenations[i].Repetitions
		if len(x) != len(y) {
			return false
		}
		for j := range x {
			if x[j].Min != y[j].Min || x[j].Max != y[j].Max || !eqElem(x[j].Element, y[j].Element) {
				return false
			}
		}
	}
	return true
}

func eqElem(a, b abnf.ElemItf) bool {
	switch x := a.(type) {
	case abnf.ElemRulename:
		y, ok := b.(abnf.ElemRulename)
		return ok && x.Name == y.Name
	case abnf.ElemGroup:
		y, ok := b.(abnf.ElemGroup)
		return ok && eqAlt(x.Alternation, y.Alternation)
	case abnf.ElemOption:
		y, ok := b.(abnf.ElemOption)
		return ok && eqAlt(x.Alternation, y.Alternation)
	case abnf.ElemCharVal:
		y, ok := b.(abnf.ElemCharVal)
		return ok && x.Sensitive == y.Sensitive && string(x.Values) == string(y.Values)
	case abnf.ElemNumVal:
		y, ok := b.(abnf.ElemNumVal)
		return ok && x.Base == y.Base && x.Status == y.Status && strings.Join(x.Elems, ".") == strings.Join(y.Elems, ".") && len(x.Elems) == len(y.Elems)
	case proseRef:
		y, ok := b.(abnf.ElemProseVal)
		return ok && y.String() == x.String()
	case abnf.ElemProseVal:
		switch y := b.(type) {
		case abnf.ElemProseVal:
			return x.String() == y.String()
		case proseRef:
			return x.String() == y.String()
		}
	}
	return false
}

func eqRules(want map[string]*abnf.Rule, g *abnf.Grammar) string {
	if len(want) != len(g.Rulemap) {
		return fmt.Sprintf("%d rules instead of %d", len(g.Rulemap), len(want))
	}
	for k, r := range g.Rulemap {
		w := want[lowerASCII(r.Name)]
		if w == nil {
			return "unexpected rule " + r.Name
		}
		if k != r.Name {
			return "rule " + r.Name + " is stored under " + k
		}
		if !strings.EqualFold(w.Name, r.Name) {
			return "rule " + w.Name + " is named " + r.Name
		}
		if !eqAlt(w.Alternation, r.Alternation) {
			return "rule " + r.Name + " is " + dumpAlt(r.Alternation)
		}
	}
	return ""
}

// ---- random text -------------------------------------------------------------

type wr struct {
	c *C
	strings.Builder
}

func (w *wr) ws(min int) { // c-wsp
	n := min
	if w.c.p(15) {
		n += w.c.pick(3)
	}
	for i := 0; i < n; i++ {
		switch k := w.c.pick(20); {
		case k == 0:
			w.WriteString("\r\n" + pickOf(w.c, []string{" ", "\t"}))
		case k == 1:
			w.WriteString(";" + pickOf(w.c, comments) + "\r\n ")
		case k == 2:
			w.WriteString("\t")
		default:
			w.WriteString(" ")
		}
	}
}

var comments = []string{"", " a = b", " = ", "/", " =/ \"x\"", "\"", " <", " %x", " ; ;", "=/"}

func (w *wr) wAlt(a abnf.Alternation) {
	for i, cc := range a.Concatenations {
		if i > 0 {
			w.ws(w.c.pick(2))
			w.WriteString("/")
			w.ws(w.c.pick(2))
		}
		for j, r := range cc.Repetitions {
			if j > 0 {
				w.ws(1)
			}
			w.wRep(r)
		}
	}
}

func (w *wr) wRep(r abnf.Repetition) {
	c := w.c
	z := func(n int) string {
		s := strconv.Itoa(n)
		if c.p(8) {
			s = "00" + s
		}
		return s
	}
	switch {
	case r.Min == 1 && r.Max == 1 && !c.p(5):
	case r.Min == r.Max && c.p(70):
		w.WriteString(z(r.Min))
	default:
		if r.Min != 0 || c.p(20) {
			w.WriteString(z(r.Min))
		}
		w.WriteString("*")
		if r.Max != infRep {
			w.WriteString(z(r.Max))
		}
	}
	switch v := r.Element.(type) {
	case abnf.ElemGroup:
		w.WriteString("(")
		w.ws(0)
		w.wAlt(v.Alternation)
		w.ws(0)
		w.WriteString(")")
	case abnf.ElemOption:
		w.WriteString("[")
		w.ws(0)
		w.wAlt(v.Alternation)
		w.ws(0)
		w.WriteString("]")
	case abnf.ElemRulename:
		w.WriteString(v.Name)
	case abnf.ElemCharVal:
		if v.Sensitive {
			w.WriteString(pickOf(c, []string{"%s", "%S"}))
		} else if c.p(15) {
			w.WriteString(pickOf(c, []string{"%i", "%I"}))
		}
		w.WriteString("\"" + string(v.Values) + "\"")
	case abnf.ElemNumVal:
		b := v.Base
		if c.p(20) {
			b = strings.ToUpper(b)
		}
		sep := "."
		if v.Status == abnf.StatRange {
			sep = "-"
		}
		w.WriteString("%" + b + strings.Join(v.Elems, sep))
	default:
		w.WriteString(r.Element.String())
	}
}

var textChars = []string{"a", "%s\"aB\"", "%x4", "\"", ";", "=", "/", "=/", "(", ")", "[", "]", "*", "1", "0", "<", ">", "%", "-", ".", " ", "\t", "\r\n", "\n", "\r", "\r\n ", "x", "%d", "%b2", "é", "\xff", "{", "A", "~", "'", "%i", "0*0", "<p>", "b1", "\x00"}

func (c *C) abnfText() string {
	cfg := defaultCfg(c)
	cfg.multibyte = false
	cfg.depth = 1 + c.pick(2)
	cfg.rules = 1 + c.pick(3)
	cfg.closed = false
	cfg.sat = !c.p(15)
	cfg.incoh = c.p(20)
	cfg.alts, cfg.cats = 2, 2
	if c.p(30) {
		cfg.rules, cfg.depth = 1, 1
	}
	g := c.grammar(cfg)
	w := &wr{c: c}
	var rs []*abnf.Rule
	for _, k := range sortedRules(g) {
		rs = append(rs, g.Rulemap[k])
	}
	c.rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	// sprinkle prose and strings with awkward characters
	emit := func(name, op string, a abnf.Alternation) {
		w.WriteString(name)
		w.ws(c.pick(2))
		w.WriteString(op)
		w.ws(c.pick(2))
		w.wAlt(a)
		if c.p(10) {
			w.WriteString(pickOf(c, []string{" <pro se>", " <>", " \"<;=/>\"", " %s\"\"", " \"a;b\"", " %x0d.0A", " [ \";\" ]", " %x0", " 2<x>", " <a\"b>"}))
		}
		if c.p(10) {
			w.WriteString(" ")
		}
		if c.p(15) {
			w.WriteString(";" + pickOf(c, comments))
		}
		w.WriteString("\r\n")
		if c.p(10) {
			w.WriteString(pickOf(c, []string{"\r\n", " \r\n", "; note\r\n", "\t; = \r\n"}))
		}
	}
	if c.p(10) {
		w.WriteString(pickOf(c, []string{"\r\n", "; head\r\n", "  \r\n"}))
	}
	for _, r := range rs {
		emit(r.Name, "=", r.Alternation)
		if c.p(12) {
			emit(recase(c, r.Name), "=/", (&ggen{c: c, cfg: gcfg{alts: 2, cats: 2, maxRep: 2, closed: true, sat: true}, nm: sortedRules(g)}).alt(0, 1))
		}
	}
	switch c.pick(12) {
	case 0:
		emit(recase(c, pickOf(c, rs).Name), "=", alt(cat(one(str("z")))))
	case 1:
		emit(recase(c, pickOf(c, coreNames)), pickOf(c, []string{"=", "=/"}), alt(cat(one(str("z")))))
		if c.p(40) {
			emit(recase(c, pickOf(c, coreNames)), pickOf(c, []string{"=", "=/"}), alt(cat(one(str("y")))))
		}
	case 2:
		emit("fresh", "=/", alt(cat(one(str("z")))))
	}
	return w.String()
}

func runC12(c *C) {
	text := c.abnfText()
	if c.p(45) {
		for k := 1 + c.pick(2); k > 0; k-- {
			i := c.pick(len(text) + 1)
			j := i
			if c.p(50) && i < len(text) {
				j = i + 1 + c.pick(2)
				if j > len(text) {
					j = len(text)
				}
			}
			ins := ""
			if j == i || c.p(50) {
				ins = pickOf(c, textChars)
			}
			text = text[:i] + ins + text[j:]
		}
	}
	if c.p(2) {
		text = pickOf(c, []string{"", "\r\n", " ", "a", "a=", "a=b", "a=b\n", "=\r\n", "a=\"\r\n", "a=%x\r\n", ";\r\n", ";\n"})
	}
	rp := &rparser{s: text}
	rs, ok := rp.rulelist()
	redefine := c.p(35)
	c.at(q([]byte(text)), "")
	g, err := abnf.ParseABNF([]byte(text), abnf.WithValidation(false), abnf.WithRedefineCoreRules(redefine))
	c.eval(ok, text)
	if !ok {
		var pe *abnf.ParseError
		if err == nil {
			c.fail(text, q([]byte(text)), "a text that is not ABNF is accepted")
		} else if !errors.Is(err, abnf.ErrNoSolutionFound) || !errors.As(err, &pe) {
			c.fail(text, q([]byte(text)), "a text that is not ABNF gives error %T %v", err, err)
		}
		return
	}
	if rp.big {
		c.skip("repetition bound beyond int")
		return
	}
	want, we := refEval(rs, redefine)
	if we != nil {
		var d *abnf.ErrDuplicatedRule
		var m *abnf.ErrCoreRuleModify
		var nf *abnf.ErrRuleNotFound
		good := false
		switch we.kind {
		case "dup":
			good = errors.As(err, &d) && strings.EqualFold(d.Rulename, we.name)
		case "core":
			good = errors.As(err, &m) && strings.EqualFold(m.CoreRulename, we.name)
		case "missing":
			good = errors.As(err, &nf) && strings.EqualFold(nf.Rulename, we.name)
		}
		if !good {
			c.fail(text, q([]byte(text)), "expected a %s error for rule %s (redefine %v), got %T %v", we.kind, we.name, redefine, err, err)
		}
		return
	}
	if err != nil {
		c.fail(text, q([]byte(text)), "ParseABNF (redefine %v) failed: %v", redefine, err)
		return
	}
	if msg := eqRules(want, g); msg != "" {
		c.fail(text, q([]byte(text)), "%s", msg)
	}
	// default options: same grammar when coherent, and an error otherwise
	g2, err2 := abnf.ParseABNF([]byte(text), abnf.WithRedefineCoreRules(redefine))
	co := incoherences(want)
	if (len(co) == 0) != (err2 == nil) {
		c.fail(text, q([]byte(text)), "with validation: error %v, incoherences %v", err2, co)
	} else if err2 == nil {
		if msg := eqRules(want, g2); msg != "" {
			c.fail(text, q([]byte(text)), "with validation: %s", msg)
		}
	}
	if c.p(20) {
		f, err := abnf.Parse([]byte(text), abnf.ABNF, "rulelist")
		if err != nil || !f.Valid() || f.Ambiguous() {
			c.fail(text, q([]byte(text)), "meta-grammar parse: %v valid %v ambiguous %v", err, f.Valid(), f.Ambiguous())
			return
		}
		g3, err := abnf.EvaluateABNF([]byte(text), f, abnf.WithRedefineCoreRules(redefine))
		if err != nil {
			c.fail(text, q([]byte(text)), "EvaluateABNF: %v", err)
		} else if msg := eqRules(want, g3); msg != "" {
			c.fail(text, q([]byte(text)), "EvaluateABNF: %s", msg)
		}
	}
}

// incoherences lists what strict validation must object to, as "kind:detail".
func incoherences(m map[string]*abnf.Rule) map[string]bool {
	out := map[string]bool{}
	var walk func(a abnf.Alternation)
	walk = func(a abnf.Alternation) {
		for _, cc := range a.Concatenations {
			for _, r := range cc.Repetitions {
				if r.Max != infRep && r.Min > r.Max {
					out["rep:"+dumpRep(r)] = true
				}
				switch v := r.Element.(type) {
				case abnf.ElemRulename:
					_, core := coreAlt(v.Name)
					if m[lowerASCII(v.Name)] == nil && !core {
						out["dep:"+lowerASCII(v.Name)] = true
					}
				case abnf.ElemGroup:
					walk(v.Alternation)
				case abnf.ElemOption:
					walk(v.Alternation)
				case abnf.ElemNumVal:
					for _, s := range v.Elems {
						if b := bigVal(s, v.Base); b != nil && b.Cmp(maxUni) > 0 {
							out["num:"+b.String()] = true
						}
					}
				}
			}
		}
	}
	for _, r := range m {
		walk(r.Alternation)
	}
	return out
}

func lowerMap(g *abnf.Grammar) map[string]*abnf.Rule {
	m := map[string]*abnf.Rule{}
	for _, r := range g.Rulemap {
		m[lowerASCII(r.Name)] = r
	}
	return m
}

func runC13(c *C) {
	text := c.abnfText()
	redefine := true
	c.at(q([]byte(text)), "")
	g, err := abnf.ParseABNF([]byte(text), abnf.WithValidation(false), abnf.WithRedefineCoreRules(redefine))
	if err != nil {
		c.skip("text rejected")
		return
	}
	c.eval(len(g.Rulemap) > 0, text)
	want := lowerMap(g)
	for _, x := range []struct{ n, s string }{{"String", g.String()}, {"PrettyPrint", g.PrettyPrint()}} {
		if len(g.Rulemap) == 0 {
			continue
		}
		g2, err := abnf.ParseABNF([]byte(x.s), abnf.WithValidation(false), abnf.WithRedefineCoreRules(true))
		if err != nil {
			c.fail(text, q([]byte(x.s)), "%s does not parse back: %v", x.n, err)
			continue
		}
		if msg := eqRules(want, g2); msg != "" {
			c.fail(text, q([]byte(x.s)), "%s parses back differently: %s", x.n, msg)
		}
		// independent reading
		rp := &rparser{s: x.s}
		rs, ok := rp.rulelist()
		if !ok {
			c.fail(text, q([]byte(x.s)), "%s is not ABNF", x.n)
			continue
		}
		m, e := refEval(rs, true)
		if e != nil || (!rp.big && eqRules(m, g) != "") {
			c.fail(text, q([]byte(x.s)), "%s denotes another grammar: %v", x.n, e)
		}
	}
	// injectivity on the elements of this and a second grammar
	els := collectElems(g)
	text2 := c.abnfText()
	if g2, err := abnf.ParseABNF([]byte(text2), abnf.WithValidation(false), abnf.WithRedefineCoreRules(true)); err == nil {
		els = append(els, collectElems(g2)...)
	}
	by := map[string]abnf.ElemItf{}
	for _, e := range els {
		s := e.String()
		if o, ok := by[s]; ok {
			if !eqElem(o, e) {
				c.fail(text+text2, s, "two different elements print alike: %#v and %#v", o, e)
			}
			continue
		}
		by[s] = e
	}
}

func collectElems(g *abnf.Grammar) []abnf.ElemItf {
	var out []abnf.ElemItf
	var walk func(a abnf.Alternation)
	walk = func(a abnf.Alternation) {
		for _, cc := range a.Concatenations {
			for _, r := range cc.Repetitions {
				out = append(out, r.Element)
				switch v := r.Element.(type) {
				case abnf.ElemGroup:
					walk(v.Alternation)
				case abnf.ElemOption:
					walk(v.Alternation)
				}
			}
		}
	}
	var ks []string
	for k := range g.Rulemap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		walk(g.Rulemap[k].Alternation)
	}
	return out
}

func runC14(c *C) {
	cfg := defaultCfg(c)
	cfg.closed = c.p(50)
	cfg.sat = c.p(50)
	cfg.incoh = c.p(50)
	cfg.prose = c.p(20)
	cfg.depth = 1 + c.pick(4)
	g := c.grammar(cfg)
	gs := gstr(g)
	c.at(gs, "")
	bad := incoherences(lowerMap(g))
	for k := 0; k < 3; k++ {
		err := abnf.SemvalABNF(g)
		c.eval(len(bad) > 0, gs)
		if (err == nil) != (len(bad) == 0) {
			c.fail(gs, "", "SemvalABNF gives %v; incoherences: %v", err, bad)
			return
		}
		if err == nil {
			continue
		}
		var dep *abnf.ErrDependencyNotFound
		var rep *abnf.ErrSemanticRepetition
		var nm *abnf.ErrTooLargeNumeral
		key := ""
		switch {
		case errors.As(err, &dep):
			key = "dep:" + lowerASCII(dep.Rulename)
		case errors.As(err, &rep):
			key = "rep:" + dumpRep(rep.Repetition)
		case errors.As(err, &nm):
			v := bigVal(nm.Value, nm.Base)
			if v == nil {
				v = big.NewInt(-1)
			}
			key = "num:" + v.String()
		default:
			key = fmt.Sprintf("%T", err)
		}
		if !bad[key] {
			c.fail(gs, "", "SemvalABNF names %s (%v); incoherences: %v", key, err, bad)
		}
	}
}
