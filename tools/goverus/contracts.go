package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Contract files (*.gvc) hold Gobra-style clauses keyed by function:
//
//	//@ func recv.name(p, inout q; inout captured) (r, e)
//	//@   requires ...
//	//@   ensures ...
//	//@   loop 1 invariant ...
//	//@   ghost set VAR : verus statements after an assignment to a local ($old: its value before)
//	//@   ghost entry|return|loop 1 head|loop 1 end|loop 1 exit : verus statements
//
// Everything outside "//@" lines is Verus text (spec functions and lemmas) kept
// in .rs files; a .gvc file only holds clauses.

type cparam struct {
	name string
	mode string // "", "inout", "nn" (non-nil pointer passed as its value), "out" (pointer or nil; what it points to is unknown after the call)
}

type clause struct {
	text string
	at   string // file:line
}

type loopSpec struct {
	invs []clause
	head []string
	end  []string
	exit []string
	pre  []string
}

type contract struct {
	key       string
	params    []cparam
	captured  []cparam
	results   []string
	requires  []clause
	ensures   []clause
	loops     map[int]*loopSpec
	ghost     map[string][]string
	trusted   bool
	pure      string // template expression
	isPure    bool
	checked   bool     // 64-bit arithmetic carries overflow obligations
	hide      []string // specification functions the proof of the body does not unfold
	decr      string
	heaps     []string // heaps read
	mods      []string // heaps modified
	at        string
	typarams  bool
	ifaceImpl string // verified against this interface contract as well
	hints     []string
}

type directives struct {
	ifaces   map[string][]string // interface name -> concrete types ("*T" for pointers)
	opaques  map[string]bool
	globals  map[string]bool
	heapT    map[string]bool
	sentinel map[string]int
	weakmaps map[string]bool
}

type contractSet struct {
	fns   map[string]*contract
	d     directives
	types []string
}

var reFunc = regexp.MustCompile(`^(func|trusted|pure|closure)\s+([^\s(]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*(.*)$`)

func splitNames(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

func parseParams(s string) []cparam {
	var out []cparam
	for _, f := range splitNames(s) {
		p := cparam{name: f}
		if strings.HasPrefix(f, "inout ") {
			p.mode = "inout"
			p.name = strings.TrimSpace(strings.TrimPrefix(f, "inout "))
		}
		if strings.HasPrefix(f, "out ") {
			p.mode = "out"
			p.name = strings.TrimSpace(strings.TrimPrefix(f, "out "))
		}
		if strings.HasPrefix(f, "nn ") {
			p.mode = "nn"
			p.name = strings.TrimSpace(strings.TrimPrefix(f, "nn "))
		}
		out = append(out, p)
	}
	return out
}

func loadContracts(files []string) (*contractSet, error) {
	cs := &contractSet{fns: map[string]*contract{}}
	cs.d = directives{ifaces: map[string][]string{}, opaques: map[string]bool{}, globals: map[string]bool{},
		heapT: map[string]bool{}, sentinel: map[string]int{}, weakmaps: map[string]bool{}}
	for _, f := range files {
		if err := cs.load(f); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

func (cs *contractSet) load(file string) error {
	fh, err := os.Open(file)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var cur *contract
	type logical struct {
		text string
		at   string
	}
	var lines []logical
	ln := 0
	for sc.Scan() {
		ln++
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "//@") {
			continue
		}
		t = strings.TrimPrefix(t, "//@")
		if i := strings.Index(t, " ## "); i >= 0 {
			t = t[:i]
		}
		if strings.HasPrefix(strings.TrimSpace(t), "|") { // continuation
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: stray continuation", file, ln)
			}
			lines[len(lines)-1].text += "\n" + strings.TrimPrefix(strings.TrimSpace(t), "|")
			continue
		}
		t = strings.TrimSpace(t)
		if t == "" {
			continue
		}
		lines = append(lines, logical{t, fmt.Sprintf("%s:%d", filepath.Base(file), ln)})
	}
	for _, l := range lines {
		t := l.text
		word := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			word = t[:i]
		}
		rest := strings.TrimSpace(strings.TrimPrefix(t, word))
		switch word {
		case "interface":
			nm, v, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s: bad interface directive", l.at)
			}
			var vs []string
			for _, x := range strings.Split(v, "|") {
				vs = append(vs, strings.TrimSpace(x))
			}
			cs.d.ifaces[strings.TrimSpace(nm)] = vs
		case "opaque":
			for _, x := range strings.Fields(rest) {
				cs.d.opaques[x] = true
			}
		case "global":
			for _, x := range strings.Fields(rest) {
				cs.d.globals[x] = true
			}
		case "heap":
			for _, x := range strings.Fields(rest) {
				cs.d.heapT[x] = true
			}
		case "types":
			cs.types = append(cs.types, strings.Fields(rest)...)
		case "sentinel":
			for _, x := range strings.Fields(rest) {
				cs.d.sentinel[x] = 1000 + len(cs.d.sentinel)
			}
		case "func", "trusted", "pure":
			m := reFunc.FindStringSubmatch(t)
			if m == nil {
				return fmt.Errorf("%s: bad header %q", l.at, t)
			}
			c := &contract{key: m[2], loops: map[int]*loopSpec{}, ghost: map[string][]string{}, at: l.at}
			c.trusted = m[1] == "trusted"
			ps, caps, _ := strings.Cut(m[3], ";")
			c.params = parseParams(ps)
			c.captured = parseParams(caps)
			c.results = splitNames(m[4])
			tail := strings.TrimSpace(m[5])
			if m[1] == "pure" {
				c.isPure, c.trusted = true, true
				if !strings.HasPrefix(tail, "=") {
					return fmt.Errorf("%s: pure needs = expr", l.at)
				}
				c.pure = strings.TrimSpace(tail[1:])
			} else if tail != "" {
				for _, f := range strings.Fields(tail) {
					switch {
					case f == "checked":
						c.checked = true
					default:
						return fmt.Errorf("%s: unknown flag %q", l.at, f)
					}
				}
			}
			if cs.fns[c.key] != nil {
				return fmt.Errorf("%s: duplicate contract %s", l.at, c.key)
			}
			cs.fns[c.key] = c
			cur = c
		case "requires", "ensures":
			if cur == nil {
				return fmt.Errorf("%s: clause outside func", l.at)
			}
			cl := clause{rest, l.at}
			if word == "requires" {
				cur.requires = append(cur.requires, cl)
			} else {
				cur.ensures = append(cur.ensures, cl)
			}
		case "decreases":
			cur.decr = rest
		case "hide":
			cur.hide = append(cur.hide, strings.Fields(rest)...)
		case "reads":
			cur.heaps = append(cur.heaps, strings.Fields(rest)...)
		case "modifies":
			cur.mods = append(cur.mods, strings.Fields(rest)...)
		case "loop":
			f := strings.Fields(rest)
			n, err := strconv.Atoi(f[0])
			if err != nil {
				return fmt.Errorf("%s: bad loop clause", l.at)
			}
			ls := cur.loops[n]
			if ls == nil {
				ls = &loopSpec{}
				cur.loops[n] = ls
			}
			body := strings.TrimSpace(strings.TrimPrefix(rest, f[0]))
			kind := strings.Fields(body)[0]
			body = strings.TrimSpace(strings.TrimPrefix(body, kind))
			switch kind {
			case "invariant":
				ls.invs = append(ls.invs, clause{body, l.at})
			case "head":
				ls.head = append(ls.head, body)
			case "end":
				ls.end = append(ls.end, body)
			case "exit":
				ls.exit = append(ls.exit, body)
			case "pre":
				ls.pre = append(ls.pre, body)
			default:
				return fmt.Errorf("%s: loop %s?", l.at, kind)
			}
		case "ghost":
			k, b, ok := strings.Cut(rest, ":")
			if !ok {
				return fmt.Errorf("%s: ghost needs ':'", l.at)
			}
			cur.ghost[strings.TrimSpace(k)] = append(cur.ghost[strings.TrimSpace(k)], strings.TrimSpace(b))
		default:
			return fmt.Errorf("%s: unknown clause %q", l.at, word)
		}
	}
	return nil
}

func (cs *contractSet) keys() []string {
	var out []string
	for k := range cs.fns {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
