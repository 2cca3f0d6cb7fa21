package main

// C18: parsers generated for a batch of grammars are compiled together into one
// program (one package per grammar) and compared with the library.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	abnf "github.com/pandatix/go-abnf"
)

const c18batch = 24

func init() {
	props["C18"] = propDef{run: runC18, quick: 16, thorough: 250, rule: fmt.Sprintf("batches of %d random or curated grammars, each turned into a generated parser, all compiled by the Go compiler and run on sampled derivations, mutations and short strings with random element budgets; every answer compared with ParseBSR and the reference semantics; non-trivial: the rule derives the input", c18batch)}
}

type c18query struct {
	Pkg    int
	Input  []byte
	Budget int
}

type c18answer struct {
	Err       string
	TooLarge  bool
	Valid     bool
	Num       string
	Ambiguous bool
	Elements  int
	Tree      string
	Panic     string
}

const c18main = `package main

import (
	"encoding/json"
	"fmt"
	"os"

IMPORTS
)

type query struct {
	Pkg    int
	Input  []byte
	Budget int
}

type answer struct {
	Err       string
	TooLarge  bool
	Valid     bool
	Num       string
	Ambiguous bool
	Elements  int
	Tree      string
	Panic     string
}

func run(q query) (a answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Panic = fmt.Sprint(r)
		}
	}()
	switch q.Pkg {
CASES
	}
	return
}

func main() {
	var qs []query
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	w := json.NewEncoder(os.Stdout)
	for _, q := range qs {
		w.Encode(run(q))
	}
}
`

const c18case = `	case %[1]d:
		p%[1]d.MaxElements = q.Budget
		r, err := p%[1]d.Parse(q.Input)
		if err != nil {
			a.Err, a.TooLarge = err.Error(), err == p%[1]d.ErrTooLarge
			return
		}
		a.Valid, a.Num, a.Ambiguous, a.Elements = r.Valid(), r.NumTrees().String(), r.Ambiguous(), r.Elements()
		var s func(t *p%[1]d.ParseTree) string
		s = func(t *p%[1]d.ParseTree) string {
			if t == nil {
				return "<nil>"
			}
			n := t.Rule
			if n == "" {
				n = "'"
			}
			n += fmt.Sprintf("[%%d:%%d]", t.Start, t.End)
			if len(t.Children) > 0 {
				n += "("
				for i, c := range t.Children {
					if i > 0 {
						n += " "
					}
					n += s(c)
				}
				n += ")"
			}
			return n
		}
		if !a.Ambiguous {
			a.Tree = s(r.Tree())
		}
`

type c18item struct {
	g    *abnf.Grammar
	gs   string
	rule string
	r    *ref
}

var rePkg = regexp.MustCompile(`(?m)^(?:# )?(?:\./)?(?:gen/)?p(\d+)/?`)

func runC18(c *C) {
	var items []c18item
	base := c.idx * c18batch
	for k := 0; k < c18batch; k++ {
		var g *abnf.Grammar
		if i := base + k; i < len(curatedABNF) {
			g = curatedGrammar(i)
		} else if c.p(5) {
			g = c.wideGrammar()
		} else {
			cfg := defaultCfg(c)
			cfg.prose = false
			cfg.sat = !c.p(20)
			cfg.incoh = c.p(10)
			cfg.closed = true
			g = c.grammar(cfg)
		}
		r := newRef(g)
		rule := c.ruleOf(g)
		if r.undefinedFrom(rule) {
			c.skip("undefined reference")
			continue
		}
		items = append(items, c18item{g, gstr(g), rule, r})
	}
	dir, err := os.MkdirTemp("", "c18-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var imports, cases strings.Builder
	n := 0
	srcs := map[int]string{}
	for i, it := range items {
		c.at(it.gs+" rule "+it.rule, "GenerateGoParser")
		pkg := fmt.Sprintf("p%d", i)
		src, err := abnf.GenerateGoParser(it.g, recase(c, it.rule), pkg)
		if err != nil {
			c.fail(it.gs+" rule "+it.rule, "", "GenerateGoParser: %v", err)
			continue
		}
		src, err = abnf.GenerateGoParser(it.g, it.rule, pkg)
		if err != nil {
			c.fail(it.gs+" rule "+it.rule, "", "GenerateGoParser: %v", err)
			continue
		}
		again, err := abnf.GenerateGoParser(it.g, it.rule, pkg)
		if err != nil || !bytes.Equal(src, again) {
			c.fail(it.gs+" rule "+it.rule, "", "generating twice gives different sources (%v)", err)
			continue
		}
		srcs[i] = string(src)
		os.MkdirAll(filepath.Join(dir, pkg), 0o755)
		os.WriteFile(filepath.Join(dir, pkg, "p.go"), src, 0o644)
		fmt.Fprintf(&imports, "\t\"gen/%s\"\n", pkg)
		fmt.Fprintf(&cases, c18case, i)
		n++
	}
	if n == 0 {
		return
	}
	m := strings.NewReplacer("IMPORTS", imports.String(), "CASES", cases.String()).Replace(c18main)
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(m), 0o644)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module gen\n\ngo 1.21\n"), 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
	defer cancel()
	c.at("compiling", "")
	cmd := exec.CommandContext(ctx, "go", "build", "-o", "prog", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	outp, err := cmd.CombinedOutput()
	if err != nil {
		mm := rePkg.FindStringSubmatch(string(outp))
		if mm == nil {
			c.fail("", "", "the generated parsers could not be compiled: %v\n%s", err, outp)
			return
		}
		var i int
		fmt.Sscan(mm[1], &i)
		if i < len(items) {
			c.fail(items[i].gs+" rule "+items[i].rule, "", "the generated parser does not compile: %s", outp)
		}
		return
	}
	var qs []c18query
	for i, it := range items {
		if srcs[i] == "" {
			continue
		}
		for _, in := range c.inputs(it.r, it.rule, 12, 10) {
			b := 0
			switch c.pick(4) {
			case 0:
				b = 1 + c.pick(30)
			case 1:
				b = 1 << 20
			}
			if in == nil {
				in = []byte{}
			}
			qs = append(qs, c18query{i, in, b})
		}
	}
	data, _ := json.Marshal(qs)
	run := exec.CommandContext(ctx, filepath.Join(dir, "prog"))
	run.Stdin = bytes.NewReader(data)
	var stderr bytes.Buffer
	run.Stderr = &stderr
	c.at("running", "")
	outp, err = run.Output()
	dec := json.NewDecoder(bytes.NewReader(outp))
	for k, qq := range qs {
		it := items[qq.Pkg]
		gs := it.gs + " rule " + it.rule
		var a c18answer
		if derr := dec.Decode(&a); derr != nil {
			s := stderr.String()
			if len(s) > 1500 {
				s = s[:1500]
			}
			c.fail(gs, q(qq.Input), "the generated parser died on query %d: %v\n%s", k, err, s)
			return
		}
		in := qq.Input
		c.at(gs, q(in))
		if a.Panic != "" {
			c.fail(gs, q(in), "the generated parser panics: %s", a.Panic)
			continue
		}
		b, berr := abnf.ParseBSR(in, it.g, it.rule)
		if berr != nil {
			c.fail(gs, q(in), "ParseBSR: %v", berr)
			continue
		}
		want := it.r.table(in).derives(it.rule)
		c.eval(want, gs, string(in), itoa(qq.Budget))
		if a.Err != "" {
			if !a.TooLarge || qq.Budget == 0 || (qq.Budget == 1<<20 && b.Nodes() < 1<<19) {
				c.fail(gs, q(in), "generated Parse with element budget %d: %s", qq.Budget, a.Err)
			}
			continue
		}
		if qq.Budget > 0 && a.Elements > qq.Budget {
			c.fail(gs, q(in), "generated Parse with element budget %d keeps %d", qq.Budget, a.Elements)
		}
		if a.Valid != b.Valid() || a.Num != b.NumTrees().String() || a.Ambiguous != b.Ambiguous() {
			c.fail(gs, q(in), "generated parser (budget %d): valid %v, trees %s, ambiguous %v; library: %v, %s, %v", qq.Budget, a.Valid, a.Num, a.Ambiguous, b.Valid(), b.NumTrees(), b.Ambiguous())
			continue
		}
		if a.Valid != want {
			c.fail(gs, q(in), "generated parser: valid %v, the rule derives the input: %v", a.Valid, want)
		}
		if !a.Ambiguous && a.Tree != treeStr(b.Tree()) {
			c.fail(gs, q(in), "generated parser: tree %s, library %s", a.Tree, treeStr(b.Tree()))
		}
	}
}
