// Command goverus extracts Go functions from a package, joins them with
// contracts kept in .gvc files and emits Verus proof functions whose
// verification conditions are exactly those of the extracted code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
)

type fnReport struct {
	Key    string   `json:"key"`
	Pos    string   `json:"pos"`
	Error  string   `json:"error,omitempty"`
	Moved  string   `json:"moved,omitempty"`
	Locals []string `json:"locals,omitempty"`
	Loops  int      `json:"loops"`
	Lines  int      `json:"lines"`
	Verus  string   `json:"verus"`
	First  int      `json:"first_line"`
	Last   int      `json:"last_line"`
}

type report struct {
	Functions   []fnReport    `json:"functions"`
	Obligations []*obligation `json:"obligations"`
	Trusted     []string      `json:"trusted"`
	Stubs       []string      `json:"stubs"`
	Inlined     []string      `json:"inlined"`
	Fatal       string        `json:"fatal,omitempty"`
}

type baseline struct {
	Funcs  []string            `json:"funcs"`
	Locals map[string][]string `json:"locals"`
	Inner  map[string][]string `json:"inner,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "package directory")
	cfiles := flag.String("contracts", "", "comma separated .gvc files")
	preludes := flag.String("prelude", "", "comma separated .rs files")
	targets := flag.String("targets", "", "comma separated function keys (empty: every func contract)")
	out := flag.String("out", "", "generated Verus file")
	mapf := flag.String("map", "", "obligation map (JSON)")
	initial := flag.String("init", "", "comma separated package variables whose initial value is extracted")
	given := flag.String("given", "", "comma separated .rs files of -prelude whose lemmas are taken as proved (they are proved in another run), or all")
	lemmas := flag.Bool("lemmas", false, "only the lemmas are to be proved: the functions are proved in another run")
	smoke := flag.Bool("smoke", false, "emit reachability probes that must fail")
	basef := flag.String("baseline", "", "baseline names (JSON) used to follow renames")
	writeBase := flag.String("write-baseline", "", "write baseline names to this file")
	flag.Parse()
	rep := &report{}
	finish := func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *mapf != "" {
			if err := os.WriteFile(*mapf, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	}
	pr, err := loadProgram(*repo)
	if err != nil {
		rep.Fatal = "load: " + err.Error()
		finish()
		fmt.Fprintln(os.Stderr, rep.Fatal)
		os.Exit(3)
	}
	cs, err := loadContracts(split(*cfiles))
	if err != nil {
		rep.Fatal = "contracts: " + err.Error()
		finish()
		fmt.Fprintln(os.Stderr, rep.Fatal)
		os.Exit(3)
	}
	var bl baseline
	if *basef != "" {
		if b, err := os.ReadFile(*basef); err == nil {
			_ = json.Unmarshal(b, &bl)
		}
	}
	t := &tr{pr: pr, cs: cs, structs: map[string]string{}, needIfc: map[string]bool{}, smoke: *smoke,
		stubs: map[string]bool{}, globals: map[string]string{}, initial: map[string]bool{}, inDecl: map[string]bool{}, inlined: map[string]bool{}}
	for _, g := range split(*initial) {
		t.initial[g] = true
		cs.d.globals[g] = true
	}
	var keys []string
	if *targets == "" {
		for _, k := range cs.keys() {
			if !cs.fns[k].trusted {
				keys = append(keys, k)
			}
		}
	} else {
		keys = split(*targets)
	}
	t.follow(bl.Funcs)
	t.capRen = map[string]map[string]string{}
	inner := map[string][]string{}
	for k := range cs.fns {
		if o, _, _ := strings.Cut(k, "$"); pr.decls[o] != nil && inner[o] == nil {
			inner[o] = t.innerNames(pr.decls[o])
			t.capRen[o] = typedRenames(bl.Inner[o], inner[o])
		}
	}
	var gs []string
	for g := range cs.d.globals {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if v, ok := pr.pkg.Scope().Lookup(g).(*types.Var); ok {
			if _, ok := t.tryVT(v.Type()); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							rep.Fatal = fmt.Sprint("package variable "+g+": ", r)
						}
					}()
					t.global(v)
				}()
			}
		}
	}
	for _, tn := range cs.types {
		if tn == "error" {
			t.needIface("error")
			continue
		}
		if o := pr.pkg.Scope().Lookup(tn); o != nil {
			t.tryVT(o.Type())
		}
	}
	var bodies []line
	seenLocals := map[string][]string{}
	for _, k := range keys {
		c := cs.fns[k]
		r := fnReport{Key: k}
		if c == nil {
			r.Error = "no contract"
			rep.Functions = append(rep.Functions, r)
			continue
		}
		if m := t.moved[k]; m != "" {
			r.Moved = m
		}
		ls, f, err := t.translate(c, nil)
		if f != nil {
			seenLocals[k] = f.declared
			ren := renames(bl.Locals[k], f.declared)
			if ren == nil {
				o, _, _ := strings.Cut(k, "$")
				ren = t.capRen[o]
			}
			if len(ren) > 0 && err == nil {
				ls, f, err = t.translate(c, ren)
			}
		}
		if err != nil {
			r.Error = err.Error()
			rep.Functions = append(rep.Functions, r)
			continue
		}
		r.Pos = f.pos
		r.Loops = f.loopN
		r.Lines = f.srcLines
		r.Verus = vfn(k) + "__body"
		r.Locals = f.declared
		r.First = len(bodies)
		bodies = append(bodies, ls...)
		r.Last = len(bodies)
		rep.Functions = append(rep.Functions, r)
	}
	if *writeBase != "" {
		nb := baseline{Locals: seenLocals, Inner: inner}
		for k := range pr.decls {
			nb.Funcs = append(nb.Funcs, k)
		}
		sort.Strings(nb.Funcs)
		b, _ := json.MarshalIndent(nb, "", " ")
		_ = os.WriteFile(*writeBase, b, 0o644)
	}
	// stubs (stub headers may need further types)
	var stubText []string
	var sk []string
	for k := range t.stubs {
		sk = append(sk, k)
	}
	sort.Strings(sk)
	for _, k := range sk {
		s, err := t.stub(cs.fns[k])
		if err != nil {
			rep.Functions = append(rep.Functions, fnReport{Key: k, Error: "stub: " + err.Error()})
			continue
		}
		stubText = append(stubText, s)
		rep.Stubs = append(rep.Stubs, k)
		if cs.fns[k].trusted {
			rep.Trusted = append(rep.Trusted, k)
		}
	}
	for k := range t.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Inlined)
	var b strings.Builder
	b.WriteString("#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]\n")
	b.WriteString("use vstd::prelude::*;\nverus! {\n")
	for _, p := range split(*preludes) {
		data, err := os.ReadFile(p)
		if err != nil {
			rep.Fatal = err.Error()
			finish()
			os.Exit(3)
		}
		text := string(data)
		if *given == "all" || slices.Contains(split(*given), p) {
			text = strings.ReplaceAll(text, "\npub proof fn ", "\n#[verifier::external_body] pub proof fn ")
		}
		b.WriteString(text)
		b.WriteString("\n")
	}
	b.WriteString(t.declsText())
	var gk []string
	for k := range t.globals {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		b.WriteString(t.globals[k] + "\n")
	}
	for _, s := range stubText {
		b.WriteString(s)
	}
	n := strings.Count(b.String(), "\n")
	for i := range rep.Functions {
		if rep.Functions[i].Verus != "" {
			rep.Functions[i].First += n + 1
			rep.Functions[i].Last += n
		}
	}
	for _, l := range bodies {
		n++
		if *lemmas && strings.HasPrefix(l.text, "pub proof fn ") {
			b.WriteString("#[verifier::external_body] ")
		}
		b.WriteString(l.text + "\n")
		if l.ob != nil {
			l.ob.Line = n
			rep.Obligations = append(rep.Obligations, l.ob)
		}
	}
	b.WriteString("} // verus!\nfn main() {}\n")
	if *out != "" {
		if err := os.WriteFile(*out, []byte(b.String()), 0o644); err != nil {
			rep.Fatal = err.Error()
		}
	}
	finish()
	for _, r := range rep.Functions {
		if r.Error != "" {
			fmt.Fprintf(os.Stderr, "%s: %s\n", r.Key, r.Error)
		}
	}
}

func split(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// renames maps baseline local names that vanished to new local names, in order.
func renames(base, cur []string) map[string]string {
	if len(base) == 0 {
		return nil
	}
	uniq := func(a []string) []string {
		var o []string
		s := map[string]bool{}
		for _, x := range a {
			if !s[x] {
				s[x] = true
				o = append(o, x)
			}
		}
		return o
	}
	in := func(a []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range a {
			m[x] = true
		}
		return m
	}
	bi, ci := in(base), in(cur)
	var gone, added []string
	for _, x := range uniq(base) {
		if !ci[x] {
			gone = append(gone, x)
		}
	}
	for _, x := range uniq(cur) {
		if !bi[x] {
			added = append(added, x)
		}
	}
	if len(gone) == 0 || len(gone) != len(added) {
		return nil
	}
	m := map[string]string{}
	for i := range gone {
		m[gone[i]] = vname(added[i])
	}
	return m
}

// follow re-homes the contract of a function that no longer exists onto the
// only new function with the same receiver and signature.
func (t *tr) follow(known []string) {
	t.moved = map[string]string{}
	t.home = map[string]string{}
	if len(known) == 0 {
		return
	}
	kn := map[string]bool{}
	for _, k := range known {
		kn[k] = true
	}
	sigOf := func(k string) string {
		for o, kk := range t.pr.objs {
			if kk == k {
				s := o.Type().(*types.Signature)
				r := ""
				if s.Recv() != nil {
					r = s.Recv().Type().String()
				}
				return r + "|" + types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
			}
		}
		return ""
	}
	var fresh []string
	for k := range t.pr.decls {
		if !kn[k] {
			fresh = append(fresh, k)
		}
	}
	sort.Strings(fresh)
	for _, k := range t.cs.keys() {
		c := t.cs.fns[k]
		if c.trusted || strings.Contains(k, "$") || t.pr.decls[k] != nil || !kn[k] {
			continue
		}
		var cand []string
		for _, n := range fresh {
			np := strings.Count(n, ".")
			if np == strings.Count(k, ".") && (np == 0 || strings.Split(n, ".")[0] == strings.Split(k, ".")[0]) && nparams(t, n) == len(c.params) {
				cand = append(cand, n)
			}
		}
		if len(cand) == 1 && sigOf(cand[0]) != "" {
			t.moved[k] = cand[0]
			t.home[cand[0]] = k
			t.pr.decls[k] = t.pr.decls[cand[0]]
		}
	}
}

func nparams(t *tr, k string) int {
	for o, kk := range t.pr.objs {
		if kk == k {
			return len(sigParams(o.Type().(*types.Signature)))
		}
	}
	return -1
}

type pdesc struct {
	name string // contract name
	v    *types.Var
	mode string
	vt   string
}

// header computes parameters, results and the clause wrapper of a contract.
type hdr struct {
	ps    []pdesc
	sig   *types.Signature
	resT  []string
	resN  []string
	extra []string // result names for inouts and heaps
	lit   *ast.FuncLit
	decl  *ast.FuncDecl
	iface string
	outer string
}

func (t *tr) header(c *contract) (h *hdr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	h = &hdr{}
	key := c.key
	var ps []*types.Var
	switch {
	case strings.Contains(key, "$"):
		o, cl, _ := strings.Cut(key, "$")
		d := t.pr.decls[o]
		if d == nil {
			fail("function %s not found", o)
		}
		h.outer = o
		h.lit, _ = findClosure(t, d, t.curName(o, cl))
		if h.lit == nil {
			fail("closure %s not found in %s", cl, o)
		}
		h.sig = t.pr.info.Types[h.lit].Type.(*types.Signature)
		ps = sigParams(h.sig)
	default:
		if i := strings.Index(key, "."); i > 0 {
			if _, ok := t.cs.d.ifaces[key[:i]]; ok {
				h.iface = key[:i]
			}
		}
		if h.iface != "" && h.iface != "error" {
			o := t.pr.pkg.Scope().Lookup(h.iface)
			m, _, _ := types.LookupFieldOrMethod(o.Type(), true, t.pr.pkg, key[len(h.iface)+1:])
			fm, ok := m.(*types.Func)
			if !ok {
				fail("interface method %s not found", key)
			}
			h.sig = fm.Type().(*types.Signature)
			ps = sigParams(h.sig)
			ps[0] = types.NewVar(token.NoPos, t.pr.pkg, c.params[0].name, o.Type())
			break
		}
		if d := t.pr.decls[key]; d != nil {
			h.decl = d
			h.sig = t.pr.info.Defs[d.Name].(*types.Func).Type().(*types.Signature)
			ps = sigParams(h.sig)
		} else if sg := t.ext[key]; sg != nil {
			h.sig = sg
			ps = sigParams(h.sig)
		} else {
			fail("function %s not found", key)
		}
	}
	if len(ps) != len(c.params) {
		fail("contract names %d parameters, code has %d", len(c.params), len(ps))
	}
	for i, p := range ps {
		pt := p.Type()
		if s := h.sig.Recv(); s != nil && i == 0 {
			if rt, ok := t.recvOverride[key]; ok {
				pt = rt
			}
		}
		mode := t.paramMode(c, h.sig, i, pt)
		h.ps = append(h.ps, pdesc{c.params[i].name, p, mode, t.paramVT(mode, pt)})
	}
	if h.lit != nil {
		for _, cp := range c.captured {
			v := capturedVar(t, h.lit, t.curName(h.outer, cp.name), t.pr.decls[h.outer])
			if v == nil {
				fail("closure %s does not use captured variable %s", key, cp.name)
			}
			mode := cp.mode
			if mode == "" {
				if _, ok := isPtr(v.Type()); ok {
					if _, hp := t.isHeapPtr(v.Type()); !hp {
						mode = "nn"
					}
				}
			}
			h.ps = append(h.ps, pdesc{cp.name, v, mode, t.paramVT(mode, v.Type())})
		}
	}
	for i := 0; i < h.sig.Results().Len(); i++ {
		h.resT = append(h.resT, t.vt(h.sig.Results().At(i).Type()))
		n := fmt.Sprintf("ret%d", i)
		if i < len(c.results) {
			n = vname(c.results[i])
		}
		h.resN = append(h.resN, n)
	}
	for _, p := range h.ps {
		if p.mode == "inout" {
			h.extra = append(h.extra, "new_"+p.name)
			h.resT = append(h.resT, p.vt)
			h.resN = append(h.resN, "new_"+p.name)
		}
	}
	for _, x := range c.mods {
		h.resT = append(h.resT, t.heapVT(x))
		h.resN = append(h.resN, "new_H_"+vtn(x))
	}
	return h, nil
}

func (t *tr) heapVT(x string) string {
	if x == "big.Int" {
		return "Map<int, int>"
	}
	o := t.pr.pkg.Scope().Lookup(x)
	if o == nil {
		fail("heap type %s not found", x)
	}
	return "Map<int, " + t.vt(o.Type()) + ">"
}

// innerNames lists the variables a function declares, closures included, in
// source order.
func (t *tr) innerNames(d *ast.FuncDecl) []string {
	var out []string
	ast.Inspect(d, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := t.pr.info.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
				out = append(out, id.Name+" "+types.TypeString(v.Type(), types.RelativeTo(t.pr.pkg)))
			}
		}
		return true
	})
	return out
}

// typedRenames is renames for "name type" lists: a vanished name is matched
// with a new one of its type, in order, where there are as many of each.
func typedRenames(base, cur []string) map[string]string {
	names := func(a []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range a {
			n, _, _ := strings.Cut(x, " ")
			m[n] = true
		}
		return m
	}
	bi, ci := names(base), names(cur)
	if len(base) == 0 {
		return nil
	}
	pick := func(a []string, not map[string]bool) map[string][]string {
		m := map[string][]string{}
		s := map[string]bool{}
		for _, x := range a {
			n, ty, _ := strings.Cut(x, " ")
			if !not[n] && !s[n] {
				s[n] = true
				m[ty] = append(m[ty], n)
			}
		}
		return m
	}
	gone, added := pick(base, ci), pick(cur, bi)
	out := map[string]string{}
	for ty, g := range gone {
		if a := added[ty]; len(a) == len(g) {
			for i := range g {
				out[g[i]] = a[i]
			}
		}
	}
	return out
}

// curName is what a variable of function o named in the contracts is called now.
func (t *tr) curName(o, n string) string {
	if m := t.capRen[o][n]; m != "" {
		return m
	}
	return n
}

func (t *tr) baseName(o, n string) string {
	for b, c := range t.capRen[o] {
		if c == n {
			return b
		}
	}
	return n
}

func findClosure(t *tr, d *ast.FuncDecl, name string) (*ast.FuncLit, *types.Var) {
	var res *ast.FuncLit
	var rv *types.Var
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if i < len(x.Rhs) {
					if fl, ok := x.Rhs[i].(*ast.FuncLit); ok {
						if id, ok := l.(*ast.Ident); ok && id.Name == name {
							res = fl
							rv, _ = t.pr.info.ObjectOf(id).(*types.Var)
						}
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if i < len(x.Values) {
					if fl, ok := x.Values[i].(*ast.FuncLit); ok && id.Name == name {
						res = fl
						rv, _ = t.pr.info.ObjectOf(id).(*types.Var)
					}
				}
			}
		}
		return true
	})
	return res, rv
}

func capturedVar(t *tr, lit *ast.FuncLit, name string, outer *ast.FuncDecl) *types.Var {
	var res *types.Var
	find := func(n ast.Node, inside bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok && id.Name == name {
				if v, ok := t.pr.info.ObjectOf(id).(*types.Var); ok && !v.IsField() {
					if v.Pos() < lit.Pos() || v.Pos() >= lit.End() {
						if res == nil {
							res = v
						}
					}
				}
			}
			return true
		})
	}
	find(lit.Body, true)
	if res == nil && outer != nil {
		find(outer, false)
	}
	return res
}

func (h *hdr) resType() string {
	switch len(h.resT) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf(" -> (%s: %s)", h.resN[0], h.resT[0])
	}
	return fmt.Sprintf(" -> (res: (%s))", strings.Join(h.resT, ", "))
}

func (h *hdr) wrap(s string) string {
	s = oneLine(s)
	if len(h.resT) < 2 {
		return "(" + s + "),"
	}
	var ls []string
	for i, n := range h.resN {
		ls = append(ls, fmt.Sprintf("let %s = res.%d;", n, i))
	}
	return "({ " + strings.Join(ls, " ") + " " + s + " }),"
}

func (t *tr) params(c *contract, h *hdr) string {
	var ps []string
	for _, p := range h.ps {
		ps = append(ps, vname(p.name)+": "+p.vt)
	}
	for _, x := range c.mods {
		ps = append(ps, "H_"+vtn(x)+": "+t.heapVT(x))
	}
	for _, x := range c.heaps {
		ps = append(ps, "H_"+vtn(x)+": "+t.heapVT(x))
	}
	return strings.Join(ps, ", ")
}

func (t *tr) stub(c *contract) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	h, err := t.header(c)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	b.WriteString("#[verifier::external_body]\n")
	fmt.Fprintf(&b, "pub proof fn %s(%s)%s\n", vfn(c.key), t.params(c, h), h.resType())
	if len(c.requires) > 0 {
		b.WriteString("  requires\n")
		for _, r := range c.requires {
			b.WriteString("    (" + oneLine(r.text) + "),\n")
		}
	}
	if len(c.ensures) > 0 {
		b.WriteString("  ensures\n")
		for _, r := range c.ensures {
			b.WriteString("    " + h.wrap(r.text) + "\n")
		}
	}
	b.WriteString("{ unimplemented!() }\n")
	return b.String(), nil
}

// translate emits the verified body of one contract.
func (t *tr) translate(c *contract, ren map[string]string) (out []line, f *fn, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	h, err := t.header(c)
	if err != nil {
		return nil, nil, err
	}
	f = &fn{t: t, c: c, key: c.key, vars: map[*types.Var]*lvar{}, ordN: map[string]int{}, sig: h.sig,
		closures: map[*types.Var]string{}, closureOf: c.key, rename: map[string]string{}}
	for k, v := range ren {
		f.rename[k] = v
	}
	f.emit("#[verifier::spinoff_prover]")
	f.emit("pub proof fn %s__body(%s)%s", vfn(c.key), t.params(c, h), h.resType())
	if len(c.requires) > 0 {
		f.emit("  requires")
		for _, r := range c.requires {
			f.emit("    (%s),", oneLine(r.text))
		}
	}
	if len(c.ensures) > 0 {
		f.emit("  ensures")
		for _, r := range c.ensures {
			o := f.ob("post", nil, r.text)
			o.Pos = r.at
			f.lines = append(f.lines, line{text: "    " + h.wrap(r.text), ob: o})
		}
	}
	f.emit("{")
	f.ind++
	for _, n := range c.hide {
		f.emit("hide(%s);", n)
	}
	if h.iface != "" {
		t.dispatch(f, c, h)
		f.ind--
		f.emit("}")
		return f.lines, f, nil
	}
	var body *ast.BlockStmt
	if h.lit != nil {
		body = h.lit.Body
		f.closureOf = h.outer
		f.pos = t.pr.pos(h.lit)
		f.bindAllClosures(t.pr.decls[h.outer])
	} else {
		body = h.decl.Body
		f.pos = t.pr.pos(h.decl)
		f.bindAllClosures(h.decl)
	}
	if body == nil {
		fail("no body")
	}
	f.srcLines = t.pr.fset.Position(body.End()).Line - t.pr.fset.Position(body.Pos()).Line + 1
	if hasDefer(body) {
		fail("defer, go, select or channel statement")
	}
	for i, p := range h.ps {
		cn := vname(p.name)
		f.emit("let %s0 = %s;", p.name, cn)
		gn := vname(p.v.Name())
		if gn == "" || gn == "_" {
			gn = fmt.Sprintf("unused_%d", i)
		}
		if gn != cn {
			if _, dup := f.rename[p.name]; !dup {
				f.rename[p.name] = gn
			}
		}
		f.emit("let mut %s = %s0;", gn, p.name)
		kind := plain
		if p.mode == "nn" || p.mode == "inout" {
			if _, ok := isPtr(p.v.Type()); ok {
				if _, hp := t.isHeapPtr(p.v.Type()); !hp {
					if _, op := t.isOpaque(p.v.Type()); !op {
						kind = derefd
					}
				}
			}
		}
		f.vars[p.v] = &lvar{name: gn, kind: kind}
		if p.mode == "inout" {
			f.inouts = append(f.inouts, gn)
		} else if p.mode != "out" && !reassigned(t.pr.info, body, p.v) {
			if f.roParams == nil {
				f.roParams = map[string]roParam{}
			}
			f.roParams[gn] = roParam{t: p.v.Type(), deref: kind == derefd}
		}
		f.typeFacts(gn, p.v.Type())
	}
	for _, x := range c.mods {
		f.emit("let mut H_%s = H_%s;", vtn(x), vtn(x))
		f.emit("let H_%s0 = H_%s;", vtn(x), vtn(x))
		f.inouts = append(f.inouts, "H_"+vtn(x))
	}
	for i := 0; i < h.sig.Results().Len(); i++ {
		rv := h.sig.Results().At(i)
		if rv.Name() != "" && rv.Name() != "_" {
			f.declare(rv, t.zero(rv.Type()))
			f.named = append(f.named, rv)
		}
	}
	f.smokePoint("entry", body)
	for _, g := range c.ghost["entry"] {
		f.emit("%s", oneLine(f.names(g)))
	}
	f.block(body.List)
	if h.sig.Results().Len() == 0 {
		f.emitReturn(nil)
	} else {
		f.emit("assume(false); arbitrary()")
	}
	f.ind--
	f.emit("}")
	return f.lines, f, nil
}

func hasDefer(b *ast.BlockStmt) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.DeferStmt, *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
			bad = true
		}
		return true
	})
	return bad
}

func (f *fn) bindAllClosures(d *ast.FuncDecl) {
	if d == nil || d.Body == nil {
		return
	}
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if i < len(x.Rhs) {
					if _, ok := x.Rhs[i].(*ast.FuncLit); ok {
						if id, ok := l.(*ast.Ident); ok {
							if v, ok := f.t.pr.info.ObjectOf(id).(*types.Var); ok {
								f.closures[v] = f.closureOf + "$" + f.t.baseName(f.closureOf, id.Name)
							}
						}
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if i < len(x.Values) {
					if _, ok := x.Values[i].(*ast.FuncLit); ok {
						if v, ok := f.t.pr.info.ObjectOf(id).(*types.Var); ok {
							f.closures[v] = f.closureOf + "$" + f.t.baseName(f.closureOf, id.Name)
						}
					}
				}
			}
		}
		return true
	})
}

// typeFacts states what a parameter's Go type guarantees.
func (f *fn) typeFacts(name string, ty types.Type) {
	if lo, hi, ok := intRange(ty, f.c.checked); ok {
		f.emit("assume(%s <= %s <= %s);", lo, name, hi)
		return
	}
	if isString(ty) {
		f.emit("assume(byte_seq(%s));", name)
		return
	}
	if el, ok := isSlice(ty); ok && isKind(el, types.Uint8) {
		f.emit("assume(byte_seq(%s));", name)
	}
}

// dispatch emits the body of an interface method: one call per variant.
func (t *tr) dispatch(f *fn, c *contract, h *hdr) {
	ifc := h.iface
	m := c.key[len(ifc)+1:]
	v := vname(h.ps[0].name)
	o := t.pr.pkg.Scope().Lookup(ifc)
	_ = o
	for _, vr := range t.cs.d.ifaces[ifc] {
		base := strings.TrimPrefix(vr, "*")
		bt := t.pr.pkg.Scope().Lookup(base)
		if bt == nil {
			fail("type %s not found", base)
		}
		mo, _, _ := types.LookupFieldOrMethod(types.NewPointer(bt.Type()), true, t.pr.pkg, m)
		fm, ok := mo.(*types.Func)
		if !ok {
			fail("%s has no method %s", base, m)
		}
		k := funcKey(fm)
		cc := t.cs.fns[k]
		if cc == nil {
			fail("no contract for %s (variant of %s)", k, c.key)
		}
		t.stubs[k] = true
		var as []string
		as = append(as, fmt.Sprintf("%s->%s_0", v, t.ifaceVariant(vr)))
		for _, p := range h.ps[1:] {
			as = append(as, vname(p.name))
		}
		f.emit("if %s is %s {", v, t.ifaceVariant(vr))
		ob := f.ob("pre:"+k, nil, c.key+" dispatches to "+k)
		ret := "return "
		if len(h.resT) == 0 {
			ret = ""
		}
		f.lines = append(f.lines, line{text: fmt.Sprintf("  %s%s(%s);", ret, vfn(k), strings.Join(as, ", ")), ob: ob})
		f.emit("}")
	}
	f.assert(fmt.Sprintf("!(%s is Nil)", v), "nil-deref", nil, "method call on a nil "+ifc)
	f.emit("assume(!(%s is Other));", v)
	f.emit("assert(false);")
	if len(h.resT) > 0 {
		f.emit("arbitrary()")
	}
}

// reassigned tells whether the variable itself is given another value in body.
func reassigned(info *types.Info, body ast.Node, v *types.Var) bool {
	found := false
	is := func(e ast.Expr) bool {
		id, ok := unparen(e).(*ast.Ident)
		return ok && info.ObjectOf(id) == v
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if is(l) {
					found = true
				}
			}
		case *ast.RangeStmt:
			if x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value) {
				found = true
			}
		}
		return true
	})
	return found
}
