package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

type obligation struct {
	Name string `json:"name"`
	Func string `json:"func"`
	Kind string `json:"kind"`
	Pos  string `json:"pos"`
	Text string `json:"text"`
	Line int    `json:"line"`
}

type line struct {
	text string
	ob   *obligation
}

type vkind int

const (
	plain vkind = iota
	derefd
	alias
)

type lvar struct {
	name string
	kind vkind
	p    path
	// why the variable can no longer be followed: the map it was read from has
	// been changed (gone) or may have been changed by a call (stale)
	gone, stale bool
}

type pstep struct {
	kind byte // f field, i seq index, m map key, o option deref
	s    string
	T    types.Type // type after the step
	vt   string     // struct verus name for 'f'
	box  bool       // the model breaks a recursive type here
}

type roParam struct {
	t     types.Type
	deref bool
}

type path struct {
	base  string
	steps []pstep
	T     types.Type
	obj   *types.Var
}

type frame struct {
	kind  string // loop, switch, inline
	label string
	brk   string
	cont  string
	used  bool
	// inline:
	res  []string
	resT []types.Type
}

type fn struct {
	noAsserts bool // translating an expression whose run-time conditions were asserted already
	// locals asserted to fmt.Stringer, seen as the interface they came from
	seenAs     map[types.Object]types.Type
	fresh      map[*types.Var]bool // locals initialised with a new object
	nret       int                 // returns emitted so far
	t          *tr
	c          *contract
	key        string
	lines      []line
	ind        int
	vars       map[*types.Var]*lvar
	frames     []*frame
	loopN      int
	tmpN       int
	ordN       map[string]int
	sig        *types.Signature
	roParams   map[string]roParam // parameters whose referents the contract says are not changed
	inouts     []string           // verus names of inout values, returned in order
	named      []*types.Var
	stack      []string
	localTypes []string
	closureOf  string
	closures   map[*types.Var]string // local closure variable -> contract key
	rename     map[string]string
	declared   []string
	pos        string
	srcLines   int
}

func (f *fn) emit(format string, a ...any) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	f.lines = append(f.lines, line{text: strings.Repeat("  ", f.ind) + s})
}

func (f *fn) ob(kind string, n ast.Node, text string) *obligation {
	f.ordN[kind]++
	pos, src := "", text
	if n != nil {
		pos = f.t.pr.pos(n)
		if text == "" {
			src = f.t.pr.src(n)
		} else {
			src = text
		}
	}
	return &obligation{Name: fmt.Sprintf("%s/%s#%d", f.key, kind, f.ordN[kind]), Func: f.key, Kind: kind, Pos: pos, Text: src}
}

func (f *fn) assert(cond, kind string, n ast.Node, text string) {
	o := f.ob(kind, n, text)
	f.lines = append(f.lines, line{text: strings.Repeat("  ", f.ind) + "assert(" + oneLine(cond) + ");", ob: o})
}

func oneLine(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, "\n", " ")), " ")
}

func (f *fn) tmp(pfx string) string { f.tmpN++; return fmt.Sprintf("%s_t%d", pfx, f.tmpN) }

// onlyAsserts says that no line binds a name.
func onlyAsserts(ls []line) bool {
	for _, l := range ls {
		if strings.Contains(l.text, "let ") {
			return false
		}
	}
	return true
}

func (f *fn) capture(g func() string) ([]line, string) {
	save := f.lines
	f.lines = nil
	r := g()
	got := f.lines
	f.lines = save
	return got, r
}

func (f *fn) typ(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok && len(f.seenAs) > 0 {
		if t, ok := f.seenAs[f.t.pr.info.ObjectOf(id)]; ok {
			return t
		}
	}
	tv, ok := f.t.pr.info.Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.t.pr.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	fail("no type for %s", f.t.pr.src(e))
	return nil
}

func (f *fn) obj(id *ast.Ident) *types.Var {
	o := f.t.pr.info.ObjectOf(id)
	v, _ := o.(*types.Var)
	return v
}

func strLit(s string) string {
	if s == "" {
		return "Seq::<int>::empty()"
	}
	var ps []string
	for i := 0; i < len(s); i++ {
		ps = append(ps, fmt.Sprintf("%dint", s[i]))
	}
	return "seq![" + strings.Join(ps, ", ") + "]"
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isSlice(t types.Type) (types.Type, bool) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem(), true
	case *types.Array:
		return u.Elem(), true
	}
	return nil, false
}
func isKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}
func isMap(t types.Type) (*types.Map, bool) {
	m, ok := t.Underlying().(*types.Map)
	return m, ok
}
func isPtr(t types.Type) (types.Type, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// ---- paths ----

func (p path) read() string {
	s := p.base
	for _, st := range p.steps {
		switch st.kind {
		case 'f':
			s += "." + st.s
			if st.box {
				s = "(*" + s + ")"
			}
		case 'i', 'm':
			s += "[" + st.s + "]"
		case 'o':
			s += "->0"
		}
	}
	return s
}

func (p path) add(st pstep) path {
	n := path{base: p.base, obj: p.obj, T: st.T}
	n.steps = append(append([]pstep(nil), p.steps...), st)
	return n
}

// readOnly refuses a write the caller would see but the contract does not mention:
// through a pointer, map or slice parameter that is not inout.
func (f *fn) readOnly(p path) {
	r, ok := f.roParams[p.base]
	if !ok {
		return
	}
	through := r.deref
	t := r.t
	for _, st := range p.steps {
		switch st.kind {
		case 'o', 'm':
			through = true
		case 'i':
			if _, ok := t.Underlying().(*types.Slice); ok {
				through = true
			}
		}
		t = st.T
	}
	if through {
		fail("writes through parameter %s, which is not inout", p.base)
	}
}

func (f *fn) write(p path, val string) {
	f.readOnly(p)
	var set func(cur string, steps []pstep) string
	set = func(cur string, steps []pstep) string {
		if len(steps) == 0 {
			return val
		}
		st := steps[0]
		switch st.kind {
		case 'f':
			if st.box {
				return fmt.Sprintf("%s { %s: Box::new(%s), ..%s }", st.vt, st.s, set("(*"+cur+"."+st.s+")", steps[1:]), cur)
			}
			return fmt.Sprintf("%s { %s: %s, ..%s }", st.vt, st.s, set(cur+"."+st.s, steps[1:]), cur)
		case 'i':
			return fmt.Sprintf("%s.update(%s, %s)", cur, st.s, set(cur+"["+st.s+"]", steps[1:]))
		case 'm':
			return fmt.Sprintf("%s.insert(%s, %s)", cur, st.s, set(cur+"["+st.s+"]", steps[1:]))
		case 'o':
			return fmt.Sprintf("Some(%s)", set(cur+"->0", steps[1:]))
		}
		return ""
	}
	f.emit("%s = %s;", p.base, set(p.base, p.steps))
}

func (f *fn) lookup(v *types.Var) *lvar {
	if l, ok := f.vars[v]; ok {
		if l.stale {
			fail("%s refers into a map that a call may have changed since", v.Name())
		}
		return l
	}
	return nil
}

// entryChanged is told that entries of the map at p are about to be replaced or
// deleted: a variable holding one of its inner maps keeps the inner map, so its
// value is taken now.
func (f *fn) entryChanged(p path) {
	for _, l := range f.sortedAliases() {
		if n := len(p.steps); l.p.base == p.base && len(l.p.steps) > n && samePath(l.p.steps[:n], p.steps) && l.p.steps[n].kind == 'm' && !(n == 0 && strings.HasPrefix(p.base, "H_")) {
			t := f.tmp("held")
			f.emit("let %s = %s;", t, f.readPath(l.p))
			*l = lvar{name: t, gone: true}
		}
	}
}

// pathChanged is told that the value at p as a whole is replaced.
func (f *fn) pathChanged(p path) {
	for _, l := range f.sortedAliases() {
		n := len(p.steps)
		if l.p.base != p.base || len(l.p.steps) <= n || !samePath(l.p.steps[:n], p.steps) {
			continue
		}
		for i, st := range l.p.steps[n:] {
			if st.kind == 'm' && !(n+i == 0 && strings.HasPrefix(p.base, "H_")) {
				l.stale = true
			}
		}
	}
}

func (f *fn) sortedAliases() []*lvar {
	var vs []*types.Var
	for v, l := range f.vars {
		if l.kind == alias {
			if _, ok := isMap(v.Type()); ok {
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	var out []*lvar
	for _, v := range vs {
		out = append(out, f.vars[v])
	}
	return out
}

func samePath(a, b []pstep) bool {
	for i := range a {
		if a[i].kind != b[i].kind || a[i].s != b[i].s {
			return false
		}
	}
	return true
}

func (f *fn) atom(e string) string {
	if regexp.MustCompile(`^[A-Za-z_0-9.]+$`).MatchString(e) {
		return e
	}
	if f.noAsserts {
		return "(" + e + ")"
	}
	t := f.tmp("a")
	f.emit("let %s = %s;", t, e)
	return t
}

// lval returns the path denoted by an addressable expression.
func (f *fn) lval(e ast.Expr) path {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.lval(x.X)
	case *ast.Ident:
		v := f.obj(x)
		if v == nil {
			fail("not a variable: %s", x.Name)
		}
		l := f.lookup(v)
		if l == nil {
			if f.t.cs.d.globals[v.Name()] {
				return path{base: f.t.global(v), T: v.Type(), obj: v}
			}
			fail("variable %s is outside the function (no global directive)", x.Name)
		}
		if l.gone {
			fail("%s is written or re-read by reference after the map it came from changed", x.Name)
		}
		switch l.kind {
		case alias:
			return l.p
		case derefd:
			el, _ := isPtr(v.Type())
			return path{base: l.name, T: el, obj: v}
		}
		return path{base: l.name, T: f.vtyp(v), obj: v}
	case *ast.StarExpr:
		return f.deref(x.X, x)
	case *ast.SelectorExpr:
		sel := f.t.pr.info.Selections[x]
		if sel == nil {
			fail("qualified identifier %s", f.t.pr.src(x))
		}
		if sel.Kind() != types.FieldVal {
			fail("method value %s", f.t.pr.src(x))
		}
		var base path
		bt := f.typ(x.X)
		if _, ok := isPtr(bt); ok {
			base = f.deref(x.X, x)
		} else if !f.addressable(x.X) {
			tmpv := f.tmp("s")
			f.emit("let mut %s = %s;", tmpv, f.expr(x.X))
			base = path{base: tmpv, T: bt}
		} else {
			base = f.lval(x.X)
		}
		cur := base
		idx := sel.Index()
		for k, i := range idx {
			ct := cur.T
			if el, ok := isPtr(ct); ok && k > 0 {
				if _, hp := f.t.isHeapPtr(ct); hp {
					fail("embedded heap pointer")
				}
				cur = cur.add(pstep{kind: 'o', T: el})
				ct = el
			}
			st, ok := ct.Underlying().(*types.Struct)
			if !ok {
				fail("selector on %s", ct)
			}
			n := namedOf(ct)
			if n == nil {
				fail("anonymous struct selector")
			}
			f.t.needStruct(n)
			fl := st.Field(i)
			if _, ok := f.t.tryVT(fl.Type()); !ok {
				fail("field %s.%s has an unsupported type", typeName(n), fl.Name())
			}
			cur = cur.add(pstep{kind: 'f', s: vname(fl.Name()), T: fl.Type(), vt: vtn(typeName(n)), box: f.t.boxed(n, fl.Type())})
		}
		return cur
	case *ast.IndexExpr:
		bt := f.typ(x.X)
		var base path
		if el, ok := isPtr(bt); ok {
			_ = el
			base = f.deref(x.X, x)
			bt = base.T
		} else if f.addressable(x.X) {
			base = f.lval(x.X)
		} else {
			tmpv := f.tmp("s")
			f.emit("let mut %s = %s;", tmpv, f.expr(x.X))
			base = path{base: tmpv, T: bt}
		}
		if m, ok := isMap(bt); ok {
			k := f.atom(f.convTo(x.Index, m.Key()))
			return base.add(pstep{kind: 'm', s: k, T: m.Elem()})
		}
		el, ok := isSlice(bt)
		if !ok {
			if isString(bt) {
				el = types.Typ[types.Uint8]
			} else {
				fail("index of %s", bt)
			}
		}
		i := f.atom(f.expr(x.Index))
		f.assert(fmt.Sprintf("0 <= %s < %s.len()", i, base.read()), "bounds", x, "")
		return base.add(pstep{kind: 'i', s: i, T: el})
	}
	fail("not addressable: %s", f.t.pr.src(e))
	return path{}
}

func (f *fn) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.addressable(x.X)
	case *ast.Ident:
		v := f.obj(x)
		return v != nil && (f.lookup(v) != nil || f.t.cs.d.globals[v.Name()])
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := f.t.pr.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := isPtr(f.typ(x.X)); ok {
			return true
		}
		return f.addressable(x.X)
	case *ast.IndexExpr:
		if tv, ok := f.t.pr.info.Types[x.X]; ok && tv.IsValue() {
			if _, ok := isMap(tv.Type); ok {
				return f.addressable(x.X)
			}
			return f.addressable(x.X)
		}
	}
	return false
}

// deref returns the path of *e.
func (f *fn) deref(e ast.Expr, at ast.Node) path {
	if pe, ok := e.(*ast.ParenExpr); ok {
		return f.deref(pe.X, at)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		return f.lval(u.X)
	}
	if id, ok := e.(*ast.Ident); ok {
		if v := f.obj(id); v != nil {
			if l := f.lookup(v); l != nil {
				if l.kind == derefd {
					el, _ := isPtr(v.Type())
					return path{base: l.name, T: el, obj: v}
				}
				if l.kind == alias {
					if _, ok := isPtr(v.Type()); ok {
						return l.p
					}
				}
			}
		}
	}
	pt := f.typ(e)
	el, ok := isPtr(pt)
	if !ok {
		fail("deref of non-pointer")
	}
	if hn, ok := f.t.isHeapPtr(pt); ok {
		f.t.vt(el)
		r := f.atom(f.expr(e))
		f.assert(r+" != 0", "nil-deref", at, "")
		f.emit("assume(H_%s.contains_key(%s));", vtn(hn), r)
		return path{base: "H_" + vtn(hn), T: nil, steps: nil}.add(pstep{kind: 'm', s: r, T: el})
	}
	if f.addressable(e) {
		p := f.lval(e)
		f.assert(p.read()+" is Some", "nil-deref", at, "")
		return p.add(pstep{kind: 'o', T: el})
	}
	v := f.tmp("p")
	f.emit("let mut %s = %s;", v, f.expr(e))
	f.assert(v+" is Some", "nil-deref", at, "")
	return path{base: v, T: pt}.add(pstep{kind: 'o', T: el})
}

// typed adds the Go type's range as a fact about a value that was read.
func (f *fn) typed(s string, t types.Type) string {
	if lo, hi, ok := intRange(t, f.c != nil && f.c.checked); ok {
		a := f.atom(s)
		f.emit("assume(%s <= %s <= %s);", lo, a, hi)
		return a
	}
	return s
}

// readMapSafe reads a path whose steps may cross maps with absent keys.
func (f *fn) readPath(p path) string {
	s := p.base
	for _, st := range p.steps {
		switch st.kind {
		case 'f':
			s += "." + st.s
			if st.box {
				s = "(*" + s + ")"
			}
		case 'i':
			s += "[" + st.s + "]"
		case 'o':
			s += "->0"
		case 'm':
			if strings.HasPrefix(s, "H_") && s == p.base {
				s += "[" + st.s + "]"
			} else {
				s = fmt.Sprintf("(if %s.contains_key(%s) { %s[%s] } else { %s })", s, st.s, s, st.s, f.t.zero(st.T))
			}
		}
	}
	if len(p.steps) > 0 {
		return f.typed(s, p.T)
	}
	return s
}

// convTo translates e and converts it to type to.
func (f *fn) convTo(e ast.Expr, to types.Type) string {
	if id, ok := e.(*ast.Ident); ok && id.Name == "nil" {
		if f.t.pr.info.Types[e].IsNil() {
			return f.t.zero(to)
		}
	}
	from := f.typ(e)
	return f.conv(f.expr(e), from, to, e)
}

func (f *fn) conv(s string, from, to types.Type, e ast.Node) string {
	if types.Identical(from, to) {
		return s
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return f.t.zero(to)
	}
	toI, isI := f.t.ifaceOf(to)
	_, fromI := f.t.ifaceOf(from)
	if isI {
		if fromI {
			fa, _ := f.t.ifaceOf(from)
			if fa == toI {
				return s
			}
			fail("interface-to-interface conversion %s -> %s", from, to)
		}
		f.t.needIface(toI)
		base := from
		ptr := false
		if el, ok := isPtr(from); ok {
			base, ptr = el, true
		}
		n := namedOf(base)
		if n == nil {
			fail("conversion of %s to interface", from)
		}
		for _, c := range f.t.cs.d.ifaces[toI] {
			if strings.TrimPrefix(c, "*") == typeName(n) {
				v := s
				if ptr && strings.HasPrefix(c, "*") {
					// non-nil pointer to a fresh value
					v = unSome(s)
				} else if ptr != strings.HasPrefix(c, "*") {
					continue
				}
				return fmt.Sprintf("%s::%s(%s)", f.t.enumName(toI), f.t.ifaceVariant(c), v)
			}
		}
		return fmt.Sprintf("%s::Other(havoc::<int>(%d))", f.t.enumName(toI), f.t.fresh())
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, ok := f.t.isOpaque(to); ok {
			return fmt.Sprintf("havoc::<%s>(%d)", f.t.vt(to), f.t.fresh())
		}
	}
	return s
}

func unSome(s string) string {
	if strings.HasPrefix(s, "Some(") && strings.HasSuffix(s, ")") {
		return s[5 : len(s)-1]
	}
	return "(" + s + ")->0"
}

func constStr(v constant.Value, t types.Type) (string, bool) {
	switch v.Kind() {
	case constant.Int:
		if !isInt(t) && !isKind(t, types.UntypedRune) && !isKind(t, types.UntypedInt) {
			return "", false
		}
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(" + s + "int)", true
		}
		return s + "int", true
	case constant.Bool:
		return v.ExactString(), true
	case constant.String:
		return strLit(constant.StringVal(v)), true
	}
	return "", false
}

// value of variable used as an rvalue
func (f *fn) identVal(x *ast.Ident) string {
	if x.Name == "nil" {
		fail("untyped nil in this position")
	}
	o := f.t.pr.info.ObjectOf(x)
	v, ok := o.(*types.Var)
	if !ok {
		fail("identifier %s is not a variable", x.Name)
	}
	l := f.lookup(v)
	if l == nil {
		if k, ok := f.t.cs.d.sentinel[v.Name()]; ok {
			f.t.needIface("error")
			return fmt.Sprintf("GoErr::Other(%d)", k)
		}
		if f.t.cs.d.globals[v.Name()] {
			return f.t.global(v)
		}
		if cv := f.t.pr.constVar(v); cv != nil {
			if s, ok := constStr(cv, v.Type()); ok {
				return s
			}
		}
		// a variable that is nil and stays nil
		if _, in := f.t.pr.constInit(v); in != nil {
			i := unparen(in)
			if c, ok := i.(*ast.CallExpr); ok && len(c.Args) == 1 && f.t.pr.info.Types[c.Fun].IsType() {
				i = unparen(c.Args[0])
			}
			if f.t.pr.info.Types[i].IsNil() {
				return f.t.zero(v.Type())
			}
		}
		// a pointer to a field-less struct has nothing that could change
		if _, in := f.t.pr.constInit(v); in != nil {
			if u, ok := unparen(in).(*ast.UnaryExpr); ok && u.Op == token.AND {
				if cl, ok := u.X.(*ast.CompositeLit); ok && len(cl.Elts) == 0 {
					if st, ok := f.typ(cl).Underlying().(*types.Struct); ok && st.NumFields() == 0 {
						return f.convTo(in, v.Type())
					}
				}
			}
		}
		fail("variable %s is outside the function (no global directive)", x.Name)
	}
	switch l.kind {
	case derefd:
		return "Some(" + l.name + ")"
	case alias:
		if _, ok := isPtr(v.Type()); ok {
			return "Some(" + f.readPath(l.p) + ")"
		}
		return f.readPath(l.p)
	}
	return l.name
}

func (t *tr) global(v *types.Var) string {
	nm := "g_" + v.Name()
	if _, ok := t.globals[nm]; !ok {
		t.globals[nm] = fmt.Sprintf("pub uninterp spec fn %s() -> %s;", nm, t.vt(v.Type()))
		if t.initial[v.Name()] {
			t.globals[nm] = fmt.Sprintf("#[verifier::opaque] pub open spec fn %s() -> %s { %s }", nm, t.vt(v.Type()), t.initValue(v))
		}
	}
	return nm + "()"
}

// initValue translates the initialiser of a package variable that nothing in
// the package assigns. The variables it mentions are translated the same way;
// reading a field of one is reading its initialiser's field.
func (t *tr) initValue(v *types.Var) string {
	in := t.pr.initOf(v)
	if in == nil {
		fail("package variable %s has no initialiser of its own, or is assigned", v.Name())
	}
	ast.Inspect(in, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if w, ok := t.pr.info.Uses[x].(*types.Var); ok && w.Pkg() == t.pr.pkg && w.Parent() == t.pr.pkg.Scope() && t.pr.constVar(w) == nil {
				t.cs.d.globals[w.Name()] = true
				t.initial[w.Name()] = true
			}
		case *ast.CallExpr, *ast.FuncLit, *ast.SliceExpr, *ast.TypeAssertExpr:
			if tv, ok := t.pr.info.Types[n.(ast.Expr)]; !ok || tv.Value == nil {
				fail("initialiser of %s: %s", v.Name(), t.pr.src(n))
			}
		}
		return true
	})
	f := &fn{t: t, key: v.Name(), vars: map[*types.Var]*lvar{}, ordN: map[string]int{}}
	s := f.convTo(in, v.Type())
	for _, l := range f.lines { // reading through a pointer that an initialiser made is no obligation
		if !strings.HasPrefix(strings.TrimSpace(l.text), "assert(") {
			fail("initialiser of %s: %s", v.Name(), l.text)
		}
	}
	return s
}

func (f *fn) arith(s string, t types.Type, n ast.Node) string {
	if lo, hi, ok := intRange(t, f.c != nil && f.c.checked); ok {
		a := f.atom(s)
		f.assert(fmt.Sprintf("%s <= %s <= %s", lo, a, hi), "overflow", n, "")
		return a
	}
	return s
}

// expr translates an rvalue; side effects and obligations are emitted first.
func (f *fn) expr(e ast.Expr) string {
	if tv, ok := f.t.pr.info.Types[e]; ok && tv.Value != nil {
		if s, ok := constStr(tv.Value, tv.Type); ok {
			return s
		}
		fail("constant %s", tv.Value)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return f.expr(x.X)
	case *ast.Ident:
		return f.identVal(x)
	case *ast.StarExpr:
		return f.readPath(f.deref(x.X, x))
	case *ast.SelectorExpr:
		if sel := f.t.pr.info.Selections[x]; sel == nil { // pkg.Name
			o := f.t.pr.info.ObjectOf(x.Sel)
			if v, ok := o.(*types.Var); ok && f.t.cs.d.globals[v.Pkg().Name()+"."+v.Name()] {
				return f.t.global(v)
			}
			fail("qualified identifier %s", f.t.pr.src(x))
		}
		return f.readPath(f.lval(x))
	case *ast.IndexExpr:
		return f.readPath(f.lval(x))
	case *ast.SliceExpr:
		return f.slice(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return "(!" + f.expr(x.X) + ")"
		case token.SUB:
			return f.arith("(-"+f.expr(x.X)+")", f.typ(x), x)
		case token.ADD:
			return f.expr(x.X)
		case token.AND:
			if cl, ok := x.X.(*ast.CompositeLit); ok {
				if hn, ok := f.t.isHeapPtr(f.typ(x)); ok {
					return f.alloc(hn, f.expr(cl))
				}
				return "Some(" + f.expr(cl) + ")"
			}
			p := f.lval(x.X)
			return "Some(" + f.readPath(p) + ")"
		}
		fail("unary %s", x.Op)
	case *ast.BinaryExpr:
		return f.binary(x)
	case *ast.CallExpr:
		rs := f.call(x)
		if len(rs) != 1 {
			fail("multi-value call in expression: %s", f.t.pr.src(x))
		}
		return rs[0]
	case *ast.CompositeLit:
		return f.composite(x)
	case *ast.TypeAssertExpr:
		v, ok := f.assertType(x)
		f.assert(ok, "type-assert", x, "")
		return v
	}
	fail("expression %T: %s", e, f.t.pr.src(e))
	return ""
}

func (f *fn) alloc(hn, val string) string {
	p := f.tmp("new")
	h := "H_" + vtn(hn)
	f.emit("let %s = havoc::<int>(%d);", p, f.t.fresh())
	f.emit("assume(%s != 0 && !%s.contains_key(%s));", p, h, p)
	f.emit("%s = %s.insert(%s, %s);", h, h, p, val)
	return p
}

// assertType translates x.(T) into (value, ok).
func (f *fn) assertType(x *ast.TypeAssertExpr) (string, string) {
	v := f.tmp("ta")
	f.emit("let %s = %s;", v, f.expr(x.X))
	T := f.typ(x.Type)
	cond, val := f.isVariant(v, f.typ(x.X), T)
	if isStringer(T) {
		T = f.typ(x.X)
	}
	return fmt.Sprintf("(if %s { %s } else { %s })", cond, val, f.t.zero(T)), cond
}

func (f *fn) vtyp(v *types.Var) types.Type {
	if t, ok := f.seenAs[v]; ok {
		return t
	}
	return v.Type()
}

func isStringer(T types.Type) bool {
	n := namedOf(T)
	return n != nil && typeName(n) == "fmt.Stringer"
}

// isVariant gives the test that interface value v holds type T, and the payload.
func (f *fn) isVariant(v string, it, T types.Type) (string, string) {
	ifc, ok := f.t.ifaceOf(it)
	if !ok {
		fail("type test on %s", it)
	}
	if _, ok := T.Underlying().(*types.Interface); ok {
		if n, ok2 := f.t.ifaceOf(T); ok2 && n == ifc {
			return fmt.Sprintf("(!(%s is Nil))", v), v
		}
		if isStringer(T) {
			return fmt.Sprintf("(!(%s is Nil))", v), v
		}
		fail("type test against interface %s", T)
	}
	base := T
	ptr := false
	if el, ok := isPtr(T); ok {
		base, ptr = el, true
	}
	n := namedOf(base)
	for _, c := range f.t.cs.d.ifaces[ifc] {
		if n != nil && strings.TrimPrefix(c, "*") == typeName(n) && strings.HasPrefix(c, "*") == ptr {
			vr := f.t.ifaceVariant(c)
			pay := fmt.Sprintf("%s->%s_0", v, vr)
			if ptr {
				pay = "Some(" + pay + ")"
			}
			return fmt.Sprintf("(%s is %s)", v, vr), pay
		}
	}
	fail("type test: %s is not a declared variant of %s", T, ifc)
	return "", ""
}

func (f *fn) slice(x *ast.SliceExpr) string {
	if x.Slice3 {
		fail("3-index slice")
	}
	bt := f.typ(x.X)
	if _, ok := isPtr(bt); ok {
		fail("slice of array pointer")
	}
	s := f.atom(f.expr(x.X))
	lo := "0int"
	if x.Low != nil {
		lo = f.atom(f.expr(x.Low))
	}
	hi := fmt.Sprintf("(%s.len() as int)", s)
	if x.High != nil {
		hi = f.atom(f.expr(x.High))
	}
	f.assert(fmt.Sprintf("0 <= %s <= %s <= %s.len()", lo, hi, s), "slice-bounds", x, "")
	return fmt.Sprintf("%s.subrange(%s, %s)", s, lo, hi)
}

func (f *fn) binary(x *ast.BinaryExpr) string {
	switch x.Op {
	case token.LAND, token.LOR:
		l := f.expr(x.X)
		f.ind++
		ls, r := f.capture(func() string { return f.expr(x.Y) })
		f.ind--
		if len(ls) == 0 || f.noAsserts && onlyAsserts(ls) {
			op := "&&"
			if x.Op == token.LOR {
				op = "||"
			}
			return "(" + l + " " + op + " " + r + ")"
		}
		v := f.tmp("b")
		f.emit("let mut %s: bool = %s;", v, l)
		if x.Op == token.LAND {
			f.emit("if %s {", v)
		} else {
			f.emit("if !%s {", v)
		}
		f.lines = append(f.lines, ls...)
		f.emit("  %s = %s;", v, r)
		f.emit("}")
		return v
	case token.EQL, token.NEQ:
		return f.equality(x)
	}
	lt := f.typ(x.X)
	if isLenZeroCmp(x) != 0 {
		if m, ok := f.lenOfMap(x.X); ok {
			// len(m) > 0
			c := fmt.Sprintf("(exists|k_: %s| #[trigger] %s.contains_key(k_))", f.t.vt(m.(*types.Map).Key()), f.atom(f.expr(x.X.(*ast.CallExpr).Args[0])))
			return c
		}
	}
	l := f.expr(x.X)
	r := f.expr(x.Y)
	t := f.typ(x)
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isString(lt) {
			fail("string ordering")
		}
		return "(" + l + " " + x.Op.String() + " " + r + ")"
	case token.ADD:
		if isString(lt) {
			return "(" + l + " + " + r + ")"
		}
		return f.arith("("+l+" + "+r+")", t, x)
	case token.SUB:
		return f.arith("("+l+" - "+r+")", t, x)
	case token.MUL:
		return f.arith("("+l+" * "+r+")", t, x)
	case token.QUO, token.REM:
		rr := f.atom(r)
		if tv := f.t.pr.info.Types[x.Y]; tv.Value == nil {
			f.assert(rr+" != 0", "div-by-zero", x, "")
		}
		fnm := "go_div"
		if x.Op == token.REM {
			fnm = "go_mod"
		}
		return fmt.Sprintf("%s(%s, %s)", fnm, l, rr)
	case token.AND:
		return fmt.Sprintf("bit_and(%s, %s)", l, r)
	case token.OR:
		return fmt.Sprintf("bit_or(%s, %s)", l, r)
	case token.XOR:
		return fmt.Sprintf("bit_xor(%s, %s)", l, r)
	case token.SHL:
		return fmt.Sprintf("bit_shl(%s, %s)", l, r)
	case token.SHR:
		return fmt.Sprintf("bit_shr(%s, %s)", l, r)
	}
	fail("operator %s", x.Op)
	return ""
}

func isLenZeroCmp(x *ast.BinaryExpr) int {
	if x.Op != token.GTR {
		return 0
	}
	if b, ok := x.Y.(*ast.BasicLit); ok && b.Value == "0" {
		return 1
	}
	return 0
}

func (f *fn) lenOfMap(e ast.Expr) (types.Type, bool) {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "len" {
		return nil, false
	}
	m, ok := isMap(f.typ(c.Args[0]))
	if !ok {
		return nil, false
	}
	return m, true
}

func (f *fn) isNil(e ast.Expr) bool {
	tv, ok := f.t.pr.info.Types[e]
	return ok && tv.IsNil()
}

func (f *fn) equality(x *ast.BinaryExpr) string {
	neg := x.Op == token.NEQ
	wrap := func(s string) string {
		if neg {
			return "(!(" + s + "))"
		}
		return "(" + s + ")"
	}
	a, b := x.X, x.Y
	if f.isNil(a) {
		a, b = b, a
	}
	if f.isNil(b) {
		t := f.typ(a)
		if _, ok := f.t.ifaceOf(t); ok {
			return wrap(f.expr(a) + " is Nil")
		}
		if _, ok := isPtr(t); ok {
			if _, hp := f.t.isHeapPtr(t); hp {
				return wrap(f.expr(a) + " == 0")
			}
			if id, ok := a.(*ast.Ident); ok {
				if v := f.obj(id); v != nil {
					if l := f.lookup(v); l != nil && l.kind != plain {
						return wrap("false")
					}
				}
			}
			return wrap(f.expr(a) + " is None")
		}
		if m, ok := isMap(t); ok {
			// a nil map is represented by the empty map; an empty map may or may
			// not be nil
			_ = m
			v := f.atom(f.expr(a))
			h := f.tmp("nilmap")
			f.emit("let %s = havoc::<bool>(%d);", h, f.t.fresh())
			f.emit("assume(%s ==> %s =~= %s);", h, v, f.t.zero(t))
			if ix, ok := a.(*ast.IndexExpr); ok {
				if mt, ok := isMap(f.typ(ix.X)); ok {
					// a missing entry reads as nil
					f.emit("assume(!%s.contains_key(%s) ==> %s);", f.atom(f.expr(ix.X)), f.convTo(ix.Index, mt.Key()), h)
				}
			}
			return wrap(h)
		}
		if _, ok := isSlice(t); ok {
			v := f.atom(f.expr(a))
			h := f.tmp("nilslice")
			f.emit("let %s = havoc::<bool>(%d);", h, f.t.fresh())
			f.emit("assume(%s ==> %s.len() == 0);", h, v)
			return wrap(h)
		}
		fail("nil comparison of %s", t)
	}
	ta, tb := f.typ(a), f.typ(b)
	// len(m) == 0
	if m, ok := f.lenOfMap(a); ok {
		if tv := f.t.pr.info.Types[b]; tv.Value != nil && tv.Value.ExactString() == "0" {
			return wrap(fmt.Sprintf("(forall|k_: %s| !#[trigger] %s.contains_key(k_))", f.t.vt(m.(*types.Map).Key()), f.atom(f.expr(a.(*ast.CallExpr).Args[0]))))
		}
	}
	_, ia := f.t.ifaceOf(ta)
	_, ib := f.t.ifaceOf(tb)
	var l, r string
	if ia && !ib {
		l, r = f.expr(a), f.convTo(b, ta)
	} else if ib && !ia {
		l, r = f.convTo(a, tb), f.expr(b)
	} else {
		l, r = f.expr(a), f.expr(b)
	}
	if isString(ta) {
		return wrap(l + " =~= " + r)
	}
	if el, ok := isPtr(ta); ok {
		if _, hp := f.t.isHeapPtr(ta); !hp {
			// value-modelled pointers: equal pointers have equal values, the
			// converse is unknown
			_ = el
			h := f.tmp("ptreq")
			f.emit("let %s = havoc::<bool>(%d);", h, f.t.fresh())
			f.emit("assume(%s ==> %s == %s);", h, l, r)
			return wrap(h)
		}
	}
	return wrap(l + " == " + r)
}

func (f *fn) composite(x *ast.CompositeLit) string {
	t := f.typ(x)
	if el, ok := isPtr(t); ok { // elided &T in a composite of pointers
		if hn, hp := f.t.isHeapPtr(t); hp {
			return f.alloc(hn, f.compositeAs(x, el))
		}
		return "Some(" + f.compositeAs(x, el) + ")"
	}
	return f.compositeAs(x, t)
}

func (f *fn) compositeAs(x *ast.CompositeLit, t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := namedOf(t)
		if n == nil {
			if u.NumFields() == 0 {
				return "()"
			}
			fail("anonymous struct literal")
		}
		f.t.needStruct(n)
		vals := map[string]string{}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == nm {
						if _, ok := f.t.tryVT(u.Field(j).Type()); !ok {
							break
						}
						vals[nm] = f.convTo(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				vals[u.Field(i).Name()] = f.convTo(el, u.Field(i).Type())
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			fl := u.Field(j)
			if _, ok := f.t.tryVT(fl.Type()); !ok {
				continue
			}
			v, ok := vals[fl.Name()]
			if !ok {
				v = f.t.zero(fl.Type())
			}
			if f.t.boxed(n, fl.Type()) {
				v = "Box::new(" + v + ")"
			}
			fs = append(fs, vname(fl.Name())+": "+v)
		}
		return vtn(typeName(n)) + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice, *types.Array:
		el, _ := isSlice(t)
		if len(x.Elts) == 0 {
			return f.t.zero(t)
		}
		var vs []string
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				fail("keyed slice literal")
			}
			vs = append(vs, f.convTo(e, el))
		}
		return "seq![" + strings.Join(vs, ", ") + "]"
	case *types.Map:
		s := f.t.zero(t)
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			s = fmt.Sprintf("%s.insert(%s, %s)", s, f.convTo(kv.Key, u.Key()), f.convTo(kv.Value, u.Elem()))
		}
		return s
	}
	fail("composite literal of %s", t)
	return ""
}
