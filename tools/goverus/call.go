package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

func vfn(key string) string {
	r := strings.NewReplacer(".", "_", "$", "_c_", "?", "q")
	return "f_" + r.Replace(key)
}

// sigParams lists the receiver (if any) and parameters of a signature.
func sigParams(sig *types.Signature) []*types.Var {
	var out []*types.Var
	if sig.Recv() != nil {
		out = append(out, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i))
	}
	return out
}

// paramMode returns how parameter i of a contract is passed.
func (t *tr) paramMode(c *contract, sig *types.Signature, i int, pt types.Type) string {
	m := c.params[i].mode
	if m == "" && sig.Recv() != nil && i == 0 {
		if _, ok := isPtr(pt); ok {
			if _, hp := t.isHeapPtr(pt); !hp {
				if _, op := t.isOpaque(pt); !op {
					return "nn"
				}
			}
		}
	}
	return m
}

func (t *tr) paramVT(mode string, pt types.Type) string {
	if mode == "nn" || mode == "inout" {
		if el, ok := isPtr(pt); ok {
			if _, hp := t.isHeapPtr(pt); !hp {
				if _, op := t.isOpaque(pt); !op {
					return t.vt(el)
				}
			}
		}
	}
	return t.vt(pt)
}

var reIdent = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

func substIdents(tmpl string, m map[string]string) string {
	var b strings.Builder
	last := 0
	for _, loc := range reIdent.FindAllStringIndex(tmpl, -1) {
		id := tmpl[loc[0]:loc[1]]
		b.WriteString(tmpl[last:loc[0]])
		prevDot := loc[0] > 0 && tmpl[loc[0]-1] == '.'
		if v, ok := m[id]; ok && !prevDot {
			b.WriteString(v)
		} else {
			b.WriteString(id)
		}
		last = loc[1]
	}
	b.WriteString(tmpl[last:])
	return b.String()
}

func paren(s string) string {
	if regexp.MustCompile(`^[A-Za-z_0-9]+$`).MatchString(s) {
		return s
	}
	return "(" + s + ")"
}

// call translates a call and returns its results.
func (f *fn) call(x *ast.CallExpr) []string {
	info := f.t.pr.info
	// conversion
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		return []string{f.conversion(x, tv.Type)}
	}
	// builtin
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := info.ObjectOf(id).(*types.Builtin); ok {
			return f.builtin(x, b.Name())
		}
	}
	// local closure
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if v := f.obj(id); v != nil {
			if k, ok := f.closures[v]; ok {
				return f.callClosure(x, k, v)
			}
			if n := namedOf(v.Type()); n != nil {
				// a function value of a named type: the contract of the type
				if c := f.t.cs.fns[typeName(n)+".call"]; c != nil {
					sig := n.Underlying().(*types.Signature)
					f.t.setExt(c.key, sig, nil, f)
					return f.callContract(x, c, sig, nil, x.Args, x.Ellipsis != token.NoPos, nil)
				}
			}
			fail("call of function value %s", id.Name)
		}
	}
	var callee *types.Func
	var recv ast.Expr
	switch fu := unparen(x.Fun).(type) {
	case *ast.Ident:
		callee, _ = info.ObjectOf(fu).(*types.Func)
	case *ast.IndexExpr:
		if id, ok := fu.X.(*ast.Ident); ok {
			callee, _ = info.ObjectOf(id).(*types.Func)
		}
	case *ast.SelectorExpr:
		if sel := info.Selections[fu]; sel != nil {
			if sel.Kind() == types.FieldVal {
				fail("call of function field %s", f.t.pr.src(fu))
			}
			callee, _ = sel.Obj().(*types.Func)
			recv = fu.X
		} else {
			callee, _ = info.ObjectOf(fu.Sel).(*types.Func)
		}
	}
	if callee == nil {
		fail("dynamic call %s", f.t.pr.src(x.Fun))
	}
	key := funcKey(callee)
	if recv != nil {
		if ifc, ok := f.t.ifaceOf(f.typ(recv)); ok {
			key = ifc + "." + callee.Name()
		} else if op, ok := f.t.isOpaque(f.typ(recv)); ok {
			key = op + "." + callee.Name()
		}
	}
	if hk, ok := f.t.home[key]; ok {
		key = hk
	}
	if key == "fmt.Sprintf" {
		return []string{f.sprintf(x)}
	}
	if key == "fmt.Errorf" {
		// some error; what it prints or wraps is not modelled
		for _, a := range x.Args[1:] {
			if c, ok := unparen(a).(*ast.CallExpr); ok && len(c.Args) == 0 {
				if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok && (s.Sel.Name == "String" || s.Sel.Name == "Error") {
					a = s.X // rendering is taken to have no effect
				}
			}
			f.expr(a)
		}
		f.t.needIface("error")
		return []string{fmt.Sprintf("GoErr::Other(havoc_like(0int, %d))", f.t.fresh())}
	}
	if key == "sort.Slice" {
		f.sortSlice(x)
		return nil
	}
	if key == "sort.SliceStable" {
		f.sortPerm(x)
		return nil
	}
	c := f.t.cs.fns[key]
	if c == nil {
		if d := f.t.pr.decls[key]; d != nil && callee.Pkg() == f.t.pr.pkg {
			return f.inline(x, key, d, callee, recv)
		}
		fail("no contract for %s", key)
	}
	sig := callee.Type().(*types.Signature)
	if sig.TypeParams() != nil && c.isPure && recv == nil {
		if s, ok := info.TypeOf(x.Fun).(*types.Signature); ok {
			sig = s
		}
	}
	if f.t.pr.decls[key] == nil {
		f.t.setExt(key, sig, recv, f)
	}
	return f.callContract(x, c, sig, recv, x.Args, x.Ellipsis != token.NoPos, nil)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

type argPass struct {
	val  string
	mode string
	path path
}

func (f *fn) passArg(e ast.Expr, mode string, pt types.Type) argPass {
	switch mode {
	case "inout":
		var p path
		if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.AND {
			p = f.lval(u.X)
		} else if _, ok := unparen(e).(*ast.CompositeLit); ok { // a map or slice nobody else holds
			t := f.tmp("lit")
			f.emit("let mut %s: %s = %s;", t, f.t.vt(pt), f.convTo(e, pt))
			p = path{base: t, T: pt}
		} else if _, ok := isPtr(f.typ(e)); ok {
			p = f.deref(e, e)
		} else if f.addressable(e) { // map or slice passed by reference, or method on addressable value
			p = f.lval(e)
		} else {
			fail("inout argument %s", f.t.pr.src(e))
		}
		return argPass{val: f.readPath(p), mode: mode, path: p}
	case "out":
		if f.t.pr.info.Types[unparen(e)].IsNil() {
			return argPass{val: f.convTo(e, pt)}
		}
		u, ok := unparen(e).(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			fail("out argument %s", f.t.pr.src(e))
		}
		p := f.lval(u.X)
		return argPass{val: "Some(" + f.readPath(p) + ")", mode: mode, path: p}
	case "nn":
		if _, ok := isPtr(pt); ok {
			if _, ok := isPtr(f.typ(e)); ok {
				p := f.deref(e, e)
				return argPass{val: f.readPath(p)}
			}
			// method with pointer receiver on an addressable value
			return argPass{val: f.expr(e)}
		}
	}
	// value receiver through a pointer
	if _, ok := isPtr(pt); !ok {
		if _, ok := isPtr(f.typ(e)); ok {
			if _, isI := f.t.ifaceOf(pt); !isI {
				if _, op := f.t.isOpaque(pt); !op {
					return argPass{val: f.readPath(f.deref(e, e))}
				}
			}
		}
	}
	return argPass{val: f.convTo(e, pt)}
}

func (f *fn) callContract(x *ast.CallExpr, c *contract, sig *types.Signature, recv ast.Expr, args []ast.Expr, ell bool, capd []argPass) []string {
	ps := sigParams(sig)
	if sig.Recv() == nil && recv != nil {
		fail("receiver mismatch for %s", c.key)
	}
	if len(ps) != len(c.params) {
		fail("contract %s has %d parameters, code has %d", c.key, len(c.params), len(ps))
	}
	var all []argPass
	ai := 0
	for i, p := range ps {
		mode := f.t.paramMode(c, sig, i, p.Type())
		if sig.Recv() != nil && i == 0 {
			rt := p.Type()
			if _, ok := f.t.ifaceOf(f.typ(recv)); ok {
				rt = f.typ(recv)
			}
			all = append(all, f.passArg(recv, mode, rt))
			continue
		}
		if sig.Variadic() && i == len(ps)-1 && !ell {
			el := p.Type().(*types.Slice).Elem()
			var vs []string
			for ; ai < len(args); ai++ {
				vs = append(vs, f.convTo(args[ai], el))
			}
			s := f.t.zero(p.Type())
			if len(vs) > 0 {
				s = "seq![" + strings.Join(vs, ", ") + "]"
			}
			all = append(all, argPass{val: s})
			continue
		}
		if _, isFn := p.Type().Underlying().(*types.Signature); isFn {
			fail("function argument in call to %s", c.key)
		}
		all = append(all, f.passArg(args[ai], mode, p.Type()))
		ai++
	}
	all = append(all, capd...)
	if c.isPure {
		m := map[string]string{}
		for i, p := range c.params {
			m[p.name] = paren(f.atom(all[i].val))
		}
		for _, r := range c.requires {
			f.assert(substIdents(r.text, m), "pre:"+c.key, x, "")
		}
		return []string{f.typed(substIdents(c.pure, m), sig.Results().At(0).Type())}
	}
	f.t.stubs[c.key] = true
	var as []string
	for _, a := range all {
		as = append(as, a.val)
	}
	for _, h := range c.mods {
		as = append(as, "H_"+vtn(h))
	}
	for _, h := range c.heaps {
		as = append(as, "H_"+vtn(h))
	}
	var rets []string
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, f.tmp("r"))
	}
	n := len(rets)
	var ios []int
	for i, a := range all {
		if a.mode == "inout" {
			ios = append(ios, i)
			rets = append(rets, f.tmp("io"))
		}
	}
	for _, h := range c.mods {
		rets = append(rets, f.tmp("h_"+vtn(h)))
	}
	o := f.ob("pre:"+c.key, x, "")
	callS := fmt.Sprintf("%s(%s)", vfn(c.key), strings.Join(as, ", "))
	ind := strings.Repeat("  ", f.ind)
	var ln string
	switch len(rets) {
	case 0:
		ln = callS + ";"
	case 1:
		ln = "let " + rets[0] + " = " + callS + ";"
	default:
		ln = "let (" + strings.Join(rets, ", ") + ") = " + callS + ";"
	}
	if len(c.requires) == 0 {
		o = nil
	}
	hook := func(when string) {
		if f.c == nil {
			return
		}
		gs := f.c.ghost[when+" "+c.key]
		if len(gs) == 0 {
			return
		}
		sub := map[string]string{}
		for i := range as {
			sub[fmt.Sprintf("$a%d", i)] = paren(as[i])
		}
		for i := 0; i < n; i++ {
			sub[fmt.Sprintf("$r%d", i)] = rets[i]
		}
		f.ghostLines(gs, sub)
	}
	hook("before")
	f.lines = append(f.lines, line{text: ind + oneLine(ln), ob: o})
	k := n
	for _, i := range ios {
		if all[i].path.base != "" {
			f.pathChanged(all[i].path)
			f.write(all[i].path, rets[k])
		}
		k++
	}
	for _, a := range all {
		if a.mode == "out" {
			f.pathChanged(a.path)
			f.write(a.path, fmt.Sprintf("havoc_like(%s, %d)", f.readPath(a.path), f.t.fresh()))
			f.typeFacts(f.readPath(a.path), a.path.T)
		}
	}
	for _, h := range c.mods {
		f.emit("H_%s = %s;", vtn(h), rets[k])
		k++
	}
	hook("after")
	for i := 0; i < n; i++ {
		rets[i] = f.typed(rets[i], sig.Results().At(i).Type())
	}
	return rets[:n]
}

func (f *fn) conversion(x *ast.CallExpr, to types.Type) string {
	from := f.typ(x.Args[0])
	a := x.Args[0]
	switch {
	case isInt(to) && isInt(from):
		s := f.expr(a)
		if lo, hi, ok := intRange(to, true); ok {
			flo, fhi, fok := intRange(from, true)
			if fok && within(flo, fhi, lo, hi) {
				return s
			}
			v := f.atom(s)
			f.assert(fmt.Sprintf("%s <= %s <= %s", lo, v, hi), "convert", x, "")
			return v
		}
		return s
	case isString(to) && isInt(from):
		return fmt.Sprintf("utf8_str(%s)", f.expr(a))
	case isString(to):
		if el, ok := isSlice(from); ok {
			if isKind(el, types.Uint8) {
				return f.expr(a)
			}
			return fmt.Sprintf("utf8_strs(%s)", f.expr(a))
		}
		return f.expr(a)
	}
	if el, ok := isSlice(to); ok && isString(from) {
		if isKind(el, types.Uint8) {
			return f.expr(a)
		}
		return fmt.Sprintf("utf8_runes(%s)", f.expr(a))
	}
	if f.isNil(a) {
		return f.t.zero(to)
	}
	return f.convTo(a, to)
}

func within(lo, hi, lo2, hi2 string) bool {
	cmp := func(a, b string) int {
		na, nb := strings.HasPrefix(a, "-"), strings.HasPrefix(b, "-")
		if na != nb {
			if na {
				return -1
			}
			return 1
		}
		x, y := strings.TrimPrefix(a, "-"), strings.TrimPrefix(b, "-")
		r := 0
		if len(x) != len(y) {
			r = len(x) - len(y)
		} else {
			r = strings.Compare(x, y)
		}
		if na {
			r = -r
		}
		return r
	}
	return cmp(lo, lo2) >= 0 && cmp(hi, hi2) <= 0
}

func (f *fn) builtin(x *ast.CallExpr, name string) []string {
	switch name {
	case "len":
		t := f.typ(x.Args[0])
		if _, ok := isMap(t); ok {
			v := f.atom(f.expr(x.Args[0]))
			f.emit("assume(%s.dom().finite());", v)
			return []string{fmt.Sprintf("(%s.dom().len() as int)", v)}
		}
		return []string{fmt.Sprintf("(%s.len() as int)", f.atom(f.expr(x.Args[0])))}
	case "append":
		st := f.typ(x)
		el, _ := isSlice(st)
		s := f.convTo(x.Args[0], st)
		if x.Ellipsis != token.NoPos {
			return []string{"(" + s + " + " + f.expr(x.Args[1]) + ")"}
		}
		for _, a := range x.Args[1:] {
			s = s + ".push(" + f.convTo(a, el) + ")"
		}
		return []string{s}
	case "new":
		pt := f.typ(x)
		el := pt.Underlying().(*types.Pointer).Elem()
		if hn, hp := f.t.isHeapPtr(pt); hp {
			return []string{f.alloc(hn, f.t.zero(el))}
		}
		return []string{"Some(" + f.t.zero(el) + ")"}
	case "make":
		t := f.typ(x)
		if _, ok := isMap(t); ok {
			return []string{f.t.zero(t)}
		}
		el, ok := isSlice(t)
		if !ok {
			fail("make(%s)", t)
		}
		for _, a := range x.Args[1:] {
			if f.t.pr.info.Types[a].Value == nil {
				v := f.atom(f.expr(a))
				f.assert("0 <= "+v, "make-size", x, "")
			}
		}
		if tv := f.t.pr.info.Types[x.Args[1]]; tv.Value != nil && tv.Value.ExactString() == "0" {
			return []string{f.t.zero(t)}
		}
		n := f.atom(f.expr(x.Args[1]))
		return []string{fmt.Sprintf("Seq::<%s>::new((%s) as nat, |i: int| %s)", f.t.vt(el), n, f.t.zero(el))}
	case "min", "max":
		s := f.expr(x.Args[0])
		for _, a := range x.Args[1:] {
			s = fmt.Sprintf("go_%s(%s, %s)", name, s, f.expr(a))
		}
		return []string{s}
	case "delete":
		m, _ := isMap(f.typ(x.Args[0]))
		p := f.lval(x.Args[0])
		k := f.convTo(x.Args[1], m.Key())
		f.entryChanged(p)
		f.readOnly(p.add(pstep{kind: 'm', T: p.T}))
		f.write(p, fmt.Sprintf("%s.remove(%s)", f.readPath(p), k))
		return nil
	case "copy":
		p := f.lval(x.Args[0])
		v := f.atom(f.expr(x.Args[1]))
		f.readOnly(p.add(pstep{kind: 'm', T: p.T}))
		f.write(p, fmt.Sprintf("go_copy(%s, %s)", f.readPath(p), v))
		return []string{fmt.Sprintf("go_min(%s.len() as int, %s.len() as int)", v, v)}
	case "panic":
		f.assert("false", "panic-unreachable", x, "")
		f.emit("assume(false);")
		return nil
	}
	fail("builtin %s", name)
	return nil
}

// sprintf expands a constant format with %s and %d verbs.
func (f *fn) sprintf(x *ast.CallExpr) string {
	tv := f.t.pr.info.Types[x.Args[0]]
	if tv.Value == nil {
		fail("Sprintf with a variable format")
	}
	fs := strings.Trim(tv.Value.ExactString(), "\"")
	unq, err := strconvUnquote(tv.Value.ExactString())
	if err == nil {
		fs = unq
	}
	var parts []string
	lit := ""
	ai := 1
	flush := func() {
		if lit != "" {
			parts = append(parts, strLit(lit))
			lit = ""
		}
	}
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		i++
		if i >= len(fs) {
			fail("bad format")
		}
		if fs[i] == '%' {
			lit += "%"
			continue
		}
		if ai >= len(x.Args) {
			fail("format arguments")
		}
		a := x.Args[ai]
		ai++
		flush()
		t := f.typ(a)
		flags := ""
		for i < len(fs)-1 && strings.IndexByte("0123456789+-# .", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		switch {
		case flags == "02" && fs[i] == 'X' && isInt(t):
			parts = append(parts, fmt.Sprintf("hex02(%s)", f.expr(a)))
		case flags != "":
			h := f.tmp("fmt")
			f.expr(a)
			f.emit("let %s = havoc::<Seq<int>>(%d);", h, f.t.fresh())
			parts = append(parts, h)
		case fs[i] == 'q' && isString(t):
			parts = append(parts, fmt.Sprintf("go_quote(%s)", f.expr(a)))
		case fs[i] == 'x' && isInt(t):
			parts = append(parts, fmt.Sprintf("hexl(%s)", f.expr(a)))
		case fs[i] == 'd' && isInt(t):
			parts = append(parts, fmt.Sprintf("itoa(%s)", f.expr(a)))
		case fs[i] == 's' && isString(t):
			parts = append(parts, f.expr(a))
		case fs[i] == 's':
			parts = append(parts, f.stringer(a, t, x))
		default:
			h := f.tmp("fmt")
			f.expr(a)
			f.emit("let %s = havoc::<Seq<int>>(%d);", h, f.t.fresh())
			parts = append(parts, h)
		}
	}
	flush()
	if len(parts) == 0 {
		return strLit("")
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

// sortSlice models sort.Slice(x, less) with a comparison of one expression: x
// becomes some permutation of itself in which no element is less than one
// before it. That the comparison is a strict weak order is an obligation.
func (f *fn) sortSlice(x *ast.CallExpr) {
	lit, ok := unparen(x.Args[1]).(*ast.FuncLit)
	if !ok || len(lit.Body.List) != 1 || !f.addressable(x.Args[0]) {
		fail("sort.Slice with a comparison that is not a single return")
	}
	rs, ok := lit.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(rs.Results) != 1 {
		fail("sort.Slice with a comparison that is not a single return")
	}
	var ps []*types.Var
	for _, fl := range lit.Type.Params.List {
		for _, n := range fl.Names {
			v, _ := f.t.pr.info.Defs[n].(*types.Var)
			ps = append(ps, v)
		}
	}
	if len(ps) != 2 || ps[0] == nil || ps[1] == nil {
		fail("sort.Slice comparison parameters")
	}
	less := func(a, b string) string {
		f.vars[ps[0]] = &lvar{name: a, kind: plain}
		f.vars[ps[1]] = &lvar{name: b, kind: plain}
		f.noAsserts = true
		ls, e := f.capture(func() string { return f.expr(rs.Results[0]) })
		f.noAsserts = false
		if !onlyAsserts(ls) {
			fail("sort.Slice comparison %s", f.t.pr.src(rs.Results[0]))
		}
		return e
	}
	p := f.lval(x.Args[0])
	in := func(vs ...string) string {
		var cs []string
		for _, v := range vs {
			cs = append(cs, fmt.Sprintf("0 <= %s < %s.len()", v, paren(f.readPath(p))))
		}
		return strings.Join(cs, " && ")
	}
	// the comparison evaluates without a panic, and orders
	a, b, c := f.tmp("si"), f.tmp("sj"), f.tmp("sk")
	for _, v := range []string{a, b, c} {
		f.emit("let %s = havoc::<int>(%d);", v, f.t.fresh())
	}
	f.emit("if %s {", in(a, b, c))
	f.vars[ps[0]] = &lvar{name: a, kind: plain}
	f.vars[ps[1]] = &lvar{name: b, kind: plain}
	f.expr(rs.Results[0])
	f.assert(fmt.Sprintf("!(%s) && ((%s) && (%s) ==> (%s)) && (!(%s) && !(%s) ==> !(%s))", less(a, a), less(a, b), less(b, c), less(a, c), less(a, b), less(b, c), less(a, c)), "strict weak order", x, "")
	f.emit("}")
	o, n := f.tmp("unsorted"), f.tmp("sorted")
	f.emit("let %s = %s;", o, f.readPath(p))
	f.emit("let %s = havoc_like(%s, %d);", n, o, f.t.fresh())
	f.emit("assume(%s.len() == %s.len() && %s.to_multiset() == %s.to_multiset());", n, o, n, o)
	f.emit("assume(forall|x_| #[trigger] %s.contains(x_) <==> %s.contains(x_));", n, o)
	f.write(p, n)
	f.emit("assume(forall|si_: int, sj_: int| 0 <= si_ < sj_ < %s.len() ==> !(%s));", paren(f.readPath(p)), less("sj_", "si_"))
	delete(f.vars, ps[0])
	delete(f.vars, ps[1])
}

// sortPerm models sort.SliceStable(x, less): x becomes some permutation of
// itself (the order is not modelled). The comparison is checked for panics at
// arbitrary indices within x, and may assign to none but its own variables.
func (f *fn) sortPerm(x *ast.CallExpr) {
	lit, ok := unparen(x.Args[1]).(*ast.FuncLit)
	if !ok || !f.addressable(x.Args[0]) {
		fail("sort.SliceStable with a comparison that is not a literal")
	}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			if y.Tok != token.DEFINE {
				fail("sort.SliceStable comparison with an assignment")
			}
		case *ast.IncDecStmt, *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
			fail("sort.SliceStable comparison with effects")
		}
		return true
	})
	p := f.lval(x.Args[0])
	rv := f.tmp("less")
	fr := &frame{kind: "inline", brk: f.tmp("ret"), res: []string{rv}, resT: []types.Type{types.Typ[types.Bool]}}
	f.emit("let mut %s: bool = false;", rv)
	f.emit("let mut %s: bool = false;", fr.brk)
	var conds []string
	var ps []*types.Var
	for _, fl := range lit.Type.Params.List {
		for _, n := range fl.Names {
			v, _ := f.t.pr.info.Defs[n].(*types.Var)
			if v == nil {
				continue
			}
			nm := f.tmp("s" + v.Name())
			f.emit("let %s = havoc::<int>(%d);", nm, f.t.fresh())
			conds = append(conds, fmt.Sprintf("0 <= %s < %s.len()", nm, paren(f.readPath(p))))
			f.vars[v] = &lvar{name: nm, kind: plain}
			ps = append(ps, v)
		}
	}
	f.emit("if %s {", strings.Join(conds, " && "))
	f.ind++
	saveNamed := f.named
	f.named = nil
	f.frames = append(f.frames, fr)
	f.block(lit.Body.List)
	f.frames = f.frames[:len(f.frames)-1]
	f.named = saveNamed
	f.ind--
	f.emit("}")
	for _, v := range ps {
		delete(f.vars, v)
	}
	o, n := f.tmp("unsorted"), f.tmp("sorted")
	f.emit("let %s = %s;", o, f.readPath(p))
	f.emit("let %s = havoc_like(%s, %d);", n, o, f.t.fresh())
	f.emit("assume(%s.len() == %s.len() && %s.to_multiset() == %s.to_multiset());", n, o, n, o)
	f.emit("assume(forall|i_: int| 0 <= i_ < %s.len() ==> %s.contains(#[trigger] %s[i_]));", n, o, n)
	f.write(p, n)
}

func (f *fn) stringer(a ast.Expr, t types.Type, x *ast.CallExpr) string {
	key := ""
	if ifc, ok := f.t.ifaceOf(t); ok {
		key = ifc + ".String"
	} else {
		b := t
		if el, ok := isPtr(t); ok {
			b = el
		}
		if n := namedOf(b); n != nil {
			key = typeName(n) + ".String"
		}
	}
	c := f.t.cs.fns[key]
	if c == nil {
		fail("no contract for %s (used by a format)", key)
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, f.t.pr.pkg, "String")
	m, ok := o.(*types.Func)
	if !ok {
		fail("no String method on %s", t)
	}
	return f.callContract(x, c, m.Type().(*types.Signature), a, nil, false, nil)[0]
}

// inline expands a call of a package function without a contract.
func (f *fn) inline(x *ast.CallExpr, key string, d *ast.FuncDecl, callee *types.Func, recv ast.Expr) []string {
	for _, k := range f.stack {
		if k == key {
			fail("recursive function %s needs a contract", key)
		}
	}
	if len(f.stack) > 6 {
		fail("inlining too deep at %s", key)
	}
	if d.Body == nil {
		fail("no body for %s", key)
	}
	if d.Type.TypeParams != nil {
		fail("generic function %s needs a contract", key)
	}
	return f.inlineBody(x, key, d.Body, callee.Type().(*types.Signature), recv)
}

// closureLit is the literal bound to a local function variable that is
// assigned exactly once.
func (t *tr) closureLit(v *types.Var) *ast.FuncLit {
	var lit *ast.FuncLit
	n := 0
	for _, d := range t.pr.decls {
		if d.Body == nil || v.Pos() < d.Pos() || v.Pos() >= d.End() {
			continue
		}
		ast.Inspect(d.Body, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.AssignStmt:
				for i, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok && t.pr.info.ObjectOf(id) == v {
						n++
						if len(y.Lhs) == len(y.Rhs) {
							if fl, ok := y.Rhs[i].(*ast.FuncLit); ok {
								lit = fl
							}
						}
					}
				}
			case *ast.ValueSpec:
				for i, id := range y.Names {
					if t.pr.info.ObjectOf(id) == v && len(y.Values) > 0 {
						n++
						if len(y.Values) == len(y.Names) {
							if fl, ok := y.Values[i].(*ast.FuncLit); ok {
								lit = fl
							}
						}
					}
				}
			case *ast.UnaryExpr:
				if id, ok := unparen(y.X).(*ast.Ident); ok && y.Op == token.AND && t.pr.info.ObjectOf(id) == v {
					n++
				}
			}
			return true
		})
	}
	if n != 1 {
		return nil
	}
	return lit
}

// inlineClosure inlines a local closure without a contract. What it captures
// must not be shadowed where it is called, nor by its own variables.
func (f *fn) inlineClosure(x *ast.CallExpr, key string, v *types.Var) []string {
	lit := f.t.closureLit(v)
	if lit == nil {
		fail("no contract for closure %s", key)
	}
	for _, k := range f.stack {
		if k == key {
			fail("recursive closure %s needs a contract", key)
		}
	}
	if len(f.stack) > 6 || hasDefer(lit.Body) {
		fail("no contract for closure %s", key)
	}
	own := map[string]bool{}
	caps := map[*types.Var]bool{}
	ast.Inspect(lit, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if d, ok := f.t.pr.info.Defs[id].(*types.Var); ok && !d.IsField() {
				own[id.Name] = true
			} else if u, ok := f.t.pr.info.Uses[id].(*types.Var); ok && !u.IsField() && (u.Pos() < lit.Pos() || u.Pos() >= lit.End()) && u.Parent() != f.t.pr.pkg.Scope() {
				caps[u] = true
			}
		}
		return true
	})
	for c := range caps {
		if own[c.Name()] {
			fail("closure %s shadows %s, which it captures", key, c.Name())
		}
		for o := range f.vars {
			if o != c && o.Name() == c.Name() {
				fail("closure %s is called where another %s is in scope", key, c.Name())
			}
		}
	}
	return f.inlineBody(x, key, lit.Body, v.Type().Underlying().(*types.Signature), nil)
}

func (f *fn) inlineBody(x *ast.CallExpr, key string, body *ast.BlockStmt, sig *types.Signature, recv ast.Expr) []string {
	f.t.inlined[key] = true
	f.stack = append(f.stack, key)
	defer func() { f.stack = f.stack[:len(f.stack)-1] }()

	ps := sigParams(sig)
	type bind struct {
		v    *types.Var
		val  string
		al   *path
		isNN bool
	}
	var binds []bind
	ai := 0
	for i, p := range ps {
		var a ast.Expr
		if sig.Recv() != nil && i == 0 {
			a = recv
		} else if sig.Variadic() && i == len(ps)-1 && x.Ellipsis == token.NoPos {
			el := p.Type().(*types.Slice).Elem()
			s := f.t.zero(p.Type())
			var vs []string
			for ; ai < len(x.Args); ai++ {
				vs = append(vs, f.convTo(x.Args[ai], el))
			}
			if len(vs) > 0 {
				s = "seq![" + strings.Join(vs, ", ") + "]"
			}
			binds = append(binds, bind{v: p, val: s})
			continue
		} else {
			a = x.Args[ai]
			ai++
		}
		pt := p.Type()
		if _, isFn := pt.Underlying().(*types.Signature); isFn {
			fail("function argument to inlined %s", key)
		}
		_, hp := f.t.isHeapPtr(pt)
		_, op := f.t.isOpaque(pt)
		if _, ok := isPtr(pt); ok && !hp && !op {
			if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND && f.addressable(u.X) {
				pp := f.lval(u.X)
				binds = append(binds, bind{v: p, al: &pp})
				continue
			}
			if _, ap := isPtr(f.typ(a)); !ap && f.addressable(a) {
				pp := f.lval(a)
				binds = append(binds, bind{v: p, al: &pp})
				continue
			}
			if id, ok := unparen(a).(*ast.Ident); ok {
				if v := f.obj(id); v != nil {
					if l := f.lookup(v); l != nil && l.kind != plain {
						pp := f.deref(a, a)
						binds = append(binds, bind{v: p, al: &pp})
						continue
					}
				}
			}
		}
		if _, isM := isMap(pt); isM && f.addressable(a) {
			pp := f.lval(a)
			binds = append(binds, bind{v: p, al: &pp})
			continue
		}
		ap := f.passArg(a, "", pt)
		v := f.tmp("arg")
		f.emit("let %s: %s = %s;", v, f.t.vt(pt), ap.val)
		binds = append(binds, bind{v: p, val: v})
	}
	fr := &frame{kind: "inline", brk: f.tmp("ret")}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		rv := f.tmp("rv")
		f.emit("let mut %s: %s = %s;", rv, f.t.vt(rt), f.t.zero(rt))
		fr.res = append(fr.res, rv)
		fr.resT = append(fr.resT, rt)
	}
	f.emit("let mut %s: bool = false;", fr.brk)
	f.emit("{ // inlined %s", key)
	f.ind++
	for _, b := range binds {
		if b.al != nil {
			f.vars[b.v] = &lvar{name: vname(b.v.Name()), kind: alias, p: *b.al}
			continue
		}
		nm := vname(b.v.Name())
		if nm == "" || nm == "_" {
			continue
		}
		f.emit("let mut %s: %s = %s;", nm, f.t.vt(b.v.Type()), b.val)
		f.vars[b.v] = &lvar{name: nm}
	}
	saveNamed := f.named
	f.named = nil
	for i := 0; i < sig.Results().Len(); i++ {
		rv := sig.Results().At(i)
		if rv.Name() != "" && rv.Name() != "_" {
			f.emit("let mut %s: %s = %s;", vname(rv.Name()), f.t.vt(rv.Type()), f.t.zero(rv.Type()))
			f.vars[rv] = &lvar{name: vname(rv.Name())}
			f.named = append(f.named, rv)
		}
	}
	f.frames = append(f.frames, fr)
	f.block(body.List)
	f.frames = f.frames[:len(f.frames)-1]
	f.named = saveNamed
	f.ind--
	f.emit("}")
	return fr.res
}

func (f *fn) callClosure(x *ast.CallExpr, key string, v *types.Var) []string {
	c := f.t.cs.fns[key]
	if c == nil {
		return f.inlineClosure(x, key, v)
	}
	sig := v.Type().Underlying().(*types.Signature)
	var caps []argPass
	for _, cp := range c.captured {
		o, _, _ := strings.Cut(key, "$")
		l := f.captured(f.t.curName(o, cp.name))
		if l == nil {
			fail("closure %s captures unknown variable %s", key, cp.name)
		}
		p := path{base: l.name}
		if l.kind == alias {
			p = l.p
		}
		caps = append(caps, argPass{val: p.read(), mode: cp.mode, path: p})
	}
	return f.callContract(x, c, sig, nil, x.Args, x.Ellipsis != token.NoPos, caps)
}

// captured finds the variable currently in scope under a name.
func (f *fn) captured(name string) *lvar {
	for v, l := range f.vars {
		if v.Name() == name && f.inScopeName(name, v) {
			return l
		}
	}
	return nil
}

func (f *fn) inScopeName(name string, v *types.Var) bool {
	return f.scopeTop(name) == v
}

func (f *fn) scopeTop(name string) *types.Var {
	// the outermost declaration (captured variables are declared before the
	// closure, at function level)
	var best *types.Var
	for v := range f.vars {
		if v.Name() == name && (best == nil || v.Pos() < best.Pos()) {
			best = v
		}
	}
	return best
}

func (t *tr) setExt(key string, sig *types.Signature, recv ast.Expr, f *fn) {
	if t.ext == nil {
		t.ext = map[string]*types.Signature{}
		t.recvOverride = map[string]types.Type{}
	}
	t.ext[key] = sig
	if recv != nil {
		if _, ok := t.isOpaque(f.typ(recv)); ok {
			t.recvOverride[key] = f.typ(recv)
		}
	}
}
