package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"
)

func strconvUnquote(s string) (string, error) { return strconv.Unquote(s) }

// block translates a statement list, guarding what follows a statement that may
// leave the list early.
func (f *fn) block(list []ast.Stmt) {
	had := map[*types.Var]bool{}
	for v := range f.vars {
		had[v] = true
	}
	f.blockIn(list)
	for v, l := range f.vars {
		if !had[v] && (l.kind == alias || l.gone) {
			delete(f.vars, v)
		}
	}
}

func (f *fn) blockIn(list []ast.Stmt) {
	for i, s := range list {
		f.stmt(s)
		if i+1 < len(list) {
			fl := f.exits(s)
			if len(fl) > 0 {
				f.emit("if !(%s) {", strings.Join(fl, " || "))
				f.ind++
				f.blockIn(list[i+1:])
				f.ind--
				f.emit("}")
				return
			}
		}
	}
}

// exits returns the flags of enclosing frames a statement may set.
func (f *fn) exits(s ast.Stmt) []string {
	set := map[string]bool{}
	var walk func(n ast.Node, brkDepth, loopDepth int, labels map[string]bool)
	walk = func(n ast.Node, brkDepth, loopDepth int, labels map[string]bool) {
		switch x := n.(type) {
		case nil:
			return
		case *ast.FuncLit:
			return
		case *ast.ReturnStmt:
			if fr := f.inlineFrame(); fr != nil {
				set[fr.brk] = true
			}
			return
		case *ast.BranchStmt:
			switch x.Tok {
			case token.BREAK:
				if x.Label != nil {
					if !labels[x.Label.Name] {
						if fr := f.frameLabel(x.Label.Name); fr != nil {
							set[fr.brk] = true
						}
					}
				} else if brkDepth == 0 {
					if fr := f.top("loop", "switch"); fr != nil {
						set[fr.brk] = true
					}
				}
			case token.CONTINUE:
				if x.Label != nil {
					if !labels[x.Label.Name] {
						if fr := f.frameLabel(x.Label.Name); fr != nil {
							set[fr.cont] = true
						}
					}
				} else if loopDepth == 0 {
					if fr := f.top("loop"); fr != nil {
						set[fr.cont] = true
					}
				}
			}
			return
		case *ast.LabeledStmt:
			l2 := map[string]bool{x.Label.Name: true}
			for k := range labels {
				l2[k] = true
			}
			walk(x.Stmt, brkDepth, loopDepth, l2)
			return
		case *ast.ForStmt:
			walk(x.Body, brkDepth+1, loopDepth+1, labels)
			return
		case *ast.RangeStmt:
			walk(x.Body, brkDepth+1, loopDepth+1, labels)
			return
		case *ast.SwitchStmt:
			walk(x.Body, brkDepth+1, loopDepth, labels)
			return
		case *ast.TypeSwitchStmt:
			walk(x.Body, brkDepth+1, loopDepth, labels)
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m.(type) {
			case *ast.FuncLit, *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				walk(m, brkDepth, loopDepth, labels)
				return false
			}
			return true
		})
	}
	walk(s, 0, 0, map[string]bool{})
	var out []string
	for k := range set {
		if k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (f *fn) inlineFrame() *frame {
	for i := len(f.frames) - 1; i >= 0; i-- {
		if f.frames[i].kind == "inline" {
			return f.frames[i]
		}
	}
	return nil
}

func (f *fn) top(kinds ...string) *frame {
	for i := len(f.frames) - 1; i >= 0; i-- {
		if f.frames[i].kind == "inline" {
			return nil
		}
		for _, k := range kinds {
			if f.frames[i].kind == k {
				return f.frames[i]
			}
		}
	}
	return nil
}

func (f *fn) frameLabel(l string) *frame {
	for i := len(f.frames) - 1; i >= 0; i-- {
		if f.frames[i].label == l {
			return f.frames[i]
		}
	}
	return nil
}

// leave sets the flags to exit to frame target (exclusive of inner loops, which
// are broken).
func (f *fn) leave(target *frame, flag string) {
	f.emit("%s = true;", flag)
	for i := len(f.frames) - 1; i >= 0; i-- {
		if f.frames[i] == target {
			return
		}
		if f.frames[i].kind == "loop" || f.frames[i].kind == "switch" {
			f.emit("%s = true;", f.frames[i].brk)
		}
	}
}

func (f *fn) declare(v *types.Var, val string) {
	nm := vname(v.Name())
	f.emit("let mut %s: %s = %s;", nm, f.t.vt(f.vtyp(v)), val)
	f.vars[v] = &lvar{name: nm}
	f.declared = append(f.declared, v.Name())
}

func (f *fn) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			f.call(c)
			return
		}
		f.expr(x.X)
	case *ast.BlockStmt:
		f.emit("{")
		f.ind++
		f.block(x.List)
		f.ind--
		f.emit("}")
	case *ast.IncDecStmt:
		p := f.lval(x.X)
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		v := f.arith(fmt.Sprintf("(%s %s 1)", f.readPath(p), op), f.typ(x.X), x)
		f.write(p, v)
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.CONST || gd.Tok == token.TYPE {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				v := f.obj(id)
				if v == nil {
					continue
				}
				if _, isFn := v.Type().Underlying().(*types.Signature); isFn {
					f.bindClosure(v)
					continue
				}
				if id.Name == "_" {
					continue
				}
				if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
					f.declare(v, f.convTo(vs.Values[i], v.Type()))
				} else if len(vs.Values) == 0 {
					f.declare(v, f.t.zero(v.Type()))
				} else {
					fail("multi-value var declaration")
				}
			}
		}
	case *ast.AssignStmt:
		f.assign(x)
	case *ast.IfStmt:
		f.emit("{")
		f.ind++
		if x.Init != nil {
			f.stmt(x.Init)
		}
		c := f.expr(x.Cond)
		f.emit("if %s {", c)
		f.ind++
		f.block(x.Body.List)
		f.ind--
		if x.Else != nil {
			f.emit("} else {")
			f.ind++
			switch e := x.Else.(type) {
			case *ast.BlockStmt:
				f.block(e.List)
			default:
				f.stmt(e)
			}
			f.ind--
		}
		f.emit("}")
		f.ind--
		f.emit("}")
	case *ast.ReturnStmt:
		f.ret(x)
	case *ast.BranchStmt:
		switch x.Tok {
		case token.BREAK:
			var fr *frame
			if x.Label != nil {
				fr = f.frameLabel(x.Label.Name)
			} else {
				fr = f.top("loop", "switch")
			}
			if fr == nil {
				fail("break target")
			}
			f.leave(fr, fr.brk)
		case token.CONTINUE:
			var fr *frame
			if x.Label != nil {
				fr = f.frameLabel(x.Label.Name)
			} else {
				fr = f.top("loop")
			}
			if fr == nil {
				fail("continue target")
			}
			f.leave(fr, fr.cont)
		default:
			fail("branch %s", x.Tok)
		}
	case *ast.LabeledStmt:
		switch b := x.Stmt.(type) {
		case *ast.ForStmt:
			f.forStmt(b, x.Label.Name)
		case *ast.RangeStmt:
			f.rangeStmt(b, x.Label.Name)
		default:
			fail("label on %T", x.Stmt)
		}
	case *ast.ForStmt:
		f.forStmt(x, "")
	case *ast.RangeStmt:
		f.rangeStmt(x, "")
	case *ast.SwitchStmt:
		f.switchStmt(x)
	case *ast.TypeSwitchStmt:
		f.typeSwitch(x)
	default:
		fail("statement %T at %s", s, f.t.pr.pos(s))
	}
}

func (f *fn) bindClosure(v *types.Var) {
	key := f.closureOf + "$" + f.t.baseName(f.closureOf, v.Name())
	f.closures[v] = key
}

func (f *fn) assign(x *ast.AssignStmt) {
	// closures: f = func...
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if _, ok := x.Rhs[0].(*ast.FuncLit); ok {
			id, ok := x.Lhs[0].(*ast.Ident)
			if !ok {
				fail("closure assigned to %s", f.t.pr.src(x.Lhs[0]))
			}
			v := f.obj(id)
			if _, bound := f.closures[v]; !bound {
				f.bindClosure(v)
			}
			return
		}
	}
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		p := f.lval(x.Lhs[0])
		be := &ast.BinaryExpr{X: x.Lhs[0], OpPos: x.TokPos, Y: x.Rhs[0]}
		switch x.Tok {
		case token.ADD_ASSIGN:
			be.Op = token.ADD
		case token.SUB_ASSIGN:
			be.Op = token.SUB
		case token.MUL_ASSIGN:
			be.Op = token.MUL
		case token.QUO_ASSIGN:
			be.Op = token.QUO
		case token.REM_ASSIGN:
			be.Op = token.REM
		case token.OR_ASSIGN:
			be.Op = token.OR
		case token.AND_ASSIGN:
			be.Op = token.AND
		case token.SHL_ASSIGN:
			be.Op = token.SHL
		case token.SHR_ASSIGN:
			be.Op = token.SHR
		default:
			fail("assignment %s", x.Tok)
		}
		f.t.pr.info.Types[be] = types.TypeAndValue{Type: f.typ(x.Lhs[0])}
		v := f.expr(be)
		f.write(p, v)
		return
	}
	// a, b = call() / m[k] / x.(T)
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		var vals []string
		var vts []types.Type
		switch r := unparen(x.Rhs[0]).(type) {
		case *ast.CallExpr:
			vals = f.call(r)
			tup := f.typ(r).(*types.Tuple)
			for i := 0; i < tup.Len(); i++ {
				vts = append(vts, tup.At(i).Type())
			}
		case *ast.IndexExpr:
			m, ok := isMap(f.typ(r.X))
			if !ok {
				fail("comma-ok on %s", f.t.pr.src(r))
			}
			mv := f.atom(f.expr(r.X))
			k := f.atom(f.convTo(r.Index, m.Key()))
			has := fmt.Sprintf("%s.contains_key(%s)", mv, k)
			if f.weakKey(m.Key()) {
				h := f.tmp("hit")
				f.emit("let %s: bool = havoc::<bool>(%d) && %s;", h, f.t.fresh(), has)
				has = h
			}
			vals = []string{fmt.Sprintf("(if %s { %s[%s] } else { %s })", has, mv, k, f.t.zero(m.Elem())), has}
			vts = []types.Type{m.Elem(), types.Typ[types.Bool]}
		case *ast.TypeAssertExpr:
			v, ok := f.assertType(r)
			vals = []string{v, ok}
			vts = []types.Type{f.typ(r.Type), types.Typ[types.Bool]}
			if isStringer(vts[0]) {
				vts[0] = f.typ(r.X)
				if id, ok := x.Lhs[0].(*ast.Ident); ok && x.Tok == token.DEFINE {
					if f.seenAs == nil {
						f.seenAs = map[types.Object]types.Type{}
					}
					f.seenAs[f.t.pr.info.ObjectOf(id)] = vts[0]
				}
			}
		default:
			fail("multi-assignment from %T", r)
		}
		if len(vals) != len(x.Lhs) {
			fail("multi-assignment arity")
		}
		// evaluate into temporaries first
		for i := range vals {
			vals[i] = f.atom(vals[i])
		}
		for i, l := range x.Lhs {
			f.assignOne(l, vals[i], vts[i], x.Tok == token.DEFINE)
		}
		return
	}
	if len(x.Lhs) == 1 {
		l := x.Lhs[0]
		if x.Tok == token.DEFINE || isIdentStmt(l) {
			if f.tryAlias(l, x.Rhs[0], x.Tok == token.DEFINE) {
				return
			}
		}
		if isBlank(l) {
			f.expr(x.Rhs[0])
			return
		}
		lt := f.lhsType(l)
		v := f.convTo(x.Rhs[0], lt)
		f.assignOne(l, v, lt, x.Tok == token.DEFINE)
		if x.Tok == token.DEFINE {
			f.moveInto(l, x.Rhs[0])
		}
		return
	}
	// parallel assignment
	var vals []string
	var ts []types.Type
	for i := range x.Lhs {
		if isBlank(x.Lhs[i]) {
			f.expr(x.Rhs[i])
			vals = append(vals, "")
			ts = append(ts, nil)
			continue
		}
		lt := f.lhsType(x.Lhs[i])
		t := f.tmp("pa")
		f.emit("let %s: %s = %s;", t, f.t.vt(lt), f.convTo(x.Rhs[i], lt))
		vals = append(vals, t)
		ts = append(ts, lt)
	}
	for i := range x.Lhs {
		if isBlank(x.Lhs[i]) {
			continue
		}
		f.assignOne(x.Lhs[i], vals[i], ts[i], x.Tok == token.DEFINE)
	}
}

func isIdentStmt(e ast.Expr) bool { _, ok := e.(*ast.Ident); return ok }

// weakKey reports keys compared by pointer identity but modelled by value: a
// lookup may miss where the model would hit.
func (f *fn) weakKey(t types.Type) bool {
	if ifc, ok := f.t.ifaceOf(t); ok {
		for _, c := range f.t.cs.d.ifaces[ifc] {
			if strings.HasPrefix(c, "*") {
				return true
			}
		}
	}
	if _, ok := isPtr(t); ok {
		_, hp := f.t.isHeapPtr(t)
		return !hp
	}
	return false
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (f *fn) lhsType(l ast.Expr) types.Type {
	if id, ok := l.(*ast.Ident); ok {
		if v := f.obj(id); v != nil {
			return v.Type()
		}
	}
	return f.typ(l)
}

// tryAlias recognises x := &path and m := path-of-map (reference types).
func (f *fn) tryAlias(l, r ast.Expr, define bool) bool {
	id, ok := l.(*ast.Ident)
	if !ok || id.Name == "_" {
		return false
	}
	v := f.obj(id)
	if v == nil || !define || f.t.pr.info.Defs[id] == nil {
		return false
	}
	if u, ok := unparen(r).(*ast.UnaryExpr); ok && u.Op == token.AND {
		if _, isLit := u.X.(*ast.CompositeLit); isLit {
			return false
		}
		if _, hp := f.t.isHeapPtr(v.Type()); hp {
			fail("address of a heap-modelled value")
		}
		f.vars[v] = &lvar{name: vname(id.Name), kind: alias, p: f.lval(u.X)}
		return true
	}
	if _, isM := isMap(v.Type()); isM {
		switch unparen(r).(type) {
		case *ast.IndexExpr, *ast.SelectorExpr:
			if f.addressable(r) {
				f.vars[v] = &lvar{name: vname(id.Name), kind: alias, p: f.lval(r)}
				return true
			}
		}
	}
	return false
}

// moveInto follows a reference stored in a new struct: after y := &T{f: x} the
// local x and y.f denote one object, so x is read and written as y.f.
func (f *fn) moveInto(l, r ast.Expr) {
	id, ok := l.(*ast.Ident)
	if !ok || id.Name == "_" {
		return
	}
	lit := unparen(r)
	if u, ok := lit.(*ast.UnaryExpr); ok && u.Op == token.AND {
		lit = unparen(u.X)
	}
	cl, ok := lit.(*ast.CompositeLit)
	if !ok {
		return
	}
	yv := f.obj(id)
	if yv == nil || f.t.pr.info.Defs[id] == nil {
		return
	}
	if f.fresh == nil {
		f.fresh = map[*types.Var]bool{}
	}
	f.fresh[yv] = true
	if _, hp := f.t.isHeapPtr(yv.Type()); hp {
		return
	}
	if _, ok := f.typ(cl).Underlying().(*types.Struct); !ok {
		return
	}
	for _, el := range cl.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			continue
		}
		xi, ok := unparen(kv.Value).(*ast.Ident)
		if !ok {
			continue
		}
		fi, ok := kv.Key.(*ast.Ident)
		if !ok {
			continue
		}
		xv := f.obj(xi)
		if xv == nil {
			continue
		}
		lv := f.lookup(xv)
		if lv == nil || lv.kind != plain || xv.Parent() != yv.Parent() {
			continue
		}
		_, isP := isPtr(xv.Type())
		_, isM := isMap(xv.Type())
		if _, hp := f.t.isHeapPtr(xv.Type()); hp || !(isP || isM) {
			continue
		}
		if isP && !f.fresh[xv] {
			continue
		}
		var p path
		if _, yp := isPtr(yv.Type()); yp {
			p = f.deref(id, id)
		} else {
			p = f.lval(id)
		}
		st, _ := p.T.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() != fi.Name {
				continue
			}
			n := namedOf(p.T)
			if n == nil {
				break
			}
			p = p.add(pstep{kind: 'f', s: vname(fi.Name), T: st.Field(i).Type(), vt: vtn(typeName(n)), box: f.t.boxed(n, st.Field(i).Type())})
			if isP {
				el, _ := isPtr(xv.Type())
				p = p.add(pstep{kind: 'o', T: el})
			}
			f.vars[xv] = &lvar{name: lv.name, kind: alias, p: p}
		}
	}
}

func (f *fn) assignOne(l ast.Expr, val string, vt types.Type, define bool) {
	if isBlank(l) {
		return
	}
	if id, ok := l.(*ast.Ident); ok {
		v := f.obj(id)
		if define && f.t.pr.info.Defs[id] != nil {
			f.declare(v, f.conv(val, vt, f.vtyp(v), l))
			return
		}
		if lv := f.lookup(v); lv != nil && lv.kind == derefd {
			fail("pointer parameter %s is reassigned", id.Name)
		}
		if lv := f.lookup(v); lv != nil && lv.kind == alias {
			fail("reference variable %s is reassigned", id.Name)
		}
		var gs []string
		if f.c != nil {
			gs = f.c.ghost["set "+id.Name]
		}
		if len(gs) == 0 {
			f.write(f.lval(l), f.conv(val, vt, v.Type(), l))
			return
		}
		old := f.tmp("old")
		f.emit("let %s = %s;", old, f.readPath(f.lval(l)))
		f.write(f.lval(l), f.conv(val, vt, v.Type(), l))
		f.ghostLines(gs, map[string]string{"$old": old})
		return
	}
	val = f.atom(val)
	p := f.lval(l)
	// writing through an absent inner map panics in Go
	s := p.base
	for i, st := range p.steps {
		switch st.kind {
		case 'f':
			s += "." + st.s
		case 'o':
			s += "->0"
		case 'i':
			s += "[" + st.s + "]"
		case 'm':
			if i < len(p.steps)-1 && !(strings.HasPrefix(s, "H_") && s == p.base) {
				f.assert(fmt.Sprintf("%s.contains_key(%s)", s, st.s), "map-entry", l, "")
			}
			s += "[" + st.s + "]"
		}
	}
	if n := len(p.steps); n > 0 && p.steps[n-1].kind == 'm' {
		f.entryChanged(path{base: p.base, steps: p.steps[:n-1]})
	} else {
		f.pathChanged(p)
	}
	f.write(p, f.conv(val, vt, p.T, l))
}

func (f *fn) ret(x *ast.ReturnStmt) {
	if fr := f.inlineFrame(); fr != nil {
		var vals []string
		if len(x.Results) == 1 && len(fr.res) > 1 {
			vals = f.call(unparen(x.Results[0]).(*ast.CallExpr))
		} else if len(x.Results) == 0 {
			for _, v := range f.named {
				vals = append(vals, f.vars[v].name)
			}
		} else {
			for i, r := range x.Results {
				vals = append(vals, f.atom(f.convTo(r, fr.resT[i])))
			}
		}
		for i := range fr.res {
			f.emit("%s = %s;", fr.res[i], vals[i])
		}
		f.leave(fr, fr.brk)
		return
	}
	var vals []string
	res := f.sig.Results()
	if len(x.Results) == 1 && res.Len() > 1 {
		c, ok := unparen(x.Results[0]).(*ast.CallExpr)
		if !ok {
			fail("return of %T", x.Results[0])
		}
		vals = f.call(c)
		tup := f.typ(c).(*types.Tuple)
		for i := range vals {
			vals[i] = f.conv(vals[i], tup.At(i).Type(), res.At(i).Type(), x)
		}
	} else if len(x.Results) == 0 && res.Len() > 0 {
		for _, v := range f.named {
			vals = append(vals, f.vars[v].name)
		}
	} else {
		for i, r := range x.Results {
			vals = append(vals, f.convTo(r, res.At(i).Type()))
		}
	}
	f.emitReturn(vals)
}

func (f *fn) emitReturn(vals []string) {
	for i := range vals {
		nm := fmt.Sprintf("ret%d", i)
		if i < len(f.c.results) {
			nm = f.c.results[i]
		}
		if vals[i] != nm {
			t := f.tmp("rt")
			f.emit("let %s: %s = %s;", t, f.t.vt(f.sig.Results().At(i).Type()), vals[i])
			vals[i] = t
		}
	}
	f.nret++
	if g := append(append([]string(nil), f.c.ghost["return"]...), f.c.ghost[fmt.Sprintf("return %d", f.nret)]...); len(g) > 0 {
		f.emit("{")
		for i := range vals {
			if i < len(f.c.results) {
				f.emit("let %s = %s;", vname(f.c.results[i]), vals[i])
			}
		}
		for _, s := range g {
			f.emit("%s", oneLine(f.names(s)))
		}
		f.emit("}")
	}
	all := append(append([]string(nil), vals...), f.inouts...)
	switch len(all) {
	case 0:
		f.emit("return;")
	case 1:
		f.emit("return %s;", all[0])
	default:
		f.emit("return (%s);", strings.Join(all, ", "))
	}
}

// assigned collects the variables a node assigns (declared outside of it).
func (f *fn) assigned(n ast.Node) map[string]bool {
	out := map[string]bool{}
	addPath := func(e ast.Expr) {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
				continue
			case *ast.SelectorExpr:
				if f.t.pr.info.Selections[y] == nil {
					return
				}
				if hn, ok := f.t.isHeapPtr(f.typ(y.X)); ok {
					out["H_"+vtn(hn)] = true
					return
				}
				e = y.X
				continue
			case *ast.IndexExpr:
				e = y.X
				continue
			case *ast.StarExpr:
				if hn, ok := f.t.isHeapPtr(f.typ(y.X)); ok {
					out["H_"+vtn(hn)] = true
					return
				}
				e = y.X
				continue
			case *ast.UnaryExpr:
				e = y.X
				continue
			case *ast.Ident:
				if v := f.obj(y); v != nil {
					if l := f.lookup(v); l != nil {
						if l.kind == alias {
							out[l.p.base] = true
						} else {
							out[l.name] = true
						}
						return
					}
					// a local of the loop body aliasing something outside
					if src, ok := f.aliasInit(n, v); ok && src != e {
						e = src
						continue
					}
				}
				return
			default:
				return
			}
		}
	}
	var seen = map[string]bool{}
	var visit func(n ast.Node)
	callEffects := func(c *ast.CallExpr) {
		info := f.t.pr.info
		if tv, ok := info.Types[c.Fun]; ok && tv.IsType() {
			return
		}
		if id, ok := unparen(c.Fun).(*ast.Ident); ok {
			if b, ok := info.ObjectOf(id).(*types.Builtin); ok {
				if b.Name() == "delete" || b.Name() == "copy" {
					addPath(c.Args[0])
				}
				return
			}
			if v := f.obj(id); v != nil {
				if k, ok := f.closures[v]; ok {
					if ct := f.t.cs.fns[k]; ct != nil {
						for _, cp := range ct.captured {
							if cp.mode == "inout" {
								o, _, _ := strings.Cut(k, "$")
								if l := f.captured(f.t.curName(o, cp.name)); l != nil {
									if l.kind == alias {
										out[l.p.base] = true
									} else {
										out[l.name] = true
									}
								}
							}
						}
						for _, h := range ct.mods {
							out["H_"+vtn(h)] = true
						}
					} else if lit := f.t.closureLit(v); lit != nil && !seen[k] { // inlined
						seen[k] = true
						visit(lit.Body)
					}
					if f.t.cs.fns[k] == nil {
						for _, a := range c.Args {
							t := f.typ(a)
							_, isP := isPtr(t)
							_, isM := isMap(t)
							if isP || isM {
								addPath(a)
							}
						}
					}
				} else {
					// a function value may change what it is handed a reference to
					for _, a := range c.Args {
						t := f.typ(a)
						_, isP := isPtr(t)
						_, isM := isMap(t)
						if isP || isM {
							addPath(a)
						}
					}
				}
				return
			}
		}
		var callee *types.Func
		var recv ast.Expr
		switch fu := unparen(c.Fun).(type) {
		case *ast.Ident:
			callee, _ = info.ObjectOf(fu).(*types.Func)
		case *ast.SelectorExpr:
			if sel := info.Selections[fu]; sel != nil {
				callee, _ = sel.Obj().(*types.Func)
				recv = fu.X
			} else {
				callee, _ = info.ObjectOf(fu.Sel).(*types.Func)
			}
		}
		if callee == nil {
			return
		}
		key := funcKey(callee)
		if key == "sort.Slice" || key == "sort.SliceStable" {
			addPath(c.Args[0])
			return
		}
		if recv != nil {
			if ifc, ok := f.t.ifaceOf(f.typ(recv)); ok {
				key = ifc + "." + callee.Name()
			} else if op, ok := f.t.isOpaque(f.typ(recv)); ok {
				key = op + "." + callee.Name()
			}
		}
		ct := f.t.cs.fns[key]
		sig := callee.Type().(*types.Signature)
		if ct == nil {
			// inlined: every reference argument may change
			if recv != nil {
				addPath(recv)
			}
			for _, a := range c.Args {
				t := f.typ(a)
				_, isP := isPtr(t)
				_, isM := isMap(t)
				if isP || isM {
					addPath(a)
				}
			}
			if d := f.t.pr.decls[key]; d != nil && !seen[key] && d.Body != nil {
				seen[key] = true
				ast.Inspect(d.Body, func(m ast.Node) bool {
					if cc, ok := m.(*ast.CallExpr); ok {
						_ = cc
					}
					return true
				})
				// the inlined body can only change what this function may change
				for hn := range f.t.cs.d.heapT {
					if slices.Contains(f.inouts, "H_"+vtn(hn)) {
						out["H_"+vtn(hn)] = true
					}
				}
			}
			return
		}
		for _, h := range ct.mods {
			out["H_"+vtn(h)] = true
		}
		ai := 0
		for i := range ct.params {
			var a ast.Expr
			if sig.Recv() != nil && i == 0 {
				a = recv
			} else {
				if ai >= len(c.Args) {
					break
				}
				a = c.Args[ai]
				ai++
			}
			if ct.params[i].mode == "inout" || ct.params[i].mode == "out" && !f.t.pr.info.Types[unparen(a)].IsNil() {
				addPath(a)
			}
		}
	}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok && y.Tok == token.DEFINE && f.t.pr.info.Defs[id] != nil {
						continue // a new variable
					}
					addPath(l)
				}
			case *ast.IncDecStmt:
				addPath(y.X)
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					if y.Key != nil {
						addPath(y.Key)
					}
					if y.Value != nil {
						addPath(y.Value)
					}
				}
			case *ast.CallExpr:
				if id, ok := unparen(y.Fun).(*ast.Ident); ok && id.Name == "new" && len(y.Args) == 1 {
					if hn, hp := f.t.isHeapPtr(f.typ(y)); hp {
						out["H_"+vtn(hn)] = true
					}
				}
				callEffects(y)
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if cl, ok := y.X.(*ast.CompositeLit); ok {
						if hn, hp := f.t.isHeapPtr(types.NewPointer(f.typ(cl))); hp {
							out["H_"+vtn(hn)] = true
						}
					}
				}
			}
			return true
		})
	}
	visit(n)
	return out
}

// aliasInit finds the initialiser of a reference variable declared inside n.
func (f *fn) aliasInit(n ast.Node, v *types.Var) (ast.Expr, bool) {
	var res ast.Expr
	_, isM := isMap(v.Type())
	_, isP := isPtr(v.Type())
	if !isM && !isP {
		return nil, false
	}
	ast.Inspect(n, func(m ast.Node) bool {
		a, ok := m.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != len(a.Rhs) {
			return true
		}
		for i, l := range a.Lhs {
			if id, ok := l.(*ast.Ident); ok && f.t.pr.info.Defs[id] == v {
				switch r := unparen(a.Rhs[i]).(type) {
				case *ast.UnaryExpr, *ast.IndexExpr, *ast.SelectorExpr:
					res = r
				}
			}
		}
		return true
	})
	return res, res != nil
}

func (f *fn) havocVars(names map[string]bool) {
	var ns []string
	for n := range names {
		if f.isLocalName(n) {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		f.emit("%s = havoc_like(%s, %d);", n, n, f.t.fresh())
		f.reassumeType(n)
	}
}

// reassumeType restates the Go type range of a havocked scalar.
func (f *fn) reassumeType(name string) {
	var best *types.Var
	for v, l := range f.vars {
		if l.kind == plain && l.name == name && (best == nil || v.Pos() > best.Pos()) {
			best = v
		}
	}
	if best != nil {
		if lo, hi, ok := intRange(best.Type(), f.c != nil && f.c.checked); ok {
			f.emit("assume(%s <= %s <= %s);", lo, name, hi)
		}
	}
}

func (f *fn) isLocalName(n string) bool {
	return !strings.HasSuffix(n, "()")
}

func (f *fn) names(s string) string {
	if len(f.rename) == 0 {
		return s
	}
	return substIdents(s, f.rename)
}

func (f *fn) loopSpec() (int, *loopSpec) {
	f.loopN++
	ls := f.c.loops[f.loopN]
	if ls == nil {
		ls = &loopSpec{}
	}
	return f.loopN, ls
}

func (f *fn) invs(ls *loopSpec, n int, sub map[string]string, kind string, at ast.Node) {
	for _, iv := range ls.invs {
		t := dollar(f.names(iv.text), sub)
		f.assert(t, fmt.Sprintf("loop%d-%s", n, kind), at, iv.text)
	}
}

func (f *fn) assumeInvs(ls *loopSpec, sub map[string]string) {
	for _, iv := range ls.invs {
		f.emit("assume(%s);", oneLine(dollar(f.names(iv.text), sub)))
	}
}

func dollar(s string, sub map[string]string) string {
	for _, k := range []string{"$old", "$done", "$m", "$i", "$s", "$r0", "$r1", "$r2", "$a0", "$a1", "$a2", "$a3", "$a4", "$a5"} {
		if v, ok := sub[k]; ok {
			s = strings.ReplaceAll(s, k, v)
		}
	}
	return s
}

func (f *fn) ghostLines(gs []string, sub map[string]string) {
	for _, g := range gs {
		f.emit("%s", oneLine(dollar(f.names(g), sub)))
	}
}

func (f *fn) smokePoint(what string, at ast.Node) {
	if !f.t.smoke {
		return
	}
	o := f.ob("smoke-"+what, at, "")
	f.lines = append(f.lines, line{text: fmt.Sprintf("if havoc::<bool>(%d) { assert(false); }", f.t.fresh()), ob: o})
}

func (f *fn) forStmt(x *ast.ForStmt, label string) {
	n, ls := f.loopSpec()
	f.emit("{ // loop %d", n)
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	fr := &frame{kind: "loop", label: label, brk: fmt.Sprintf("brk_%d", n), cont: fmt.Sprintf("cont_%d", n)}
	f.ghostLines(ls.pre, nil)
	f.invs(ls, n, nil, "entry", x)
	mods := f.assigned(x.Body)
	if x.Post != nil {
		for k := range f.assigned(x.Post) {
			mods[k] = true
		}
	}
	if x.Cond != nil {
		for k := range f.assigned(x.Cond) {
			mods[k] = true
		}
	}
	f.havocVars(mods)
	f.assumeInvs(ls, nil)
	f.emit("let mut %s: bool = false;", fr.brk)
	c := "true"
	if x.Cond != nil {
		c = f.expr(x.Cond)
	}
	f.emit("let go_%d: bool = %s;", n, c)
	f.emit("if go_%d {", n)
	f.ind++
	f.smokePoint(fmt.Sprintf("loop%d", n), x)
	f.emit("let mut %s: bool = false;", fr.cont)
	f.ghostLines(ls.head, nil)
	f.frames = append(f.frames, fr)
	f.block(x.Body.List)
	f.frames = f.frames[:len(f.frames)-1]
	f.emit("if !%s {", fr.brk)
	f.ind++
	if x.Post != nil {
		f.stmt(x.Post)
	}
	f.ghostLines(ls.end, nil)
	f.invs(ls, n, nil, "step", x)
	f.emit("assume(false);")
	f.ind--
	f.emit("}")
	f.ind--
	f.emit("}")
	f.emit("assume(!go_%d || %s);", n, fr.brk)
	f.ghostLines(ls.exit, nil)
	f.ind--
	f.emit("}")
}

func (f *fn) rangeStmt(x *ast.RangeStmt, label string) {
	n, ls := f.loopSpec()
	f.emit("{ // loop %d", n)
	f.ind++
	rt := f.typ(x.X)
	fr := &frame{kind: "loop", label: label, brk: fmt.Sprintf("brk_%d", n), cont: fmt.Sprintf("cont_%d", n)}
	sub := map[string]string{}
	si := fmt.Sprintf("ri_%d", n)
	ss := fmt.Sprintf("rs_%d", n)
	sd := fmt.Sprintf("rd_%d", n)
	sub["$i"], sub["$s"], sub["$done"], sub["$m"] = si, ss, sd, ss
	m, isM := isMap(rt)
	el, isS := isSlice(rt)
	isN := isInt(rt)
	var kT types.Type = types.Typ[types.Int]
	if isN {
		kT = rt
	}
	switch {
	case isM:
		kT = m.Key()
		el = m.Elem()
		f.emit("let %s = %s;", ss, f.expr(x.X))
		f.emit("let mut %s: Set<%s> = Set::empty();", sd, f.t.vt(m.Key()))
	case isS:
		f.emit("let %s = %s;", ss, f.expr(x.X))
		f.emit("let mut %s: int = 0;", si)
	case isN:
		f.emit("let %s: int = %s;", ss, f.expr(x.X))
		f.emit("let mut %s: int = 0;", si)
	default:
		fail("range over %s", rt)
	}
	f.ghostLines(ls.pre, sub)
	f.invs(ls, n, sub, "entry", x)
	mods := f.assigned(x.Body)
	f.havocVars(mods)
	if isM {
		if id, ok := unparen(x.X).(*ast.Ident); ok {
			if v := f.obj(id); v != nil {
				if l := f.lookup(v); l != nil && mods[l.name] {
					fail("map modified while ranged over")
				}
			}
		}
		f.emit("%s = havoc_like(%s, %d);", sd, sd, f.t.fresh())
		f.emit("assume(forall|k_: %s| #[trigger] %s.contains(k_) ==> %s.contains_key(k_));", f.t.vt(m.Key()), sd, ss)
	} else {
		f.emit("%s = havoc_like(%s, %d);", si, si, f.t.fresh())
		if isS {
			f.emit("assume(0 <= %s <= %s.len());", si, ss)
		} else {
			f.emit("assume(0 <= %s && (%s <= %s || %s == 0));", si, si, ss, si)
		}
	}
	f.assumeInvs(ls, sub)
	f.emit("let mut %s: bool = false;", fr.brk)
	switch {
	case isM:
		f.emit("let go_%d: bool = havoc::<bool>(%d);", n, f.t.fresh())
	case isS:
		f.emit("let go_%d: bool = %s < %s.len();", n, si, ss)
	default:
		f.emit("let go_%d: bool = %s < %s;", n, si, ss)
	}
	f.emit("if go_%d {", n)
	f.ind++
	bindVar := func(e ast.Expr, val string, t types.Type) {
		if e == nil || isBlank(e) {
			return
		}
		if lo, hi, ok := intRange(t, false); ok {
			f.emit("assume(%s <= %s <= %s);", lo, val, hi)
		}
		if x.Tok == token.DEFINE {
			f.declare(f.obj(e.(*ast.Ident)), val)
		} else {
			f.assignOne(e, val, t, false)
		}
	}
	if isM {
		kn := fmt.Sprintf("rk_%d", n)
		f.emit("let %s = havoc::<%s>(%d);", kn, f.t.vt(m.Key()), f.t.fresh())
		f.emit("assume(%s.contains_key(%s) && !%s.contains(%s));", ss, kn, sd, kn)
		bindVar(x.Key, kn, kT)
		bindVar(x.Value, fmt.Sprintf("%s[%s]", ss, kn), el)
	} else {
		if isS {
			f.valueRangeCheck(x, mods)
		}
		bindVar(x.Key, si, kT)
		if isS {
			bindVar(x.Value, fmt.Sprintf("%s[%s]", ss, si), el)
		}
	}
	f.smokePoint(fmt.Sprintf("loop%d", n), x)
	f.emit("let mut %s: bool = false;", fr.cont)
	f.ghostLines(ls.head, sub)
	f.frames = append(f.frames, fr)
	f.block(x.Body.List)
	f.frames = f.frames[:len(f.frames)-1]
	f.emit("if !%s {", fr.brk)
	f.ind++
	if isM {
		f.emit("%s = %s.insert(rk_%d);", sd, sd, n)
	} else {
		f.emit("%s = %s + 1;", si, si)
	}
	f.ghostLines(ls.end, sub)
	f.invs(ls, n, sub, "step", x)
	f.emit("assume(false);")
	f.ind--
	f.emit("}")
	f.ind--
	f.emit("}")
	f.emit("assume(!go_%d || %s);", n, fr.brk)
	if isM {
		f.emit("if !%s { assume(forall|k_: %s| #[trigger] %s.contains_key(k_) <==> %s.contains(k_)); }", fr.brk, f.t.vt(m.Key()), ss, sd)
	}
	f.ghostLines(ls.exit, sub)
	f.ind--
	f.emit("}")
}

// valueRangeCheck refuses a value-range over a slice variable whose elements the
// body writes (the model reads a snapshot).
func (f *fn) valueRangeCheck(x *ast.RangeStmt, mods map[string]bool) {
	if x.Value == nil || isBlank(x.Value) {
		return
	}
	id, ok := unparen(x.X).(*ast.Ident)
	if !ok {
		return
	}
	v := f.obj(id)
	if v == nil {
		return
	}
	bad := false
	ast.Inspect(x.Body, func(m ast.Node) bool {
		if a, ok := m.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					if b, ok := ix.X.(*ast.Ident); ok && f.obj(b) == v {
						bad = true
					}
				}
			}
		}
		return true
	})
	if bad {
		fail("slice elements written while ranged over by value")
	}
}

func hasBreak(list []ast.Stmt) bool {
	found := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
				if m != n {
					return false
				}
			case *ast.BranchStmt:
				if y.Tok == token.BREAK && y.Label == nil {
					found = true
				}
			}
			return true
		})
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			continue
		}
		walk(s)
	}
	return found
}

func (f *fn) switchFrame() *frame {
	f.tmpN++
	fr := &frame{kind: "switch", brk: fmt.Sprintf("sbrk_%d", f.tmpN)}
	f.emit("let mut %s: bool = false;", fr.brk)
	return fr
}

func (f *fn) switchStmt(x *ast.SwitchStmt) {
	f.emit("{")
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	fr := f.switchFrame()
	tag := ""
	var tagT types.Type
	if x.Tag != nil {
		tagT = f.typ(x.Tag)
		tag = f.tmp("tag")
		f.emit("let %s = %s;", tag, f.expr(x.Tag))
	}
	var def *ast.CaseClause
	closes := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		for _, s := range cc.Body {
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				fail("fallthrough")
			}
		}
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		for i, e := range cc.List {
			var cnd string
			if tag != "" {
				v := f.convTo(e, tagT)
				if isString(tagT) {
					cnd = tag + " =~= " + v
				} else {
					cnd = tag + " == " + v
				}
			} else {
				ls, cs := f.capture(func() string { return f.expr(e) })
				if len(ls) > 0 && i > 0 {
					// later alternatives are only evaluated when earlier ones fail
					fail("switch case with effects in a list")
				}
				f.lines = append(f.lines, ls...)
				cnd = cs
			}
			conds = append(conds, cnd)
		}
		f.emit("if %s {", strings.Join(conds, " || "))
		f.ind++
		f.frames = append(f.frames, fr)
		f.block(cc.Body)
		f.frames = f.frames[:len(f.frames)-1]
		f.ind--
		f.emit("} else {")
		f.ind++
		closes++
	}
	if def != nil {
		f.frames = append(f.frames, fr)
		f.block(def.Body)
		f.frames = f.frames[:len(f.frames)-1]
	}
	for ; closes > 0; closes-- {
		f.ind--
		f.emit("}")
	}
	f.ind--
	f.emit("}")
}

func (f *fn) typeSwitch(x *ast.TypeSwitchStmt) {
	f.emit("{")
	f.ind++
	if x.Init != nil {
		f.stmt(x.Init)
	}
	fr := f.switchFrame()
	var ta *ast.TypeAssertExpr
	switch a := x.Assign.(type) {
	case *ast.AssignStmt:
		ta = a.Rhs[0].(*ast.TypeAssertExpr)
	case *ast.ExprStmt:
		ta = a.X.(*ast.TypeAssertExpr)
	}
	it := f.typ(ta.X)
	v := f.tmp("ts")
	f.emit("let %s = %s;", v, f.expr(ta.X))
	var def *ast.CaseClause
	closes := 0
	bindImplicit := func(cc *ast.CaseClause, val string) {
		if o, ok := f.t.pr.info.Implicits[cc]; ok {
			ov := o.(*types.Var)
			if el, isP := isPtr(ov.Type()); isP && strings.HasPrefix(val, "Some(") {
				if _, hp := f.t.isHeapPtr(ov.Type()); !hp {
					// a non-nil pointer payload: bind its value
					f.emit("let mut %s: %s = %s;", vname(ov.Name()), f.t.vt(el), unSome(val))
					f.vars[ov] = &lvar{name: vname(ov.Name()), kind: derefd}
					return
				}
			}
			f.emit("let mut %s: %s = %s;", vname(ov.Name()), f.t.vt(ov.Type()), val)
			f.vars[ov] = &lvar{name: vname(ov.Name())}
		}
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var conds []string
		pay := v
		for _, e := range cc.List {
			if f.isNil(e) {
				conds = append(conds, "("+v+" is Nil)")
				continue
			}
			cnd, p := f.isVariant(v, it, f.typ(e))
			conds = append(conds, cnd)
			if len(cc.List) == 1 {
				pay = p
			}
		}
		f.emit("if %s {", strings.Join(conds, " || "))
		f.ind++
		bindImplicit(cc, pay)
		f.frames = append(f.frames, fr)
		f.block(cc.Body)
		f.frames = f.frames[:len(f.frames)-1]
		f.ind--
		f.emit("} else {")
		f.ind++
		closes++
	}
	if def != nil {
		bindImplicit(def, v)
		f.frames = append(f.frames, fr)
		f.block(def.Body)
		f.frames = f.frames[:len(f.frames)-1]
	}
	for ; closes > 0; closes-- {
		f.ind--
		f.emit("}")
	}
	f.ind--
	f.emit("}")
}
