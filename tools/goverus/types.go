package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type unsupported struct{ msg string }

func fail(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// tr holds the state of one generated Verus file.
type tr struct {
	pr           *program
	cs           *contractSet
	structs      map[string]string // verus decl per struct
	order        []string
	needIfc      map[string]bool
	havocN       int
	smoke        bool
	stubs        map[string]bool // contract keys needing stubs
	globals      map[string]string
	initial      map[string]bool // package variables whose initial value is extracted
	inDecl       map[string]bool
	moved        map[string]string
	home         map[string]string
	inlined      map[string]bool
	ext          map[string]*types.Signature
	recvOverride map[string]types.Type
	capRen       map[string]map[string]string // outer function -> renamed variables
}

func (t *tr) fresh() int { t.havocN++; return t.havocN }

var rustKw = map[string]bool{"as": true, "break": true, "const": true, "continue": true, "crate": true, "else": true, "enum": true, "extern": true, "false": true, "fn": true, "for": true, "if": true, "impl": true, "in": true, "let": true, "loop": true, "match": true, "mod": true, "move": true, "mut": true, "pub": true, "ref": true, "return": true, "self": true, "Self": true, "static": true, "struct": true, "super": true, "trait": true, "true": true, "type": true, "unsafe": true, "use": true, "where": true, "while": true, "async": true, "await": true, "dyn": true, "abstract": true, "become": true, "box": true, "do": true, "final": true, "macro": true, "override": true, "priv": true, "typeof": true, "unsized": true, "virtual": true, "yield": true, "try": true, "int": true, "nat": true, "old": true, "is": true, "has": true, "forall": true, "exists": true, "assert": true, "assume": true, "spec": true, "proof": true, "exec": true, "closed": true, "open": true, "via": true, "when": true, "by": true, "tracked": true, "ghost": true, "requires": true, "ensures": true, "invariant": true, "decreases": true, "choose": true, "Seq": true, "Map": true, "Set": true, "seq": true, "map": true, "set": true, "Some": true, "None": true}

func vname(s string) string {
	if rustKw[s] {
		return s + "_"
	}
	return s
}

func namedOf(t types.Type) *types.Named {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return x
	}
	return nil
}

func typeName(n *types.Named) string {
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "goabnf" {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return n.Obj().Name()
}

func vtn(s string) string { return strings.ReplaceAll(s, ".", "_") }

func (t *tr) isHeapPtr(ty types.Type) (string, bool) {
	p, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	if !ok {
		return "", false
	}
	n := namedOf(p.Elem())
	if n == nil {
		return "", false
	}
	if t.cs.d.heapT[typeName(n)] {
		return typeName(n), true
	}
	return "", false
}

func (t *tr) isOpaque(ty types.Type) (string, bool) {
	n := namedOf(ty)
	if n == nil {
		if p, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
			n = namedOf(p.Elem())
		}
	}
	if n != nil && t.cs.d.opaques[typeName(n)] {
		return typeName(n), true
	}
	return "", false
}

// vt maps a Go type to a Verus type.
func (t *tr) vt(ty types.Type) string {
	ty = types.Unalias(ty)
	if o, ok := t.isOpaque(ty); ok {
		t.declOpaque(o)
		return "Opq_" + vtn(o)
	}
	if n := namedOf(ty); n != nil {
		if n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
			t.needIface("error")
			return "GoErr"
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			nm := typeName(n)
			if _, ok := t.cs.d.ifaces[nm]; ok {
				t.needIface(nm)
				return vtn(nm)
			}
			fail("interface type %s has no directive", nm)
		}
		if typeName(n) == "strings.Builder" { // the text written so far
			return "Seq<int>"
		}
		if typeName(n) == "big.Int" { // arbitrary-precision integers are the mathematical ones
			return "int"
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			t.needStruct(n)
			return vtn(typeName(n))
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "Seq<int>"
		}
		if u.Kind() == types.UntypedNil {
			return "nil"
		}
	case *types.Slice:
		return "Seq<" + t.vt(u.Elem()) + ">"
	case *types.Array:
		return "Seq<" + t.vt(u.Elem()) + ">"
	case *types.Map:
		return "Map<" + t.vt(u.Key()) + ", " + t.vt(u.Elem()) + ">"
	case *types.Pointer:
		if _, ok := t.isHeapPtr(ty); ok {
			t.vt(u.Elem())
			return "int"
		}
		return "Option<" + t.vt(u.Elem()) + ">"
	case *types.Tuple:
		var ps []string
		for i := 0; i < u.Len(); i++ {
			ps = append(ps, t.vt(u.At(i).Type()))
		}
		return "(" + strings.Join(ps, ", ") + ")"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "()"
		}
	}
	fail("unsupported type %s", ty)
	return ""
}

func (t *tr) declOpaque(o string) {
	nm := "Opq_" + vtn(o)
	if _, ok := t.structs[nm]; !ok {
		t.structs[nm] = fmt.Sprintf("pub struct %s { pub id: int }", nm)
		t.order = append(t.order, nm)
	}
}

func (t *tr) needStruct(n *types.Named) {
	nm := vtn(typeName(n))
	if _, ok := t.structs[nm]; ok || t.inDecl[nm] {
		return
	}
	t.inDecl[nm] = true
	st := n.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		ft, ok := t.tryVT(f.Type())
		if !ok {
			continue // dropped field: reading it is unsupported
		}
		if t.boxed(n, f.Type()) {
			ft = "Box<" + ft + ">"
		}
		fs = append(fs, fmt.Sprintf("pub %s: %s", vname(f.Name()), ft))
	}
	t.structs[nm] = fmt.Sprintf("pub struct %s { %s }", nm, strings.Join(fs, ", "))
	t.order = append(t.order, nm)
	delete(t.inDecl, nm)
}

// boxed: a field of an interface type that has the struct itself as a variant.
func (t *tr) boxed(n *types.Named, ft types.Type) bool {
	ifc, ok := t.ifaceOf(ft)
	if !ok {
		return false
	}
	for _, c := range t.cs.d.ifaces[ifc] {
		if strings.TrimPrefix(c, "*") == typeName(n) {
			return true
		}
	}
	return false
}

func (t *tr) tryVT(ty types.Type) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				s, ok = "", false
				return
			}
			panic(r)
		}
	}()
	return t.vt(ty), true
}

func (t *tr) ifaceVariant(concrete string) string {
	return vtn(strings.TrimPrefix(concrete, "*"))
}

func (t *tr) needIface(nm string) {
	if t.needIfc[nm] {
		return
	}
	t.needIfc[nm] = true
	vn := vtn(nm)
	if nm == "error" {
		vn = "GoErr"
		for nm, k := range t.cs.d.sentinel {
			t.globals["s_"+nm] = fmt.Sprintf("pub open spec fn s_%s() -> GoErr { GoErr::Other(%d) }", nm, k)
		}
	}
	var vs []string
	for _, c := range t.cs.d.ifaces[nm] {
		base := strings.TrimPrefix(c, "*")
		o := t.pr.pkg.Scope().Lookup(base)
		if o == nil {
			fail("interface %s: type %s not found in package", nm, base)
		}
		vs = append(vs, fmt.Sprintf("%s(%s)", t.ifaceVariant(c), t.vt(o.Type())))
	}
	vs = append(vs, "Other(int)", "Nil")
	t.structs["enum "+vn] = fmt.Sprintf("pub enum %s { %s }", vn, strings.Join(vs, ", "))
	t.order = append(t.order, "enum "+vn)
}

// ifaceOf returns the directive name of an interface type.
func (t *tr) ifaceOf(ty types.Type) (string, bool) {
	n := namedOf(ty)
	if n == nil {
		return "", false
	}
	if n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
		return "error", true
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return "", false
	}
	_, ok := t.cs.d.ifaces[typeName(n)]
	return typeName(n), ok
}

func (t *tr) enumName(iface string) string {
	if iface == "error" {
		return "GoErr"
	}
	return vtn(iface)
}

// zero returns the zero value of a Go type.
func (t *tr) zero(ty types.Type) string {
	if n := namedOf(ty); n != nil && typeName(n) == "big.Int" {
		return "0int"
	}
	if n := namedOf(ty); n != nil && typeName(n) == "strings.Builder" {
		return "Seq::<int>::empty()"
	}
	ty = types.Unalias(ty)
	if o, ok := t.isOpaque(ty); ok {
		t.declOpaque(o)
		return "Opq_" + vtn(o) + "{ id: 0 }"
	}
	if i, ok := t.ifaceOf(ty); ok {
		t.needIface(i)
		return t.enumName(i) + "::Nil"
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return "0int"
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return "Seq::<int>::empty()"
		}
	case *types.Slice:
		return "Seq::<" + t.vt(u.Elem()) + ">::empty()"
	case *types.Array:
		return fmt.Sprintf("Seq::<%s>::new(%d, |i: int| %s)", t.vt(u.Elem()), u.Len(), t.zero(u.Elem()))
	case *types.Map:
		return "Map::<" + t.vt(u.Key()) + ", " + t.vt(u.Elem()) + ">::empty()"
	case *types.Pointer:
		if _, ok := t.isHeapPtr(ty); ok {
			return "0int"
		}
		return "None::<" + t.vt(u.Elem()) + ">"
	case *types.Struct:
		if u.NumFields() == 0 && namedOf(ty) == nil {
			return "()"
		}
		n := namedOf(ty)
		if n == nil {
			fail("anonymous struct")
		}
		t.needStruct(n)
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := t.tryVT(f.Type()); !ok {
				continue
			}
			z := t.zero(f.Type())
			if t.boxed(n, f.Type()) {
				z = "Box::new(" + z + ")"
			}
			fs = append(fs, vname(f.Name())+": "+z)
		}
		return vtn(typeName(n)) + " { " + strings.Join(fs, ", ") + " }"
	}
	fail("zero of %s", ty)
	return ""
}

// intRange returns the bounds of an integer type, "" for 64-bit ones (unless
// checked) and untyped.
func intRange(ty types.Type, want64 bool) (lo, hi string, ok bool) {
	b, isB := ty.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return "", "", false
	}
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint16:
		return "0", "65535", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Int, types.Int64:
		if want64 {
			return "-9223372036854775808", "9223372036854775807", true
		}
	case types.Uint64, types.Uint, types.Uintptr:
		if want64 {
			return "0", "18446744073709551615", true
		}
	}
	return "", "", false
}

func (t *tr) declsText() string {
	var b strings.Builder
	// deterministic order
	o := append([]string(nil), t.order...)
	sort.Strings(o)
	for _, nm := range o {
		b.WriteString(t.structs[nm])
		b.WriteString("\n")
	}
	return b.String()
}
