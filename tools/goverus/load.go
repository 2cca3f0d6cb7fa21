package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type program struct {
	fset  *token.FileSet
	pkg   *types.Package
	info  *types.Info
	files []*ast.File
	decls map[string]*ast.FuncDecl // key -> decl
	objs  map[*types.Func]string
}

func loadProgram(dir string) (*program, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,GoFiles,Dir,DepOnly", ".")
	cmd.Dir = dir
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var goFiles []string
	var path string
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p struct {
			ImportPath, Export, Dir string
			GoFiles                 []string
			DepOnly                 bool
		}
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			path = p.ImportPath
			for _, f := range p.GoFiles {
				goFiles = append(goFiles, filepath.Join(p.Dir, f))
			}
		}
	}
	sort.Strings(goFiles)
	pr := &program{fset: token.NewFileSet(), decls: map[string]*ast.FuncDecl{}, objs: map[*types.Func]string{}}
	for _, f := range goFiles {
		a, err := parser.ParseFile(pr.fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		pr.files = append(pr.files, a)
	}
	imp := importer.ForCompiler(pr.fset, "gc", func(p string) (io.ReadCloser, error) {
		e := exports[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(e)
	})
	pr.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp}
	pr.pkg, err = conf.Check(path, pr.fset, pr.files, pr.info)
	if err != nil {
		return nil, err
	}
	for _, f := range pr.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			obj, ok := pr.info.Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			k := funcKey(obj)
			pr.decls[k] = fd
			pr.objs[obj] = k
		}
	}
	return pr, nil
}

// funcKey names a function: "name", "Type.name", or "pkg.name"/"pkg.Type.name"
// for functions of other packages.
func funcKey(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	prefix := ""
	if f.Pkg() != nil && f.Pkg().Name() != "goabnf" {
		prefix = f.Pkg().Name() + "."
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + f.Name()
			}
			return prefix + n.Obj().Name() + "." + f.Name()
		}
		return prefix + "?." + f.Name()
	}
	return prefix + f.Name()
}

func (pr *program) pos(n ast.Node) string {
	p := pr.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (pr *program) src(n ast.Node) string {
	a, b := pr.fset.Position(n.Pos()), pr.fset.Position(n.End())
	data, err := os.ReadFile(a.Filename)
	if err != nil || b.Offset > len(data) {
		return "?"
	}
	s := strings.Join(strings.Fields(string(data[a.Offset:b.Offset])), " ")
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

// constVar returns the value of a package variable that is declared with a
// constant initialiser and never assigned, incremented or address-taken
// anywhere in the package; nil otherwise.
func (pr *program) constVar(v *types.Var) constant.Value {
	val, _ := pr.constInit(v)
	return val
}

// constInit also gives the initialiser expression.
func (pr *program) constInit(v *types.Var) (constant.Value, ast.Expr) {
	if v.Exported() {
		return nil, nil
	}
	return pr.initExpr(v)
}

// initOf gives the initialiser of a package variable that nothing in the
// package assigns (an exported one is assumed to be left alone by others).
func (pr *program) initOf(v *types.Var) ast.Expr {
	_, in := pr.initExpr(v)
	return in
}

func (pr *program) initExpr(v *types.Var) (constant.Value, ast.Expr) {
	if v.Pkg() != pr.pkg || v.Parent() != pr.pkg.Scope() {
		return nil, nil
	}
	var val constant.Value
	var init ast.Expr
	written := false
	is := func(e ast.Expr) bool {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		id, ok := e.(*ast.Ident)
		return ok && pr.info.ObjectOf(id) == v
	}
	for _, file := range pr.files {
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ValueSpec:
				for i, nm := range x.Names {
					if pr.info.Defs[nm] == v && len(x.Values) == len(x.Names) {
						val = pr.info.Types[x.Values[i]].Value
						init = x.Values[i]
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if is(l) {
						written = true
					}
				}
			case *ast.IncDecStmt:
				if is(x.X) {
					written = true
				}
			case *ast.RangeStmt:
				if x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value) {
					written = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && is(x.X) {
					written = true
				}
			}
			return true
		})
	}
	if written {
		return nil, nil
	}
	return val, init
}
