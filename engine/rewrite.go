package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// The command of the repository is a main package with goroutines, channels and locks.
// On every run its current source is rewritten into package verifh/htool, with the
// operations of concurrency replaced by those of vrt/sched.go; nothing else changes.

// toolPkgs are the commands by the package of the harness they become a part of, which is
// also the build tag it needs.
var toolPkgs = map[string]string{
	"htool":   "github.com/pbnjay/grate/cmd/grate2tsv",
	"hgrater": "github.com/pbnjay/grate/cmd/grater",
}

// toolOverlay returns the rewritten files by the path they are given in the harness.
func toolOverlay(pkg string) (map[string][]byte, error) {
	toolPkg := toolPkgs[pkg]
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedImports | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedExportFile,
		Dir: filepath.Join(root, "harness"), Env: goEnv()}
	pkgs, err := packages.Load(cfg, toolPkg)
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 || len(pkgs[0].Syntax) == 0 {
		return nil, fmt.Errorf("no source of %s", toolPkg)
	}
	p := pkgs[0]
	for _, e := range p.Errors {
		return nil, fmt.Errorf("%s: %v", toolPkg, e)
	}
	out := map[string][]byte{}
	for i, f := range p.Syntax {
		if err := rewriteFile(p, f, pkg); err != nil {
			return nil, err
		}
		var buf bytes.Buffer
		// comments are left behind: they would land in the wrong places
		f.Comments, f.Doc = nil, nil
		if err := format.Node(&buf, p.Fset, f); err != nil {
			return nil, err
		}
		name := "tool_" + filepath.Base(p.CompiledGoFiles[i])
		out[filepath.Join(root, "harness", pkg, name)] = append([]byte("//go:build "+pkg+"\n\n"), buf.Bytes()...)
	}
	return out, nil
}

func rewriteFile(p *packages.Package, f *ast.File, pkg string) (err error) {
	info := p.TypesInfo
	f.Name.Name = pkg
	used := map[string]bool{} // packages that may lose their last use
	vrt := func(name string) ast.Expr {
		return &ast.SelectorExpr{X: ast.NewIdent("verifvrt"), Sel: ast.NewIdent(name)}
	}
	isChan := func(e ast.Expr) bool {
		t := info.TypeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Chan)
		return ok
	}
	method := func(c ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.ParenExpr{X: c}, Sel: ast.NewIdent(name)}, Args: args}
	}
	builtin := func(e ast.Expr) string {
		id, ok := e.(*ast.Ident)
		if !ok {
			return ""
		}
		if _, ok := info.Uses[id].(*types.Builtin); !ok {
			return ""
		}
		return id.Name
	}
	pkgName := func(e ast.Expr) string {
		id, ok := e.(*ast.Ident)
		if !ok {
			return ""
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return ""
		}
		return pn.Imported().Path()
	}
	fail := func(n ast.Node, s string) {
		if err == nil {
			err = fmt.Errorf("%v: %s cannot be rewritten", p.Fset.Position(n.Pos()), s)
		}
	}
	n := 0
	fresh := func() *ast.Ident { n++; return ast.NewIdent("verifh" + strconv.Itoa(n)) }
	// two-valued receives are found before their operand is rewritten
	two := map[*ast.UnaryExpr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var lhs int
		var rhs []ast.Expr
		switch x := n.(type) {
		case *ast.AssignStmt:
			lhs, rhs = len(x.Lhs), x.Rhs
		case *ast.ValueSpec:
			lhs, rhs = len(x.Names), x.Values
		}
		if lhs == 2 && len(rhs) == 1 {
			if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				two[u] = true
			}
		}
		return true
	})
	astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.ChanType:
			c.Replace(&ast.StarExpr{X: &ast.IndexExpr{X: vrt("Chan"), Index: x.Value}})
		case *ast.SelectStmt:
			if _, ok := c.Parent().(*ast.LabeledStmt); ok {
				fail(x, "a labeled select")
				break
			}
			block := &ast.BlockStmt{}
			sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
			call := &ast.CallExpr{Fun: vrt("Select")}
			def := "false"
			for _, s := range x.Body.List {
				cc := s.(*ast.CommClause)
				arm := &ast.CaseClause{Body: cc.Body}
				sw.Body.List = append(sw.Body.List, arm)
				if cc.Comm == nil {
					def = "true"
					continue
				}
				v := fresh()
				arm.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(call.Args))}}
				call.Args = append(call.Args, ast.NewIdent(v.Name))
				field := func(name string) ast.Expr {
					return &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent(name)}
				}
				// sends and receives were replaced already
				var op *ast.CallExpr
				switch st := cc.Comm.(type) {
				case *ast.ExprStmt:
					op = ast.Unparen(st.X).(*ast.CallExpr)
				case *ast.AssignStmt:
					op = ast.Unparen(st.Rhs[0]).(*ast.CallExpr)
					as := &ast.AssignStmt{Lhs: st.Lhs, Tok: st.Tok, Rhs: []ast.Expr{field("V")}}
					if len(st.Lhs) == 2 {
						as.Rhs = append(as.Rhs, field("OK"))
					}
					arm.Body = append([]ast.Stmt{as}, arm.Body...)
				}
				sel := op.Fun.(*ast.SelectorExpr)
				name := map[string]string{"Send": "SendCase", "Recv": "RecvCase", "Recv2": "RecvCase"}[sel.Sel.Name]
				block.List = append(block.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{method(sel.X, name, op.Args...)}})
			}
			call.Args = append([]ast.Expr{ast.NewIdent(def)}, call.Args...)
			sw.Tag = call
			block.List = append(block.List, sw)
			c.Replace(block)
		case *ast.SendStmt:
			c.Replace(&ast.ExprStmt{X: method(x.Chan, "Send", x.Value)})
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				if two[x] {
					c.Replace(method(x.X, "Recv2"))
				} else {
					c.Replace(method(x.X, "Recv"))
				}
			}
		case *ast.GoStmt:
			call := x.Call
			body := []ast.Stmt{}
			inner := &ast.CallExpr{Fun: call.Fun, Ellipsis: call.Ellipsis}
			if _, ok := call.Fun.(*ast.FuncLit); !ok {
				switch builtin(call.Fun) {
				case "":
					v := fresh()
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
					inner.Fun = ast.NewIdent(v.Name)
				default:
					fail(x, "go with a builtin")
				}
			}
			for _, a := range call.Args {
				if tv, ok := info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
					inner.Args = append(inner.Args, a)
					continue
				}
				v := fresh()
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				inner.Args = append(inner.Args, ast.NewIdent(v.Name))
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
			body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: vrt("Go"), Args: []ast.Expr{lit}}})
			c.Replace(&ast.BlockStmt{List: body})
		case *ast.RangeStmt:
			if !isChan(x.X) {
				break
			}
			ok, ch := fresh(), fresh()
			var key ast.Expr = ast.NewIdent("_")
			if x.Key != nil {
				key = x.Key
			}
			list := []ast.Stmt{}
			if x.Key == nil || x.Tok == token.DEFINE {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{method(ast.NewIdent(ch.Name), "Recv2")}})
			} else {
				list = append(list, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(ast.NewIdent(ch.Name), "Recv2")}})
			}
			list = append(list, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}, x.Body)
			loop := &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}, Body: &ast.BlockStmt{List: list}}
			c.Replace(loop)
		case *ast.CallExpr:
			switch builtin(x.Fun) {
			case "make":
				if len(x.Args) > 0 && isChanType(x.Args[0]) {
					st := ast.Unparen(x.Args[0]).(*ast.StarExpr).X.(*ast.IndexExpr)
					var size ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(x.Args) > 1 {
						size = x.Args[1]
					}
					c.Replace(&ast.CallExpr{Fun: &ast.IndexExpr{X: vrt("MakeChan"), Index: st.Index}, Args: []ast.Expr{size}})
				} else if isChan(x) {
					fail(x, "a named channel type")
				}
			case "close":
				c.Replace(method(x.Args[0], "Close"))
			case "len", "cap":
				if isChan(x.Args[0]) {
					c.Replace(method(x.Args[0], map[string]string{"len": "Len", "cap": "Cap"}[builtin(x.Fun)]))
				}
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && pkgName(s.X) == "runtime" {
				switch s.Sel.Name {
				case "NumCPU", "GOMAXPROCS":
					used["runtime"] = true
					c.Replace(&ast.CallExpr{Fun: vrt("CPUs")})
				case "Gosched":
					used["runtime"] = true
					c.Replace(&ast.CallExpr{Fun: vrt("Gosched")})
				}
			}
		case *ast.SelectorExpr:
			if pkgName(x.X) == "sync" {
				switch x.Sel.Name {
				case "Mutex", "RWMutex", "WaitGroup", "Once", "Pool", "Locker", "Map":
					used["sync"] = true
					c.Replace(vrt(x.Sel.Name))
				default:
					fail(x, "sync."+x.Sel.Name)
				}
			}
		}
		return true
	})
	if err != nil {
		return err
	}
	// other goroutines may go on in every round of a loop
	ast.Inspect(f, func(n ast.Node) bool {
		var body *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			body = x.Body
		case *ast.RangeStmt:
			body = x.Body
		}
		if body != nil {
			body.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: vrt("Gosched")}}}, body.List...)
		}
		return true
	})
	for path := range used {
		what := map[string]string{"sync": "Mutex", "runtime": "NumCPU"}[path]
		name := path
		for _, im := range f.Imports {
			if im.Path.Value == strconv.Quote(path) && im.Name != nil {
				name = im.Name.Name
			}
		}
		sel := &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(what)}
		vs := &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel}}
		if path == "sync" {
			vs = &ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Type: sel}
		}
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{vs}})
	}
	astutil.AddNamedImport(p.Fset, f, "verifvrt", "verifh/vrt")
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{vrt("CPUs")}}}})
	return nil
}

// isChanType recognises what a ChanType was replaced by.
func isChanType(e ast.Expr) bool {
	st, ok := ast.Unparen(e).(*ast.StarExpr)
	if !ok {
		return false
	}
	ix, ok := st.X.(*ast.IndexExpr)
	if !ok {
		return false
	}
	s, ok := ix.X.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	return ok && id.Name == "verifvrt" && s.Sel.Name == "Chan"
}

// overlayFile writes the rewritten files into dir and returns the name of a file for
// go build -overlay.
func overlayFile(dir string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	for name, data := range ov {
		to := filepath.Join(dir, filepath.Base(filepath.Dir(name))+"_"+filepath.Base(name))
		if err := os.WriteFile(to, data, 0600); err != nil {
			return "", err
		}
		rep[name] = to
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0600)
}
