// Command instr rewrites the non-test Go files of a package so that an explorer can control their
// interleaving: a scheduling point before every statement, controlled select, spawn and timer
// registration, deterministic pools and locks, and a hookable math/rand.
// usage: instr -level N SRC_DIR OUT_DIR   (level 3: everything, 2: no statement splitting,
// 1: no select rewriting either)
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

var level = flag.Int("level", 3, "")

type rw struct {
	fset    *token.FileSet
	file    string
	imports map[string]string // local name -> path
	ntmp    int
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func call(f string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: id(f), Args: args}
}
func str(s string) *ast.BasicLit {
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)}
}

func (r *rw) loc(p token.Pos) string {
	pos := r.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line)
}

func (r *rw) point(p token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call("vsPoint", str(r.loc(p)))}
}

func (r *rw) tmp() string { r.ntmp++; return fmt.Sprintf("vsT%d", r.ntmp) }

// pkgSel reports the import path if e is pkg.Name
func (r *rw) pkgSel(e ast.Expr) (string, string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	x, ok := s.X.(*ast.Ident)
	if !ok || x.Obj != nil {
		return "", ""
	}
	if p, ok := r.imports[x.Name]; ok {
		return p, s.Sel.Name
	}
	return "", ""
}

var randFns = map[string]bool{"Float64": true, "Float32": true, "Int": true, "Intn": true, "Int31": true, "Int31n": true,
	"Int63": true, "Int63n": true, "Uint32": true, "Uint64": true, "Perm": true, "Seed": true, "N": false, "IntN": true, "Int32N": true, "Int64N": true, "Shuffle": true}
var syncTypes = map[string]bool{"Pool": true, "Mutex": true, "RWMutex": true, "Once": true}
var usedPkgs = map[string]string{"math/rand": "Int", "math/rand/v2": "Int", "sync": "NewCond", "time": "Now"}

// expression level rewrites
func (r *rw) exprs(f *ast.File) {
	fix := func(pe *ast.Expr) {
		p, n := r.pkgSel(*pe)
		switch {
		case (p == "math/rand" || p == "math/rand/v2") && randFns[n]:
			*pe = id("vsRand" + n)
		case p == "sync" && syncTypes[n]:
			*pe = id("vs" + n)
		case p == "time" && n == "AfterFunc":
			*pe = id("vsAfterFunc")
		}
	}
	walkExprs(f, fix)
}

// walkExprs visits every expression slot where a selector can be replaced
func walkExprs(root ast.Node, fix func(*ast.Expr)) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			fix(&x.Fun)
			for i := range x.Args {
				fix(&x.Args[i])
			}
		case *ast.CompositeLit:
			if x.Type != nil {
				fix(&x.Type)
			}
			for i := range x.Elts {
				fix(&x.Elts[i])
			}
		case *ast.KeyValueExpr:
			fix(&x.Value)
		case *ast.Field:
			fix(&x.Type)
		case *ast.ValueSpec:
			if x.Type != nil {
				fix(&x.Type)
			}
			for i := range x.Values {
				fix(&x.Values[i])
			}
		case *ast.TypeSpec:
			fix(&x.Type)
		case *ast.StarExpr:
			fix(&x.X)
		case *ast.UnaryExpr:
			fix(&x.X)
		case *ast.BinaryExpr:
			fix(&x.X)
			fix(&x.Y)
		case *ast.ParenExpr:
			fix(&x.X)
		case *ast.ArrayType:
			fix(&x.Elt)
		case *ast.MapType:
			fix(&x.Key)
			fix(&x.Value)
		case *ast.ChanType:
			fix(&x.Value)
		case *ast.AssignStmt:
			for i := range x.Rhs {
				fix(&x.Rhs[i])
			}
		case *ast.ReturnStmt:
			for i := range x.Results {
				fix(&x.Results[i])
			}
		case *ast.TypeAssertExpr:
			if x.Type != nil {
				fix(&x.Type)
			}
		case *ast.IndexExpr:
			fix(&x.Index)
		}
		return true
	})
}

func isGlobal(x *ast.Ident) bool {
	if x.Name == "_" {
		return false
	}
	if x.Obj == nil {
		return true
	}
	if x.Obj.Kind != ast.Var {
		return false
	}
	_, isSpec := x.Obj.Decl.(*ast.ValueSpec)
	return isSpec && globals[x.Obj.Decl.(*ast.ValueSpec)]
}

var globals = map[*ast.ValueSpec]bool{}

// shared reports whether e may denote shared memory
func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return isGlobal(x)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return shared(x.X)
	}
	return false
}

// simple reports an expression free of calls, so it can be evaluated twice
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func interesting(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.BranchStmt, *ast.EmptyStmt, *ast.LabeledStmt:
		return false
	case *ast.DeclStmt:
		return hasEffect(x)
	case *ast.BlockStmt:
		return false
	}
	return hasEffect(s)
}

// hasEffect: does the statement itself (not nested blocks) touch anything but locals and literals
func hasEffect(s ast.Node) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			if n != s {
				return false
			}
		case *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt, *ast.RangeStmt, *ast.SelectorExpr:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW || x.Op == token.AND {
				found = true
			}
		case *ast.Ident:
			if x.Obj != nil && isGlobal(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	var out []ast.Stmt
	if interesting(s) {
		out = append(out, r.point(s.Pos()))
	}
	switch x := s.(type) {
	case *ast.LabeledStmt:
		inner := r.stmt(x.Stmt, x.Label)
		last := inner[len(inner)-1]
		out = append(out, inner[:len(inner)-1]...)
		x.Stmt = last
		return append(out, x)
	case *ast.GoStmt:
		if f, ok := x.Call.Fun.(*ast.Ident); ok && (f.Name == "close" || f.Name == "println" || f.Name == "panic") {
			return append(out, x)
		}
		x.Call.Fun = call("vsWrap", x.Call.Fun)
		return append(out, x)
	case *ast.SelectStmt:
		if *level < 2 {
			return append(out, x)
		}
		return append(out, r.sel(x)...)
	case *ast.IncDecStmt:
		if *level >= 3 && shared(x.X) && simple(x.X) {
			t := r.tmp()
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			out = append(out,
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
				r.point(s.Pos()),
				&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
			return []ast.Stmt{&ast.BlockStmt{List: out}}
		}
	case *ast.AssignStmt:
		if *level < 3 {
			break
		}
		if len(x.Lhs) == len(x.Rhs) && len(x.Lhs) > 1 && x.Tok == token.ASSIGN {
			all := true
			for _, l := range x.Lhs {
				if !shared(l) || !simple(l) {
					all = false
				}
				if _, ok := l.(*ast.Ident); ok {
					all = false
				}
			}
			for _, e := range x.Rhs {
				if b, ok := e.(*ast.Ident); ok && b.Name == "nil" {
					all = false
				}
			}
			if all {
				var names []ast.Expr
				for range x.Lhs {
					names = append(names, id(r.tmp()))
				}
				blk := []ast.Stmt{&ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: x.Rhs}}
				for i, l := range x.Lhs {
					blk = append(blk, r.point(s.Pos()), &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{names[i]}})
				}
				return append(out, &ast.BlockStmt{List: blk})
			}
		}
		if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN && shared(x.Lhs[0]) && simple(x.Lhs[0]) && selfRef(x.Lhs[0], x.Rhs[0]) && !untyped(x.Rhs[0]) {
			// v = f(v): make the read and the write separately schedulable
			t := r.tmp()
			return append(out, &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Rhs[0]}},
				r.point(s.Pos()),
				&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}})
		}
		if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && x.Tok != token.SHL_ASSIGN && x.Tok != token.SHR_ASSIGN && shared(x.Lhs[0]) && simple(x.Lhs[0]) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT}[x.Tok]
			t := r.tmp()
			return append(out, &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}}},
				r.point(s.Pos()),
				&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}})
		}
	}
	return append(out, s)
}

func untyped(e ast.Expr) bool {
	switch e.(type) {
	case *ast.BasicLit:
		return true
	}
	return false
}

func text(e ast.Expr) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	return b.String()
}

func selfRef(l, rhs ast.Expr) bool {
	want := text(l)
	found := false
	ast.Inspect(rhs, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok && !found {
			switch e.(type) {
			case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
				found = text(e) == want
			}
		}
		return !found
	})
	return found
}

func (r *rw) sel(s *ast.SelectStmt) []ast.Stmt {
	var pre []ast.Stmt
	def := "false"
	var args []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := cc.Body
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		t := r.tmp()
		recv := func(e ast.Expr) ast.Expr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				return e.(*ast.UnaryExpr).X
			}
		}
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{call("vsSend", x.Chan, x.Value)}})
		case *ast.ExprStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{call("vsRecv", recv(x.X))}})
		case *ast.AssignStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{call("vsRecv", recv(x.Rhs[0]))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(t), Sel: id("Val")}}
			if len(x.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(t), Sel: id("Ok")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: rhs}}, body...)
		}
		args = append(args, id(t))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)}}, Body: body})
		n++
	}
	sw.Tag = call("vsSelect", append([]ast.Expr{str(r.loc(s.Pos())), id(def)}, args...)...)
	return append(pre, sw)
}

func (r *rw) blocks(f *ast.File) {
	// collect first, rewriting creates new nodes
	var lists []*[]ast.Stmt
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			lists = append(lists, &x.List)
		case *ast.CaseClause:
			lists = append(lists, &x.Body)
		case *ast.CommClause:
			lists = append(lists, &x.Body)
		}
		return true
	})
	// innermost first: later entries are nested deeper or disjoint
	for i := len(lists) - 1; i >= 0; i-- {
		*lists[i] = r.list(*lists[i])
	}
}

func main() {
	flag.Parse()
	src, out := flag.Arg(0), flag.Arg(1)
	var reset bytes.Buffer
	names, _ := filepath.Glob(filepath.Join(src, "*.go"))
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		data, err := os.ReadFile(n)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		// comments carry directives; files that need one other than a build line stay as they are
		if bytes.Contains(data, []byte("//go:embed")) || bytes.Contains(data, []byte("//go:linkname")) || bytes.Contains(data, []byte("import \"C\"")) || bytes.Contains(data, []byte("//go:build")) {
			continue
		}
		f, err := parser.ParseFile(fset, n, data, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					globals[s.(*ast.ValueSpec)] = true
				}
			}
		}
		r := &rw{fset: fset, file: n, imports: map[string]string{}}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, "\"")
			name := filepath.Base(p)
			if p == "math/rand/v2" {
				name = "rand"
			}
			if im.Name != nil {
				name = im.Name.Name
			}
			r.imports[name] = p
		}
		r.blocks(f)
		r.exprs(f)
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				pure := true
				for _, e := range v.Values {
					ast.Inspect(e, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok {
							// only what stays within this package can be re-evaluated elsewhere
							if x, ok := s.X.(*ast.Ident); ok && r.imports[x.Name] != "" {
								pure = false
							}
						}
						return true
					})
				}
				var ns []string
				for _, n := range v.Names {
					ns = append(ns, n.Name)
				}
				fn := fmt.Sprintf("vsReset%d", nreset)
				nreset++
				_ = pure
				var body string
				if len(v.Values) == 0 {
					for _, n := range ns {
						if n != "_" {
							body += fmt.Sprintf("\t{\n\t\tvar z %s\n\t\t%s = z\n\t}\n", text(v.Type), n)
						}
					}
				} else {
					var vs []string
					for _, e := range v.Values {
						vs = append(vs, text(e))
					}
					body = fmt.Sprintf("\t%s = %s\n", strings.Join(ns, ", "), strings.Join(vs, ", "))
				}
				resets[n] = append(resets[n], fmt.Sprintf("func %s() {\n%s}\n", fn, body))
				fmt.Fprintf(&reset, "\t%s()\n", fn)
			}
		}
		var b bytes.Buffer
		b.WriteString("//go:build go1.18\n\n")
		if err := format.Node(&b, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, n, err)
			os.Exit(2)
		}
		for name, p := range r.imports {
			if fn, ok := usedPkgs[p]; ok && name != "_" && name != "." {
				fmt.Fprintf(&b, "\nvar _ = %s.%s\n", name, fn)
			}
		}
		for _, x := range resets[n] {
			fmt.Fprintf(&b, "\n%s", x)
		}
		if err := os.WriteFile(filepath.Join(out, filepath.Base(n)), b.Bytes(), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	// re-evaluates every package variable, so that each execution starts like a fresh process
	src2 := "package j8a\n\nfunc vsResetGlobals() {\n" + reset.String() + "}\n"
	if err := os.WriteFile(filepath.Join(out, "zz_vs_reset.go"), []byte(src2), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

var nreset int
var resets = map[string][]string{}
