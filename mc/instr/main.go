// Command instr writes instrumented copies of the library's current source files and an overlay file for
// "go build -overlay". Nothing in the source tree is changed.
//
//	instr maps  REPO OUTDIR    every range over a map asks the checker for the iteration order
//	instr sched REPO OUTDIR    every statement is preceded by a scheduling point
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type emptyImporter map[string]*types.Package

func (m emptyImporter) Import(path string) (*types.Package, error) {
	p := m[path]
	if p == nil {
		p = types.NewPackage(path, path[strings.LastIndex(path, "/")+1:])
		p.MarkComplete()
		m[path] = p
	}
	return p, nil
}

func main() {
	mode, repo, out := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	dirs := []string{"", "beta"}
	if mode == "sched" {
		sub, _ := os.ReadDir(filepath.Join(repo, "internal"))
		for _, e := range sub {
			if e.IsDir() {
				dirs = append(dirs, "internal/"+e.Name())
			}
		}
	}
	points := 0
	imports, calls := "", "" // hooks of the internal packages, set by that of the root package
	rootHook, rootDst := "", ""
	for _, d := range dirs {
		src := filepath.Join(repo, d)
		ents, err := os.ReadDir(src)
		if err != nil && d != "" {
			continue
		}
		check(err)
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(src, n), nil, parser.ParseComments|parser.SkipObjectResolution)
			check(err)
			files, names = append(files, f), append(names, n)
		}
		if len(files) == 0 {
			continue
		}
		pkg := files[0].Name.Name
		in := &instr{mode: mode, base: points, ownMaps: mode == "maps" || d == "" || d == "beta"}
		if in.ownMaps {
			in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
			conf := types.Config{Importer: emptyImporter{}, Error: func(error) {}, FakeImportC: true}
			_, _ = conf.Check(pkg, fset, files, in.info)
		}
		for i, f := range files {
			n := in.n
			if hasGoVersionTag(f) {
				continue // keeps its own language version; such files hold no logic here
			}
			in.file(f)
			if in.n == n {
				continue
			}
			points += in.n - n
			dst := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"_"+names[i])
			w, err := os.Create(dst)
			check(err)
			fmt.Fprint(w, "//go:build go1.21\n\n")
			f.Comments = keepDirectives(f)
			check(printer.Fprint(w, fset, f))
			check(w.Close())
			overlay[filepath.Join(src, names[i])] = dst
		}
		if in.n == 0 {
			continue
		}
		h := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"_zzv_hook.go")
		text := strings.ReplaceAll(mapsHook, "PKG", pkg)
		if mode == "sched" {
			if in.ownMaps {
				mh := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"_zzv_maps.go")
				check(os.WriteFile(mh, []byte(text), 0o644))
				overlay[filepath.Join(src, "zzv_maps.go")] = mh
			}
			text = strings.ReplaceAll(schedHook, "PKG", pkg)
			switch {
			case d == "":
				rootHook, rootDst = text, h
			case strings.HasPrefix(d, "internal/"):
				imports += fmt.Sprintf("import zzv%s %q\n", pkg, modulePath(repo)+"/"+d)
				calls += fmt.Sprintf("\tzzv%s.ZzvPoint = f\n", pkg)
			}
		}
		check(os.WriteFile(h, []byte(text), 0o644))
		overlay[filepath.Join(src, "zzv_hook.go")] = h
	}
	if rootHook != "" {
		rootHook = strings.Replace(rootHook, "\n// ZzvPoint", "\n"+imports+"\n// ZzvPoint", 1)
		rootHook += "\n// ZzvSetPoint sets the hook of this package and of those it uses.\nfunc ZzvSetPoint(f func(id int)) {\n\tZzvPoint = f\n" + calls + "}\n"
		check(os.WriteFile(rootDst, []byte(rootHook), 0o644))
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(points)
}

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	check(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	return ""
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func hasGoVersionTag(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				return true
			}
		}
	}
	return false
}

// keepDirectives drops all comments but compiler directives in front of declarations (positions move when statements are inserted).
func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var out []*ast.CommentGroup
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			var l []*ast.Comment
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:") {
					l = append(l, c)
				}
			}
			if l == nil {
				fd.Doc = nil
			} else {
				fd.Doc.List = l
				out = append(out, fd.Doc)
			}
		}
	}
	return out
}

type instr struct {
	mode    string
	base    int // number of points in the packages before this one
	ownMaps bool
	info    *types.Info
	n       int
	uniq    int
}

func (in *instr) file(f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if in.mode == "sched" && fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		in.block(fd.Body)
	}
	if in.mode != "maps" {
		ast.Inspect(f, in.atomics)
	}
}

// atomics puts a scheduling point after every atomic operation inside an expression.
func (in *instr) atomics(n ast.Node) bool {
	wrap := func(p *ast.Expr) {
		c, ok := (*p).(*ast.CallExpr)
		if !ok {
			return
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		if s.Sel.Name == "Load" && len(c.Args) == 0 {
			*p = &ast.CallExpr{Fun: ast.NewIdent("zzvAfter"), Args: []ast.Expr{in.id(), c}}
			return
		}
		x, ok := s.X.(*ast.Ident)
		if ok && x.Name == "atomic" {
			for _, pre := range []string{"Load", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
				if strings.HasPrefix(s.Sel.Name, pre) {
					*p = &ast.CallExpr{Fun: ast.NewIdent("zzvAfter"), Args: []ast.Expr{in.id(), c}}
					return
				}
			}
		}
	}
	switch t := n.(type) {
	case *ast.AssignStmt:
		for i := range t.Rhs {
			wrap(&t.Rhs[i])
		}
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "zzvAfter" {
			return true
		}
		for i := range t.Args {
			wrap(&t.Args[i])
		}
	case *ast.BinaryExpr:
		wrap(&t.X)
		wrap(&t.Y)
	case *ast.ReturnStmt:
		for i := range t.Results {
			wrap(&t.Results[i])
		}
	case *ast.ParenExpr:
		wrap(&t.X)
	case *ast.TypeAssertExpr:
		wrap(&t.X)
	case *ast.SelectorExpr:
		wrap(&t.X)
	}
	return true
}

// block instruments one statement list holder and everything below it.
func (in *instr) block(b ast.Node) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.BlockStmt:
			t.List = in.list(t.List)
		case *ast.CaseClause:
			t.Body = in.list(t.Body)
		case *ast.CommClause:
			t.Body = in.list(t.Body)
		}
		return true
	})
}

// id numbers the scheduling points of all packages.
func (in *instr) id() ast.Expr {
	in.n++
	return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(in.base + in.n)}
}

func (in *instr) list(l []ast.Stmt) []ast.Stmt {
	if in.mode == "maps" {
		for i, s := range l {
			l[i] = in.maps(s)
		}
		return l
	}
	var out []ast.Stmt
	for _, s := range l {
		if in.ownMaps {
			s = in.maps(s)
		}
		switch t := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		case *ast.DeclStmt:
			if g, ok := t.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				out = append(out, s)
				continue
			}
		}
		out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("zzvPoint"), Args: []ast.Expr{in.id()}}}, s)
	}
	return out
}

func (in *instr) maps(s ast.Stmt) ast.Stmt {
	if l, ok := s.(*ast.LabeledStmt); ok {
		l.Stmt = in.maps(l.Stmt)
		return l
	}
	r, ok := s.(*ast.RangeStmt)
	if !ok {
		return s
	}
	tv, ok := in.info.Types[r.X]
	if !ok || tv.Type == nil {
		return s
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return s
	}
	in.n++
	in.uniq++
	it := ast.NewIdent(fmt.Sprintf("zzvI%d", in.uniq))
	k, v := ast.NewIdent(fmt.Sprintf("zzvK%d", in.uniq)), ast.NewIdent(fmt.Sprintf("zzvV%d", in.uniq))
	body := r.Body
	var pre []ast.Stmt
	bind := func(e ast.Expr, id **ast.Ident) {
		if e == nil {
			return
		}
		if x, ok := e.(*ast.Ident); ok && x.Name == "_" {
			return
		}
		if r.Tok == token.DEFINE {
			*id = e.(*ast.Ident)
			return
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.ASSIGN, Rhs: []ast.Expr{*id}})
	}
	bind(r.Key, &k)
	bind(r.Value, &v)
	body.List = append(pre, body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it, k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("zzvIter"), Args: []ast.Expr{r.X}}}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("next")}, Args: []ast.Expr{
			&ast.UnaryExpr{Op: token.AND, X: k}, &ast.UnaryExpr{Op: token.AND, X: v}}},
		Body: body,
	}
}

const mapsHook = `//go:build go1.21

package PKG

import (
	"fmt"
	"sort"
)

// ZzvMapOrder chooses the iteration order of a map of n keys: a permutation of the sorted keys, or nil for the natural order.
var ZzvMapOrder func(n int) []int

type zzvIt[K comparable, V interface{}] struct {
	m    map[K]V
	keys []K
	i    int
}

func zzvIter[K comparable, V interface{}](m map[K]V) (*zzvIt[K, V], K, V) {
	it := &zzvIt[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if h := ZzvMapOrder; h != nil && len(m) > 1 {
		if p := h(len(m)); p != nil {
			sort.Slice(it.keys, func(i, j int) bool {
				a, ok := interface{}(it.keys[i]).(string)
				b, _ := interface{}(it.keys[j]).(string)
				if ok {
					return a < b
				}
				return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j])
			})
			q := make([]K, len(p))
			for i, x := range p {
				q[i] = it.keys[x]
			}
			it.keys = q
		}
	}
	var k K
	var v V
	return it, k, v
}

func (it *zzvIt[K, V]) next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x, ok := it.m[it.keys[it.i]]
		it.i++
		if ok {
			*k, *v = it.keys[it.i-1], x
			return true
		}
	}
	return false
}
`

const schedHook = `//go:build go1.21

package PKG

// ZzvPoint is called before every statement.
var ZzvPoint func(id int)

//go:norace
func zzvPoint(id int) {
	if h := ZzvPoint; h != nil {
		h(id)
	}
}

func zzvAfter[T interface{}](id int, x T) T {
	zzvPoint(id)
	return x
}
`
