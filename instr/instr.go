// Package instr weaves the simulator's yield points into the library source.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Result describes an instrumented package.
type Result struct {
	Overlay string   // overlay file for go build
	Sites   []string // site id -> file:line
	Files   []string
	Stmts   int
	Hot     int
	Go      int
}

type inst struct {
	fset  *token.FileSet
	res   *Result
	rtUse bool
	bulk  map[string]bool // names of imported packages that work on whole slices
}

// Package instruments the non-test Go files of repo and its subdirectories, writing
// into out.
func Package(repo, out string) (*Result, error) {
	res := &Result{Sites: []string{"-"}}
	overlay := map[string]string{}
	var names []string
	err := filepath.WalkDir(repo, func(path string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := e.Name()
		if e.IsDir() {
			if path == repo {
				return nil
			}
			_, mod := os.Stat(filepath.Join(path, "go.mod"))
			if n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || mod == nil {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(path), n); err != nil || !ok {
			return nil
		}
		rel, err := filepath.Rel(repo, path)
		names = append(names, rel)
		return err
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	for _, n := range names {
		src := filepath.Join(repo, n)
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ob, err := file(res, src, b)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", n, err)
		}
		dst := filepath.Join(out, strings.ReplaceAll(n, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, ob, 0o644); err != nil {
			return nil, err
		}
		overlay[src] = dst
		res.Files = append(res.Files, n)
	}
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	res.Overlay = filepath.Join(out, "overlay.json")
	if err := os.WriteFile(res.Overlay, j, 0o644); err != nil {
		return nil, err
	}
	sj, _ := json.Marshal(res.Sites)
	return res, os.WriteFile(filepath.Join(out, "sites.json"), sj, 0o644)
}

func file(res *Result, name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	// Comments are dropped (except build constraints, already evaluated): the
	// printer would misplace them around the inserted statements.
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	in := &inst{fset: fset, res: res, bulk: map[string]bool{}}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			im.Path.Value = strconv.Quote("verifsim/simsync")
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		}
		switch p[strings.LastIndex(p, "/")+1:] {
		case "slices", "maps", "sort":
			n := p[strings.LastIndex(p, "/")+1:]
			if im.Name != nil {
				n = im.Name.Name
			}
			in.bulk[n] = true
		}
		if p == "time" {
			n := "time"
			if im.Name != nil {
				n = im.Name.Name
			}
			in.clock(f, n)
		}
	}
	for _, d := range f.Decls {
		in.walk(d)
	}
	for _, d := range f.Decls {
		in.receives(d)
	}
	for _, d := range f.Decls {
		in.weigh(d)
	}
	f.Decls = append(f.Decls, in.reset(f)...)
	if in.rtUse {
		f.Decls = append([]ast.Decl{&ast.GenDecl{
			Tok: token.IMPORT,
			Specs: []ast.Spec{&ast.ImportSpec{
				Name: ast.NewIdent("simrt"),
				Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verifsim/rt")},
			}},
		}}, f.Decls...)
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// clock redirects the uses of the clock to the simulated one.
func (in *inst) clock(f *ast.File, name string) {
	found := false
	ast.Inspect(f, func(x ast.Node) bool {
		s, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Name != name {
			return true
		}
		switch s.Sel.Name {
		case "Sleep", "Now", "Since", "Until", "After":
			id.Name = "simrt"
			found = true
		}
		return true
	})
	if !found {
		return
	}
	in.rtUse = true
	// keep the import in use
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names:  []*ast.Ident{ast.NewIdent("_")},
		Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Nanosecond")}},
	}}})
}

// reset makes the declarations that restore the package-level variables of a
// file, so that every run starts like a new process.
func (in *inst) reset(f *ast.File) []ast.Decl {
	var body []ast.Stmt
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			var lhs []ast.Expr
			blank := true
			for _, n := range vs.Names {
				lhs = append(lhs, ast.NewIdent(n.Name))
				blank = blank && n.Name == "_"
			}
			if blank {
				continue
			}
			if len(vs.Values) > 0 {
				body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values})
				continue
			}
			for _, l := range lhs {
				// *new(T) is the zero value
				zero := &ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{zero}})
			}
		}
	}
	if body == nil {
		return nil
	}
	in.rtUse = true
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	return []ast.Decl{&ast.FuncDecl{
		Name: ast.NewIdent("init"),
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call("OnReset", fn)}}},
	}}
}

// walk instruments every block below n.
func (in *inst) walk(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.SwitchStmt:
			in.clauses(b.Body)
			return true
		case *ast.TypeSwitchStmt:
			in.clauses(b.Body)
			return true
		case *ast.SelectStmt:
			in.clauses(b.Body)
			return true
		case *ast.FuncDecl:
			if b.Body != nil {
				in.block(b.Body)
				in.entry(b.Body)
			}
		case *ast.FuncLit:
			in.block(b.Body)
		case *ast.ForStmt:
			in.block(b.Body)
			in.entry(b.Body)
		case *ast.RangeStmt:
			in.block(b.Body)
			in.entry(b.Body)
		case *ast.IfStmt:
			in.block(b.Body)
			if e, ok := b.Else.(*ast.BlockStmt); ok {
				in.block(e)
			}
		case *ast.BlockStmt:
			in.block(b)
		}
		return true
	})
}

func (in *inst) entry(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{in.yield(b.Lbrace, false)}
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			c.Body = in.stmts(c.Body)
		case *ast.CommClause:
			c.Body = in.stmts(c.Body)
		}
	}
}

func (in *inst) block(b *ast.BlockStmt) {
	if isClauseList(b) {
		return
	}
	b.List = in.stmts(b.List)
}

func isClauseList(b *ast.BlockStmt) bool {
	for _, s := range b.List {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

func (in *inst) isYield(s ast.Stmt) bool {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "simrt"
}

func (in *inst) stmts(list []ast.Stmt) []ast.Stmt {
	for _, s := range list {
		if in.isYield(s) {
			return list // already done
		}
	}
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		if es, ok := s.(*ast.EmptyStmt); ok && es.Implicit {
			out = append(out, s)
			continue
		}
		hot := in.hot(s)
		out = append(out, in.yield(s.Pos(), hot))
		out = append(out, in.rewrite(s))
	}
	return out
}

func (in *inst) yield(pos token.Pos, hot bool) ast.Stmt {
	in.rtUse = true
	id := len(in.res.Sites)
	p := in.fset.Position(pos)
	in.res.Sites = append(in.res.Sites, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	in.res.Stmts++
	fn := "Y"
	if hot {
		fn = "YH"
		in.res.Hot++
	}
	return &ast.ExprStmt{X: call(fn, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(fn)}, Args: args}
}

// rewrite replaces blocking statements by calls the simulator can see.
func (in *inst) rewrite(s ast.Stmt) ast.Stmt {
	switch st := s.(type) {
	case *ast.SelectStmt:
		return in.poll(st, s)
	case *ast.LabeledStmt:
		if sel, ok := st.Stmt.(*ast.SelectStmt); ok {
			return in.poll(sel, s)
		}
	case *ast.GoStmt:
		in.res.Go++
		// the arguments are evaluated here, not in the new goroutine
		b := &ast.BlockStmt{}
		for i, a := range st.Call.Args {
			if _, lit := a.(*ast.BasicLit); lit {
				continue
			}
			if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
				continue
			}
			v := fmt.Sprintf("simArg%d", i)
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			st.Call.Args[i] = ast.NewIdent(v)
		}
		goCall := &ast.ExprStmt{X: call("Go", &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: st.Call}}},
		})}
		if len(b.List) == 0 {
			return goCall
		}
		b.List = append(b.List, goCall)
		return b
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call("Send", st.Chan, st.Value)}
	}
	return s
}

// poll turns a select statement that may block into one that asks the simulator
// before it tries again.
func (in *inst) poll(sel *ast.SelectStmt, s ast.Stmt) ast.Stmt {
	for _, c := range sel.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			return s
		}
	}
	l := fmt.Sprintf("simSelect%d", len(in.res.Sites))
	sel.Body.List = append(sel.Body.List, &ast.CommClause{Body: []ast.Stmt{
		&ast.ExprStmt{X: call("Block")},
		&ast.BranchStmt{Tok: token.GOTO, Label: ast.NewIdent(l)},
	}})
	return &ast.LabeledStmt{Label: ast.NewIdent(l), Stmt: s}
}

// receives rewrites the receive operations nested in expressions. Those of select
// clauses stay.
func (in *inst) receives(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case nil:
			return false
		case *ast.CommClause:
			for _, s := range x.Body {
				in.receives(s)
			}
			return false
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				in.receive(x.Rhs, "Recv2")
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				in.receive(x.Values, "Recv2")
			}
		}
		v := reflect.ValueOf(x)
		if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
			return true
		}
		v = v.Elem()
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i).Addr().Interface().(type) {
			case *ast.Expr:
				e := []ast.Expr{*f}
				if in.receive(e, "Recv") {
					*f = e[0]
				}
			case *[]ast.Expr:
				in.receive(*f, "Recv")
			}
		}
		return true
	})
}

func (in *inst) receive(es []ast.Expr, fn string) (done bool) {
	for i, e := range es {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			es[i] = call(fn, u.X)
			done = true
			in.rtUse = true
		}
	}
	return done
}

// weigh makes calls that handle many elements at once count them.
func (in *inst) weigh(d ast.Decl) {
	ast.Inspect(d, func(x ast.Node) bool {
		c, ok := x.(*ast.CallExpr)
		if !ok {
			return true
		}
		fun := c.Fun
		switch f := fun.(type) {
		case *ast.IndexExpr:
			fun = f.X
		case *ast.IndexListExpr:
			fun = f.X
		}
		arg := -1
		switch f := fun.(type) {
		case *ast.Ident:
			switch {
			case len(c.Args) != 2:
			case f.Name == "copy", f.Name == "append" && c.Ellipsis.IsValid():
				arg = 1
			}
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok && in.bulk[id.Name] && len(c.Args) > 0 {
				arg = 0
			}
		}
		if arg < 0 {
			return true
		}
		switch a := c.Args[arg].(type) {
		case *ast.Ident:
			if a.Name == "nil" {
				return true
			}
		case *ast.SelectorExpr, *ast.SliceExpr, *ast.IndexExpr, *ast.ParenExpr:
		case *ast.CallExpr:
			if len(c.Args) == 1 {
				return true // it may return several values
			}
		default:
			return true
		}
		in.rtUse = true
		c.Args[arg] = call("W", c.Args[arg])
		return true
	})
}

// hot tells whether a statement itself (not its nested blocks) writes memory
// that may be shared or uses channels, atomics or locks.
func (in *inst) hot(s ast.Stmt) bool {
	h := false
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, l := range a.Lhs {
			switch l.(type) {
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
				h = true
			}
		}
	}
	switch s.(type) {
	case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
		return true
	}
	ast.Inspect(s, func(x ast.Node) bool {
		if h {
			return false
		}
		switch n := x.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				h = true
			}
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.Ident:
				if f.Name == "close" || f.Name == "copy" || f.Name == "append" {
					h = true
				}
			case *ast.SelectorExpr:
				switch f.Sel.Name {
				case "Load", "Store", "Swap", "CompareAndSwap", "Add", "Lock", "Unlock", "RLock", "RUnlock", "Do":
					h = true
				}
				if strings.HasPrefix(f.Sel.Name, "CompareAndSwap") || strings.HasPrefix(f.Sel.Name, "Load") || strings.HasPrefix(f.Sel.Name, "Store") {
					h = true
				}
			}
		}
		return !h
	})
	return h
}
