// Package instr makes a copy of the repository prepared for the controlled scheduler:
// a scheduling point before every statement, goroutines and channels under control,
// sync replaced. The copy is made from the working tree each time a check runs, so
// that what is explored is the code itself.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Report tells what was done.
type Report struct {
	Files   int
	Points  int
	Gos     int
	Chans   int
	Globals int // initializations of package variables which can be repeated
	Skipped []string
	Unsup   []string // constructs that can't be controlled
}

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
}

// CopyTree copies a tree without version control data.
func CopyTree(src, dst string, skip func(rel string) bool) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(src, p)
		if err != nil {
			return err
		}
		if rel == ".git" || skip != nil && skip(rel) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		to := filepath.Join(dst, rel)
		switch {
		case d.IsDir():
			return os.MkdirAll(to, 0755)
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			return os.WriteFile(to, b, 0644)
		}
		return nil
	})
}

// Make instruments the copy of a repository in dir (which must be a copy).
func Make(dir string) (*Report, error) {
	rep := &Report{}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Module", "./...")
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %s: %s", err, eb.String())
	}
	var pkgs []*pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	exports := map[string]string{}
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Standard || !strings.HasPrefix(p.Dir, dir) {
			continue
		}
		if p.Name == "main" {
			rep.Skipped = append(rep.Skipped, p.ImportPath)
			continue
		}
		if len(p.CgoFiles) > 0 {
			rep.Unsup = append(rep.Unsup, p.ImportPath+": cgo")
		}
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, a)
			names = append(names, fn)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		rs := &resets{info: info, files: files}
		rs.plan()
		rep.Globals += len(rs.steps)
		for i, a := range files {
			w := &rewriter{info: info, rep: rep, fset: fset, pos: filepath.Base(names[i])}
			if i == len(files)-1 && len(rs.steps)+rs.count() > 0 {
				w.used = true
			}
			w.file(a)
			rs.file(i)
			var b bytes.Buffer
			if err := format.Node(&b, fset, a); err != nil {
				return nil, fmt.Errorf("%s: %s", names[i], err)
			}
			if err := os.WriteFile(names[i], append(b.Bytes(), rs.text(fset, i)...), 0644); err != nil {
				return nil, err
			}
			rep.Files++
		}
	}
	return rep, goMod(filepath.Join(dir, "go.mod"))
}

// resets make functions that initialize the variables of a package again, so that each
// execution can start like a new process.
type resets struct {
	info  *types.Info
	files []*ast.File
	steps []resetStep
	inits []string // functions which were named init
}

type resetStep struct {
	file int
	lhs  []ast.Expr
	spec *ast.ValueSpec
	val  int      // index of the value
	typ  ast.Expr // for variables without a value
}

// plan finds the initializations in their order. Errors keep their identity.
func (r *resets) plan() {
	specs := map[types.Object]resetStep{}
	errType := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for i, f := range r.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for j, id := range v.Names {
					o := r.info.Defs[id]
					if o == nil || id.Name == "_" || types.Implements(o.Type(), errType) || types.Implements(types.NewPointer(o.Type()), errType) {
						continue
					}
					st := resetStep{file: i, lhs: []ast.Expr{ast.NewIdent(id.Name)}, spec: v, val: j, typ: v.Type}
					if len(v.Values) == 0 {
						st.spec = nil
						r.steps = append(r.steps, st)
						continue
					}
					if len(v.Values) == 1 && len(v.Names) > 1 {
						st.val, st.lhs = 0, nil
						for _, x := range v.Names {
							st.lhs = append(st.lhs, ast.NewIdent(x.Name))
						}
					}
					specs[o] = st
				}
			}
		}
	}
	for _, in := range r.info.InitOrder {
		if st, ok := specs[in.Lhs[0]]; ok {
			r.steps = append(r.steps, st)
		}
	}
}

// count counts functions init.
func (r *resets) count() int {
	n := 0
	for _, f := range r.files {
		for _, d := range f.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "init" {
				n++
			}
		}
	}
	return n
}

// file renames functions init.
func (r *resets) file(i int) {
	for _, d := range r.files[i].Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "init" {
			f.Name = ast.NewIdent(fmt.Sprintf("vschedInit%d", len(r.inits)))
			r.inits = append(r.inits, f.Name.Name)
		}
	}
}

// text gives the functions for a file; those of the last one call all others.
func (r *resets) text(fset *token.FileSet, i int) []byte {
	var b bytes.Buffer
	show := func(n ast.Node) string {
		var x bytes.Buffer
		if n != nil {
			format.Node(&x, fset, n)
		}
		return x.String()
	}
	for k, st := range r.steps {
		if st.file != i {
			continue
		}
		fmt.Fprintf(&b, "\nfunc vschedReset%d() {\n", k)
		if st.spec == nil {
			fmt.Fprintf(&b, "\tvar vschedZero %s\n\t%s = vschedZero\n", show(st.typ), show(st.lhs[0]))
		} else {
			var l []string
			for _, x := range st.lhs {
				l = append(l, show(x))
			}
			fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(l, ", "), show(st.spec.Values[st.val]))
		}
		b.WriteString("}\n")
	}
	if i != len(r.files)-1 || len(r.steps)+len(r.inits) == 0 {
		return b.Bytes()
	}
	b.WriteString("\nfunc vschedReset() {\n")
	for k := range r.steps {
		fmt.Fprintf(&b, "\tvschedReset%d()\n", k)
	}
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n\nfunc init() {\n")
	for _, n := range r.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("\tvsched.OnReset(vschedReset)\n}\n")
	return b.Bytes()
}

var goLine = regexp.MustCompile(`(?m)^go\s+(\d+)\.(\d+)\S*\s*$`)

// goMod raises the language version so that generic helpers may be used; 1.21 keeps
// the old semantics of loop variables.
func goMod(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if m := goLine.FindSubmatch(b); m != nil {
		if v, _ := strconv.Atoi(string(m[2])); string(m[1]) == "1" && v < 21 {
			b = goLine.ReplaceAll(b, []byte("go 1.21\n"))
		}
	} else {
		b = append(b, []byte("\ngo 1.21\n")...)
	}
	b = append(b, []byte("\nrequire vsched v0.0.0\n")...)
	return os.WriteFile(path, b, 0644)
}

type rewriter struct {
	info  *types.Info
	rep   *Report
	fset  *token.FileSet
	pos   string
	used  bool
	uniq  int
	nocut int
}

func (w *rewriter) unsup(n ast.Node, s string) {
	w.rep.Unsup = append(w.rep.Unsup, fmt.Sprintf("%s:%d: %s", w.pos, w.fset.Position(n.Pos()).Line, s))
}

func (w *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	w.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}, Args: args}
}

func (w *rewriter) file(f *ast.File) {
	// Comments get lost or displaced: only build constraints and directives matter,
	// and these are before declarations.
	f.Comments = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				w.block(d.Body)
			} else {
				w.unsup(d, "function without body")
			}
		case *ast.GenDecl:
			d.Doc = nil
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ImportSpec:
					switch s.Path.Value {
					case `"sync"`:
						s.Path.Value = `"vsched/vsync"`
						if s.Name == nil {
							s.Name = ast.NewIdent("sync")
						}
					case `"time"`:
						s.Path.Value = `"vsched/vtime"`
						if s.Name == nil {
							s.Name = ast.NewIdent("time")
						}
					case `"context"`:
						w.unsup(s, "import of "+s.Path.Value)
					}
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
					for i := range s.Values {
						s.Values[i] = w.expr(s.Values[i])
					}
				}
			}
		}
	}
	if w.used {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsched"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func (w *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.list(b.List)
	}
}

func (w *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		if w.needsPoint(s) {
			w.rep.Points++
			r = append(r, &ast.ExprStmt{X: w.call("Point")})
		}
		r = append(r, w.stmt(s))
	}
	return r
}

// needsPoint tells if the statement itself (without nested blocks) may touch memory
// that other threads can reach.
func (w *rewriter) needsPoint(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return w.needsPoint(s.Stmt)
	case *ast.EmptyStmt, *ast.BranchStmt, *ast.BlockStmt:
		return false
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			return false
		}
	case *ast.IfStmt:
		return w.touches(s.Init) || w.touches(s.Cond)
	case *ast.ForStmt:
		return true
	case *ast.RangeStmt:
		return true
	case *ast.SwitchStmt:
		return w.touches(s.Init) || w.touches(s.Tag)
	case *ast.TypeSwitchStmt:
		return true
	case *ast.SelectStmt:
		return true
	}
	return w.touches(s)
}

func (w *rewriter) touches(n ast.Node) bool {
	if n == nil {
		return false
	}
	switch x := n.(type) {
	case ast.Stmt:
		if x == nil {
			return false
		}
	}
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.CallExpr, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.Ident:
			if o := w.info.Uses[n]; o != nil {
				if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (w *rewriter) isChan(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		w.block(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = w.stmt(s.Init)
		}
		s.Cond = w.expr(s.Cond)
		w.block(s.Body)
		if s.Else != nil {
			s.Else = w.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = w.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = w.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = w.stmt(s.Post)
		}
		w.block(s.Body)
		// A loop must have a point even if its body has none.
		s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: w.call("Point")}}, s.Body.List...)
	case *ast.RangeStmt:
		if w.isChan(s.X) {
			return w.rangeChan(s)
		}
		s.X = w.expr(s.X)
		w.block(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = w.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = w.expr(s.Tag)
		}
		w.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = w.stmt(s.Init)
		}
		s.Assign = w.stmt(s.Assign)
		w.clauses(s.Body)
	case *ast.SelectStmt:
		return w.selectStmt(s, nil)
	case *ast.LabeledStmt:
		if x, ok := s.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(x, s.Label)
		}
		s.Stmt = w.stmt(s.Stmt)
	case *ast.GoStmt:
		w.rep.Gos++
		return w.goStmt(s)
	case *ast.DeferStmt:
		if x, ok := w.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = x
		}
	case *ast.SendStmt:
		w.rep.Chans++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: w.call("SendTo", w.expr(s.Chan)), Args: []ast.Expr{w.expr(s.Value)}}}
	case *ast.ExprStmt:
		s.X = w.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				w.rep.Chans++
				s.Rhs[0] = w.call("Recv2", w.expr(u.X))
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = w.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = w.expr(s.Rhs[i])
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = w.expr(s.Results[i])
		}
	case *ast.IncDecStmt:
		s.X = w.expr(s.X)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							v.Values[0] = w.call("Recv2", w.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = w.expr(v.Values[i])
					}
				}
			}
		}
	}
	return s
}

// selectStmt makes { a := SRecv(ch); b := SSend(ch)(v); switch Select(def, a, b) { case 0: x, ok := a.Get2(); ... } }.
func (w *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	w.rep.Chans++
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := false
	var arms []ast.Expr
	newArm := func(e ast.Expr) *ast.Ident {
		w.uniq++
		id := ast.NewIdent(fmt.Sprintf("vschedArm%d", w.uniq))
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	for _, x := range s.Body.List {
		cc := x.(*ast.CommClause)
		var first ast.Stmt
		out := &ast.CaseClause{}
		recv := func(e ast.Expr) *ast.Ident {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				w.unsup(cc, "case of select")
				return ast.NewIdent("_")
			}
			return newArm(w.call("SRecv", w.expr(u.X)))
		}
		switch c := cc.Comm.(type) {
		case nil:
			def = true
		case *ast.SendStmt:
			ch := w.expr(c.Chan)
			arms = append(arms, newArm(&ast.CallExpr{Fun: w.call("SSend", ch), Args: []ast.Expr{w.expr(c.Value)}}))
		case *ast.ExprStmt:
			arms = append(arms, recv(c.X))
		case *ast.AssignStmt:
			id := recv(c.Rhs[0])
			arms = append(arms, id)
			get := "Get"
			if len(c.Lhs) == 2 {
				get = "Get2"
			}
			for i := range c.Lhs {
				c.Lhs[i] = w.expr(c.Lhs[i])
			}
			c.Rhs = []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id, Sel: ast.NewIdent(get)}}}
			first = c
		}
		if cc.Comm != nil {
			out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(arms) - 1)}}
		}
		if first != nil {
			out.Body = append(out.Body, first)
		}
		out.Body = append(out.Body, w.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if !def {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	sw.Tag = w.call("Select", append([]ast.Expr{ast.NewIdent(strconv.FormatBool(def))}, arms...)...)
	if label != nil {
		b.List = append(b.List, &ast.LabeledStmt{Label: label, Stmt: sw})
	} else {
		b.List = append(b.List, sw)
	}
	return b
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				cc.List[i] = w.expr(cc.List[i])
			}
			cc.Body = w.list(cc.Body)
		}
	}
}

// rangeChan makes for it, v := Range(ch); it.Next(&v); { ... }.
func (w *rewriter) rangeChan(s *ast.RangeStmt) ast.Stmt {
	w.rep.Chans++
	w.uniq++
	it := ast.NewIdent(fmt.Sprintf("vschedIter%d", w.uniq))
	x := w.expr(s.X)
	w.block(s.Body)
	id, isID := s.Key.(*ast.Ident)
	if s.Key == nil || isID && id.Name == "_" {
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Range0", x)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next0")}},
			Body: s.Body,
		}
	}
	if s.Tok == token.DEFINE {
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it, s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Range", x)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: s.Key}}},
			Body: s.Body,
		}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Range0", x)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: w.expr(s.Key)}}},
		Body: s.Body,
	}
}

// goStmt makes { f, a := f, a; vsched.Go(func() { f(a) }) }, functions and arguments are
// evaluated by the starting goroutine.
func (w *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	fl, lit := s.Call.Fun.(*ast.FuncLit)
	if lit && len(s.Call.Args) == 0 {
		w.block(fl.Body)
		return &ast.ExprStmt{X: w.call("Go", fl)}
	}
	b := &ast.BlockStmt{}
	tmp := func(e ast.Expr) ast.Expr {
		w.uniq++
		id := ast.NewIdent(fmt.Sprintf("vschedArg%d", w.uniq))
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(e)}})
		return id
	}
	c := &ast.CallExpr{Fun: s.Call.Fun, Ellipsis: s.Call.Ellipsis}
	builtin := false
	if id, ok := unparen(s.Call.Fun).(*ast.Ident); ok {
		if _, ok := w.info.Uses[id].(*types.Builtin); ok {
			builtin = true
		}
	}
	if builtin {
		w.unsup(s, "go statement with a builtin")
	} else {
		c.Fun = tmp(s.Call.Fun)
	}
	for i, a := range s.Call.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			c.Args = append(c.Args, a)
			continue
		}
		_ = i
		c.Args = append(c.Args, tmp(a))
	}
	b.List = append(b.List, &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})})
	return b
}

// expr rewrites receives, close, len of channels and bodies of function literals.
func (w *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		w.block(e.Body)
	case *ast.ParenExpr:
		e.X = w.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			w.rep.Chans++
			return w.call("Recv", w.expr(e.X))
		}
		e.X = w.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = w.expr(e.X), w.expr(e.Y)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && len(e.Args) == 1 {
			_, b := w.info.Uses[id].(*types.Builtin)
			if b && id.Name == "close" {
				w.rep.Chans++
				return w.call("Close", w.expr(e.Args[0]))
			}
			if b && id.Name == "len" && w.isChan(e.Args[0]) {
				return w.call("Len", w.expr(e.Args[0]))
			}
		}
		e.Fun = w.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = w.expr(e.Args[i])
		}
	case *ast.SelectorExpr:
		e.X = w.expr(e.X)
		if id, ok := e.X.(*ast.Ident); ok && id.Name == "runtime" && e.Sel.Name == "Gosched" {
			w.used = true
			return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Gosched")}
		}
	case *ast.IndexExpr:
		e.X, e.Index = w.expr(e.X), w.expr(e.Index)
	case *ast.SliceExpr:
		e.X = w.expr(e.X)
		if e.Low != nil {
			e.Low = w.expr(e.Low)
		}
		if e.High != nil {
			e.High = w.expr(e.High)
		}
		if e.Max != nil {
			e.Max = w.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = w.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = w.expr(e.X)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = w.expr(e.Elts[i])
		}
	case *ast.KeyValueExpr:
		e.Key, e.Value = w.expr(e.Key), w.expr(e.Value)
	}
	return e
}
