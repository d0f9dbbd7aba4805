// Package instr rewrites Go source so that every source of nondeterminism it
// contains (locks, goroutine starts, select order, map order, dialling,
// randomness) goes through the simulator's runtime, and so that the scheduler
// can preempt between any two statements. Nothing is written to the original
// tree: the result is a set of files used through "go build -overlay" (or, for
// a dependency, a copied directory).
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const RT = "verif.local/sim/simrt"

type ListPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
}

// List runs go list -export -deps in dir and returns the packages.
func List(dir string, env []string, args ...string) ([]*ListPkg, error) {
	a := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,DepOnly,Error"}, args...)
	cmd := exec.Command("go", a...)
	cmd.Dir = dir
	cmd.Env = env
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go %s: %v\n%s", strings.Join(a, " "), err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var ps []*ListPkg
	for {
		p := new(ListPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

type Ctx struct {
	Exports map[string]string
	SiteID  int
	Sites   []string // site index -> file:line
	Notes   []string
}

// Package instruments all Go files of one package and returns path -> new source.
func (c *Ctx) Package(p *ListPkg) (map[string][]byte, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := c.Exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}), Error: func(err error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		c.Notes = append(c.Notes, fmt.Sprintf("type check %s: %v", p.ImportPath, err))
	}
	var resets map[*ast.File][]ast.Decl
	if err == nil {
		resets = globals(fset, files, info)
	}
	out := map[string][]byte{}
	for i, af := range files {
		name := filepath.Join(p.Dir, p.GoFiles[i])
		r := &rw{resets: resets[af], c: c, fset: fset, info: info, pkg: pkg, file: af, imports: map[string]string{}}
		src, err := r.run(name)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		out[name] = src
	}
	return out, nil
}

type rw struct {
	c       *Ctx
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	imports map[string]string // local name -> path
	tmp     int
	resets  []ast.Decl // set the package's variables back
}

// globals makes the functions that set the package-level variables back to
// what they were when the process started, so that a run does not depend on the
// ones before it. They are registered in the order of initialisation.
func globals(fset *token.FileSet, files []*ast.File, info *types.Info) map[*ast.File][]ast.Decl {
	out := map[*ast.File][]ast.Decl{}
	n := 0
	var calls []string
	add := func(f *ast.File, body ...ast.Stmt) {
		name := fmt.Sprintf("simReset__%d", n)
		n++
		out[f] = append(out[f], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		calls = append(calls, name)
	}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
		return nil
	}
	for _, f := range files { // without a value
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, id := range vs.Names {
					if len(vs.Values) == 0 && id.Name != "_" {
						add(f, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("simrt__", "Zero"), Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(id.Name)}}}})
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}}
		used := false
		for _, v := range in.Lhs {
			as.Lhs = append(as.Lhs, ast.NewIdent(v.Name()))
			used = used || v.Name() != "_"
		}
		if used {
			add(f, as)
		}
	}
	for _, f := range files { // init functions run again
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				name := fmt.Sprintf("simInit__%d", n)
				n++
				fd.Name = ast.NewIdent(name)
				call := &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}
				out[f] = append(out[f], &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{call}}})
				calls = append(calls, name)
			}
		}
	}
	if len(calls) > 0 {
		reg := &ast.CallExpr{Fun: sel("simrt__", "OnReset")}
		for _, c := range calls {
			reg.Args = append(reg.Args, ast.NewIdent(c))
		}
		out[files[0]] = append(out[files[0]], &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: reg}}}})
	}
	return out
}

var timeRedirect = map[string]string{"AfterFunc": "AfterFunc"}

func (r *rw) run(name string) ([]byte, error) {
	f := r.file
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(path)
		if path == "math/rand/v2" {
			n = "rand"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		r.imports[n] = path
	}
	// drop comments except build constraints before the package clause
	var keep []*ast.CommentGroup
	for _, cg := range f.Comments {
		if cg.Pos() < f.Package {
			isBuild := false
			for _, cm := range cg.List {
				if strings.HasPrefix(cm.Text, "//go:build") || strings.HasPrefix(cm.Text, "// +build") {
					isBuild = true
				}
			}
			if isBuild {
				keep = append(keep, cg)
			}
		}
	}
	header := ""
	for _, cg := range keep {
		for _, cm := range cg.List {
			header += cm.Text + "\n"
		}
		header += "\n"
	}
	f.Comments = nil
	f.Doc = nil

	// selectors
	r.rewriteSelectors()
	// bodies
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			r.exprs(d)
		}
	}
	// unused imports
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(path)
		if path == "math/rand/v2" {
			n = "rand"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		switch path {
		case "sync", "net", "crypto/tls", "math/rand", "math/rand/v2", "time":
			if n != "_" && n != "." && !used[n] {
				im.Name = ast.NewIdent("_")
			}
		}
	}
	// import the runtime
	imp := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(RT)}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
	f.Decls = append(f.Decls, r.resets...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("simrt__", "Y")}}}})

	var buf bytes.Buffer
	buf.WriteString(header)
	cfg := printer.Config{Mode: printer.TabIndent, Tabwidth: 8}
	if err := cfg.Fprint(&buf, token.NewFileSet(), stripPos(f)); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// stripPos is the identity: printing with an empty file set ignores positions,
// which is what we want (inserted nodes have none).
func stripPos(f *ast.File) *ast.File { return f }

func sel(x, s string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)}
}

func (r *rw) isPkg(id *ast.Ident) (string, bool) {
	if o, ok := r.info.Uses[id]; ok {
		if pn, ok := o.(*types.PkgName); ok {
			return pn.Imported().Path(), true
		}
		return "", false
	}
	return "", false
}

func (r *rw) rewriteSelectors() {
	rep := func(s *ast.SelectorExpr) ast.Expr {
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return nil
		}
		path, ok := r.isPkg(id)
		if !ok {
			return nil
		}
		n := s.Sel.Name
		switch path {
		case "sync":
			switch n {
			case "Mutex", "RWMutex", "Once", "Pool", "Map", "OnceFunc", "OnceValue", "OnceValues":
				return sel("simrt__", n)
			}
		case "net":
			switch n {
			case "Dial", "DialTimeout", "Dialer":
				return sel("simrt__", n)
			}
		case "crypto/tls":
			switch n {
			case "Dial":
				return sel("simrt__", "TLSDial")
			case "DialWithDialer":
				return sel("simrt__", "TLSDialWithDialer")
			case "Dialer":
				return sel("simrt__", "TLSDialer")
			}
		case "time":
			if n == "AfterFunc" {
				return sel("simrt__", "AfterFunc")
			}
		case "math/rand":
			switch n {
			case "NewSource":
				return sel("simrt__", "NewSource")
			case "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64", "Perm", "Shuffle", "ExpFloat64", "NormFloat64", "Read", "Seed":
				return &ast.SelectorExpr{X: &ast.CallExpr{Fun: sel("simrt__", "Rand")}, Sel: ast.NewIdent(n)}
			}
		case "math/rand/v2":
			switch n {
			case "Int", "IntN", "Int32", "Int32N", "Int64", "Int64N", "Uint32", "Uint64", "Uint32N", "Uint64N", "UintN", "Float32", "Float64", "Perm", "Shuffle", "ExpFloat64", "NormFloat64":
				return &ast.SelectorExpr{X: &ast.CallExpr{Fun: sel("simrt__", "RandV2")}, Sel: ast.NewIdent(n)}
			}
		}
		return nil
	}
	// replace in place: mutate the selector's parts
	ast.Inspect(r.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if ne := rep(s); ne != nil {
				nse := ne.(*ast.SelectorExpr)
				s.X, s.Sel = nse.X, nse.Sel
			}
		}
		return true
	})
}

// exprs instruments function literals found in a node that is not a block.
func (r *rw) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			r.block(fl.Body)
			return false
		}
		return true
	})
}

func (r *rw) site(pos token.Pos) *ast.BasicLit {
	p := r.fset.Position(pos)
	id := len(r.c.Sites)
	r.c.Sites = append(r.c.Sites, fmt.Sprintf("%s:%d", p.Filename, p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}
}

func (r *rw) yield(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("simrt__", "Y"), Args: []ast.Expr{r.site(pos)}}}
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		switch s.(type) {
		case *ast.LabeledStmt:
			out = append(out, r.yield(s.Pos()))
			out = append(out, r.stmt(s)...)
			continue
		}
		out = append(out, r.yield(s.Pos()))
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("%s%d__", p, r.tmp)
}

// stmt returns the replacement statements for s.
func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.ifStmt(s)
	case *ast.ForStmt:
		r.exprs2(s.Init)
		r.exprs2(s.Cond)
		r.exprs2(s.Post)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.yield(s.Pos())}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(s, "")
	case *ast.SwitchStmt:
		r.exprs2(s.Init)
		r.exprs2(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		r.exprs2(s.Init)
		r.exprs2(s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, "")
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.RangeStmt:
			rs := r.rangeStmt(in, s.Label.Name)
			if len(rs) == 1 {
				s.Stmt = rs[0]
				return []ast.Stmt{s}
			}
			return rs
		case *ast.SelectStmt:
			rs := r.selectStmt(in, s.Label.Name)
			if len(rs) == 1 {
				if rs[0] == in {
					s.Stmt = in
					return []ast.Stmt{s}
				}
				return rs
			}
			return rs
		default:
			rs := r.stmt(s.Stmt)
			if len(rs) == 1 {
				s.Stmt = rs[0]
				return []ast.Stmt{s}
			}
			s.Stmt = &ast.EmptyStmt{}
			return append([]ast.Stmt{s}, rs...)
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	default:
		r.exprs(s)
	}
	return []ast.Stmt{s}
}

func (r *rw) exprs2(n ast.Node) {
	switch x := n.(type) {
	case nil:
		return
	case ast.Stmt:
		if x != nil {
			r.exprs(x)
		}
	case ast.Expr:
		if x != nil {
			r.exprs(x)
		}
	}
}

func (r *rw) ifStmt(s *ast.IfStmt) {
	if s.Init != nil {
		r.exprs(s.Init)
	}
	r.exprs(s.Cond)
	r.block(s.Body)
	switch e := s.Else.(type) {
	case *ast.BlockStmt:
		r.block(e)
	case *ast.IfStmt:
		r.ifStmt(e)
	}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for _, e := range cc.List {
				r.exprs(e)
			}
			fall := false
			if n := len(cc.Body); n > 0 {
				if br, ok := cc.Body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
					fall = true
				}
			}
			if fall {
				last := cc.Body[len(cc.Body)-1]
				cc.Body = append(r.list(cc.Body[:len(cc.Body)-1]), last)
			} else {
				cc.Body = r.list(cc.Body)
			}
		}
	}
}

// typeStr renders a type as source usable in this file, or "" if it cannot.
func (r *rw) typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		for n, path := range r.imports {
			if path == p.Path() && n != "_" && n != "." {
				return n
			}
		}
		ok = false
		return p.Name()
	})
	if !ok || strings.Contains(s, "invalid type") || strings.Contains(s, "untyped") {
		return ""
	}
	for _, m := range []string{"sync.Mutex", "sync.RWMutex", "sync.Once", "sync.Pool", "sync.Map", "net.Dialer", "tls.Dialer"} {
		if strings.Contains(s, m) {
			return ""
		}
	}
	return s
}

func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := r.typeStr(t)
	if s == "" {
		return nil
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	return e
}

func (r *rw) rangeStmt(s *ast.RangeStmt, label string) []ast.Stmt {
	t := r.info.TypeOf(s.X)
	r.exprs(s.X)
	defaultRet := func() []ast.Stmt {
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.yield(s.Pos())}
		}
		return []ast.Stmt{s}
	}
	if t == nil {
		return defaultRet()
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return defaultRet()
	}
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	it := r.fresh("it")
	var pre []ast.Stmt
	if !isBlank(s.Key) {
		kt := r.typeExpr(m.Key())
		if kt == nil {
			return defaultRet()
		}
		lhs := []ast.Expr{s.Key, ast.NewIdent("_")}
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: &ast.CallExpr{Fun: sel(it, "Key")}, Type: kt}}})
	}
	if s.Value != nil && !isBlank(s.Value) {
		vt := r.typeExpr(m.Elem())
		if vt == nil {
			return defaultRet()
		}
		lhs := []ast.Expr{s.Value, ast.NewIdent("_")}
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: &ast.CallExpr{Fun: sel(it, "Value")}, Type: vt}}})
	}
	// blank interface "any" asserts are fine: x.(interface{}) fails only on nil, and the comma-ok form then yields nil
	r.block(s.Body)
	body := &ast.BlockStmt{List: append(pre, s.Body.List...)}
	fs := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: sel("simrt__", "MapIter"), Args: []ast.Expr{s.X}}}},
		Cond: &ast.CallExpr{Fun: sel(it, "Next")},
		Body: body,
	}
	return []ast.Stmt{fs}
}

func (r *rw) goStmt(s *ast.GoStmt) []ast.Stmt {
	call := s.Call
	var pre []ast.Stmt
	if fl, ok := call.Fun.(*ast.FuncLit); ok {
		r.block(fl.Body)
	} else {
		r.exprs(call.Fun)
		tv := r.info.Types[call.Fun]
		if !tv.IsBuiltin() {
			fn := r.fresh("gf")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(fn)}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
			call.Fun = ast.NewIdent(fn)
		}
	}
	for i, a := range call.Args {
		r.exprs(a)
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			continue
		}
		n := r.fresh("ga")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		call.Args[i] = ast.NewIdent(n)
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	st := &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("simrt__", "Go"), Args: []ast.Expr{r.site(s.Pos()), fl}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, st)}}
}

// selectStmt makes the choice among several ready cases the simulator's.
func (r *rw) selectStmt(s *ast.SelectStmt, label string) []ast.Stmt {
	plain := func() []ast.Stmt {
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm != nil {
				r.exprs(cc.Comm)
			}
			cc.Body = r.list(cc.Body)
		}
		return []ast.Stmt{s}
	}
	type cs struct {
		cc       *ast.CommClause
		send     bool
		ch, val  ast.Expr
		lhs      []ast.Expr
		tok      token.Token
		elem     types.Type
		chn, vn  string
		rn, okn  string
		hasIndex int
	}
	var cases []*cs
	var def *ast.CommClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = cc
			continue
		}
		k := &cs{cc: cc}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			k.send, k.ch, k.val = true, cm.Chan, cm.Value
		case *ast.ExprStmt:
			u, ok := ast.Unparen(cm.X).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				return plain()
			}
			k.ch = u.X
		case *ast.AssignStmt:
			u, ok := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				return plain()
			}
			k.ch, k.lhs, k.tok = u.X, cm.Lhs, cm.Tok
		default:
			return plain()
		}
		t := r.info.TypeOf(k.ch)
		if t == nil {
			return plain()
		}
		ct, ok := t.Underlying().(*types.Chan)
		if !ok {
			return plain()
		}
		k.elem = ct.Elem()
		if len(k.lhs) > 0 || k.send {
			if r.typeStr(k.elem) == "" {
				return plain()
			}
		}
		cases = append(cases, k)
	}
	if len(cases) < 2 {
		return plain()
	}
	var pre []ast.Stmt
	idx := r.fresh("si")
	for _, k := range cases {
		r.exprs(k.ch)
		k.chn = r.fresh("sc")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(k.chn)}, Tok: token.DEFINE, Rhs: []ast.Expr{k.ch}})
		if k.send {
			r.exprs(k.val)
			k.vn = r.fresh("sv")
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(k.vn)}, Type: r.typeExpr(k.elem), Values: []ast.Expr{k.val}}}}})
		}
		if len(k.lhs) > 0 {
			k.rn, k.okn = r.fresh("sr"), r.fresh("so")
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(k.rn)}, Type: r.typeExpr(k.elem)}}}})
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(k.okn)}, Type: ast.NewIdent("bool")}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(k.rn), ast.NewIdent(k.okn)}})
		}
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(idx)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
	comm := func(k *cs) ast.Stmt {
		if k.send {
			return &ast.SendStmt{Chan: ast.NewIdent(k.chn), Value: ast.NewIdent(k.vn)}
		}
		rx := &ast.UnaryExpr{Op: token.ARROW, X: ast.NewIdent(k.chn)}
		if len(k.lhs) > 0 {
			return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(k.rn), ast.NewIdent(k.okn)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rx}}
		}
		return &ast.ExprStmt{X: rx}
	}
	setIdx := func(i int) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(idx)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}}
	}
	// poll phase
	it := r.fresh("sp")
	var pollCases []ast.Stmt
	for i, k := range cases {
		pollCases = append(pollCases, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: []ast.Stmt{
			&ast.SelectStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.CommClause{Comm: comm(k), Body: []ast.Stmt{setIdx(i)}},
				&ast.CommClause{Body: nil},
			}}},
		}})
	}
	poll := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(it), Tok: token.DEFINE,
		X: &ast.CallExpr{Fun: sel("simrt__", "SelectOrder"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.SwitchStmt{Tag: ast.NewIdent(it), Body: &ast.BlockStmt{List: pollCases}},
			&ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(idx), Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}}}
	pre = append(pre, poll)
	if def == nil {
		var bl []ast.Stmt
		for i, k := range cases {
			bl = append(bl, &ast.CommClause{Comm: comm(k), Body: []ast.Stmt{setIdx(i)}})
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(idx), Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "0"}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.SelectStmt{Body: &ast.BlockStmt{List: bl}}}}})
	}
	var sw []ast.Stmt
	for i, k := range cases {
		var body []ast.Stmt
		if len(k.lhs) > 0 {
			rhs := []ast.Expr{ast.NewIdent(k.rn)}
			if len(k.lhs) == 2 {
				rhs = append(rhs, ast.NewIdent(k.okn))
			}
			body = append(body, &ast.AssignStmt{Lhs: k.lhs, Tok: k.tok, Rhs: rhs})
		}
		body = append(body, r.list(k.cc.Body)...)
		sw = append(sw, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: body})
	}
	var defBody []ast.Stmt
	if def != nil {
		defBody = r.list(def.Body)
	}
	// a default clause keeps the switch terminating exactly when the select was
	if def != nil {
		sw = append(sw, &ast.CaseClause{Body: defBody})
	} else {
		sw = append(sw, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: select"`}}}}}})
	}
	var swStmt ast.Stmt = &ast.SwitchStmt{Tag: ast.NewIdent(idx), Body: &ast.BlockStmt{List: sw}}
	if label != "" {
		swStmt = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: swStmt}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, swStmt)}}
}
