// Command instr copies a Go module and rewrites it so that every source of
// nondeterminism goes through the simulator: each statement becomes a possible
// scheduling point, channels, selects, goroutines and map iteration become
// calls of package rt, and the names of packages time, sync, context, os,
// os/signal, net, net/http, log and runtime that the simulator replaces are
// redirected to it. It decides from types, not from how the code is written.
//
//	instr -src /repo -dst DIR -sim /verif/sim -harness /verif/harness
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "recengine"
const simPath = modPath + "/internal/zzsim"

// replaced maps import paths to simulator packages.
var replaced = map[string]string{
	"time":                     "simtime",
	"sync":                     "simsync",
	"context":                  "simcontext",
	"os":                       "simos",
	"io/ioutil":                "simioutil",
	"os/signal":                "simsignal",
	"net":                      "simnet",
	"net/http":                 "simhttp",
	"log":                      "simlog",
	"runtime":                  "simruntime",
	"maps":                     "simmaps",
	"math/rand":                "simrand",
	"math/rand/v2":             "simrand2",
	"crypto/rand":              "simcrand",
	"path/filepath":            "simfilepath",
	"github.com/joho/godotenv": "simgodotenv",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("dst", "", "where to put the result")
	sim := flag.String("sim", "/verif/sim", "simulator packages")
	harness := flag.String("harness", "/verif/harness", "harness")
	race := flag.Bool("race", false, "report memory accesses to the simulator")
	norace := flag.String("norace", "", "with -race: file:function,... whose accesses are not reported")
	blame := flag.String("blame", "", "build log: print the functions of the output that do not compile, for -norace")
	flag.Parse()
	if *dst == "" {
		die("no -dst")
	}
	if *blame != "" {
		blamed(*blame, *dst)
		return
	}
	if *race {
		replaced["sync/atomic"] = "simatomic"
	}
	copyFile(filepath.Join(*src, "go.mod"), filepath.Join(*dst, "go.mod"))
	copyFile(filepath.Join(*src, "go.sum"), filepath.Join(*dst, "go.sum"))
	simDst := filepath.Join(*dst, "internal", "zzsim")
	copyTree(*sim, simDst)
	copyTree(*harness, filepath.Join(simDst, "harness"))
	exported := map[string]map[string]bool{}
	for imp, dir := range replaced {
		exported[imp] = exportsOf(filepath.Join(*sim, dir))
	}
	pkgs := list(*src)
	in := &instr{fset: token.NewFileSet(), exported: exported, typed: map[string]*types.Package{}, exports: map[string]string{}, races: *race, skip: map[string]bool{}}
	for _, f := range strings.Split(*norace, ",") {
		in.skip[f] = true
	}
	var mine []*listPkg
	for _, p := range pkgs {
		if p.Module != nil && p.Module.Path == modPath && !p.Standard {
			mine = append(mine, p)
		} else if p.Export != "" {
			in.exports[p.ImportPath] = p.Export
		}
	}
	in.gc = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := in.exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range mine {
		in.pkg(p, *src, *dst)
	}
	sites, _ := json.MarshalIndent(in.sites, "", "")
	if err := os.WriteFile(filepath.Join(*dst, "sites.json"), sites, 0644); err != nil {
		die("%v", err)
	}
	if *race {
		if err := os.WriteFile(filepath.Join(simDst, "rt", "zz_sites.go"), []byte(in.sitesFile()), 0644); err != nil {
			die("%v", err)
		}
	}
}

func copyFile(a, b string) {
	data, err := os.ReadFile(a)
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(b), 0755)
	if err := os.WriteFile(b, data, 0644); err != nil {
		die("%v", err)
	}
}

func copyTree(a, b string) {
	err := filepath.Walk(a, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(a, p)
			copyFile(p, filepath.Join(b, rel))
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
}

func exportsOf(dir string) map[string]bool {
	m := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	if err != nil {
		die("%v", err)
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							if s.Name.IsExported() {
								m[s.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, nm := range s.Names {
								if d.Tok == token.VAR && nm.IsExported() {
									m[nm.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	switch filepath.Base(dir) {
	case "simos": // harness API that is not in package os
		for _, n := range []string{"FS", "NewFS", "Op", "Inode", "Cur"} {
			delete(m, n)
		}
	case "simsignal":
		delete(m, "Deliver")
		delete(m, "Caught")
	case "simnet":
		for _, n := range []string{"Net", "New", "Listener", "Canon"} {
			delete(m, n)
		}
	case "simhttp":
		for _, n := range []string{"Do", "Pending", "Response"} {
			delete(m, n)
		}
	}
	return m
}

func list(src string) []*listPkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Module,ImportMap,Error", "./...")
	cmd.Dir = src
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var r []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		r = append(r, &p)
	}
	return r
}

type instr struct {
	fset     *token.FileSet
	exported map[string]map[string]bool
	exports  map[string]string
	typed    map[string]*types.Package
	gc       types.Importer
	sites    []string
	races    bool
	skip     map[string]bool // file:function
}

func (in *instr) Import(path string) (*types.Package, error) {
	if p, ok := in.typed[path]; ok {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return in.gc.Import(path)
}

type fileRW struct {
	*instr
	info    *types.Info
	used    map[string]bool // sim packages this file needs
	file    *ast.File
	src     string
	tmp     int
	relName string
	race    bool
	wrap    map[ast.Expr]string // what an argument is passed on through
	given   map[types.Object]bool
	shared  map[types.Object]bool
	pkgPath string
}

func (in *instr) pkg(p *listPkg, src, dst string) {
	var files []*ast.File
	var names []string
	for _, g := range p.GoFiles {
		full := filepath.Join(p.Dir, g)
		f, err := parser.ParseFile(in.fset, full, nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names = append(names, full)
	}
	if len(files) == 0 {
		return
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: in, GoVersion: "", Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, in.fset, files, info)
	if err != nil {
		die("type-check %s: %v", p.ImportPath, err)
	}
	in.typed[p.ImportPath] = tp
	reset := in.resetFunc(p, files, info)
	for i, f := range files {
		rel, _ := filepath.Rel(src, names[i])
		rw := &fileRW{instr: in, info: info, used: map[string]bool{}, file: f, relName: rel, race: in.races, pkgPath: p.ImportPath}
		if in.races {
			rw.findShared(f)
		}
		var extra string
		if i == 0 {
			extra = reset
		}
		out := rw.rewrite(extra)
		target := filepath.Join(dst, rel)
		os.MkdirAll(filepath.Dir(target), 0755)
		if err := os.WriteFile(target, out, 0644); err != nil {
			die("%v", err)
		}
		_ = extra
	}
}

// resetVars collects, per file, the assignments that re-initialise package
// variables, in initialisation order.
type resetEntry struct {
	file int
	code *ast.AssignStmt
}

func (in *instr) resetFunc(p *listPkg, files []*ast.File, info *types.Info) string {
	// One function per package needs the initialisers in one file, whose imports
	// may lack names; so each variable gets its own function in its own file.
	inited := map[string]int{}
	for i, o := range info.InitOrder {
		for _, v := range o.Lhs {
			inited[v.Name()] = i
		}
	}
	type step struct {
		order int
		name  string
	}
	var steps []step
	n := 0
	for _, f := range files {
		var add []ast.Decl
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				var body []ast.Stmt
				order := -1
				if len(vs.Values) == 0 {
					for _, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(nm.Name)}, Tok: token.ASSIGN,
							Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}}})
					}
				} else {
					all := true
					var lhs []ast.Expr
					for _, nm := range vs.Names {
						lhs = append(lhs, ast.NewIdent(nm.Name))
						if nm.Name != "_" {
							all = false
						}
						if o, ok := inited[nm.Name]; ok && o > order {
							order = o
						}
					}
					if all {
						continue
					}
					body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values})
				}
				if len(body) == 0 {
					continue
				}
				n++
				name := fmt.Sprintf("zzReset%d", n)
				add = append(add, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
				steps = append(steps, step{order, name})
			}
		}
		f.Decls = append(f.Decls, add...)
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].order < steps[j].order })
	var b strings.Builder
	b.WriteString("\nfunc init() { rt.RegisterReset(func() {")
	for _, s := range steps {
		b.WriteString(s.name + "();")
	}
	b.WriteString("}) }\n")
	return b.String()
}

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (rw *fileRW) rt(name string) ast.Expr {
	rw.used["rt"] = true
	return sel("zzrt", name)
}

func (rw *fileRW) rewrite(extra string) []byte {
	f := rw.file
	// Function bodies and package-level expressions.
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			isReset := strings.HasPrefix(d.Name.Name, "zzReset")
			if d.Recv == nil && d.Name.Name == "main" && f.Name.Name == "main" {
				d.Name.Name = "Main"
			}
			if d.Recv != nil {
				rw.fields(d.Recv)
			}
			rw.exprs(d.Type)
			if isReset {
				for _, st := range d.Body.List {
					if star, ok := st.(*ast.AssignStmt).Rhs[0].(*ast.StarExpr); ok {
						if c, ok := star.X.(*ast.CallExpr); ok && len(c.Args) == 1 {
							if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "new" {
								c.Args[0] = rw.expr(c.Args[0])
							}
						}
					}
				}
			} else if d.Body != nil {
				if rw.skip[rw.relName+":"+d.Name.Name] {
					rw.race = false
				}
				rw.block(d.Body)
				rw.race = rw.races
			}
		case *ast.GenDecl:
			rw.node(d)
		}
	}
	if f.Name.Name == "main" {
		f.Name.Name = "recmain"
	}
	f.Comments = nil
	var body bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	// Print declarations apart from imports, which are rebuilt.
	var keep []ast.Decl
	var imports []*ast.ImportSpec
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				imports = append(imports, s.(*ast.ImportSpec))
			}
			continue
		}
		keep = append(keep, d)
	}
	for _, d := range keep {
		stripDocs(d)
		if err := cfg.Fprint(&body, rw.fset, d); err != nil {
			die("print %s: %v", rw.relName, err)
		}
		body.WriteString("\n\n")
	}
	if extra != "" {
		rw.used["rt"] = true
		extra = strings.ReplaceAll(extra, "rt.", "zzrt.")
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "package %s\n\n", f.Name.Name)
	stillUsed := rw.usedPkgNames(keep)
	for _, s := range imports {
		path, _ := strconv.Unquote(s.Path.Value)
		name := ""
		if s.Name != nil {
			name = s.Name.Name
		}
		local := name
		if local == "" {
			if o := rw.info.Implicits[s]; o != nil {
				local = o.Name()
			}
		}
		if local != "_" && local != "." && !stillUsed[local] {
			continue
		}
		fmt.Fprintf(&out, "import %s %s\n", name, strconv.Quote(path))
	}
	var used []string
	for u := range rw.used {
		used = append(used, u)
	}
	sort.Strings(used)
	for _, u := range used {
		fmt.Fprintf(&out, "import zz%s %q\n", u, simPath+"/"+u)
	}
	out.WriteString("\n")
	out.Write(body.Bytes())
	out.WriteString(extra)
	return out.Bytes()
}

func stripDocs(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (rw *fileRW) usedPkgNames(ds []ast.Decl) map[string]bool {
	m := map[string]bool{}
	for _, d := range ds {
		ast.Inspect(d, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if pn, ok := rw.info.Uses[id].(*types.PkgName); ok {
					m[pn.Name()] = true
				}
			}
			return true
		})
	}
	return m
}

func (rw *fileRW) site(pos token.Pos) ast.Expr {
	p := rw.fset.Position(pos)
	rw.sites = append(rw.sites, fmt.Sprintf("%s:%d", rw.relName, p.Line))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(99 + len(rw.sites))}
}

func (rw *fileRW) yield(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: call(rw.rt("Yield"), rw.site(pos))}
}

// block rewrites the statements of a block, with a scheduling point before each.
func (rw *fileRW) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = rw.stmts(b.List)
	}
}

func (rw *fileRW) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		pos := s.Pos()
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, rw.yield(pos))
		}
		if rw.race {
			out = append(out, rw.raceStmt(s)...)
			continue
		}
		out = append(out, rw.stmt(s))
	}
	return out
}

func (rw *fileRW) isChan(e ast.Expr) bool {
	t := rw.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := core(t).(*types.Chan)
	return ok
}

func core(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := u.(*types.Interface); ok {
		// A type parameter: use the common underlying type of its terms.
		var one types.Type
		for i := 0; i < tp.NumEmbeddeds(); i++ {
			e := tp.EmbeddedType(i)
			if un, ok := e.(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					x := un.Term(j).Type().Underlying()
					if one != nil && !types.Identical(one, x) {
						return u
					}
					one = x
				}
			}
		}
		if one != nil {
			return one
		}
	}
	return u
}

// header rewrites the simple statement in the head of an if, for or switch.
func (rw *fileRW) header(s ast.Stmt) ast.Stmt {
	if rw.race {
		return rw.raceSimple(s)
	}
	return rw.stmt(s)
}

func (rw *fileRW) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		rw.block(s)
		return s
	case *ast.LabeledStmt:
		// The label must stay on the loop, switch or select itself.
		s.Stmt = rw.stmtLabel(s)
		return unwrapLabel(s)
	case *ast.SelectStmt:
		return rw.selectStmt(s, "")
	case *ast.GoStmt:
		return rw.goStmt(s)
	case *ast.SendStmt:
		ch := rw.expr(s.Chan)
		v := rw.expr(s.Value)
		return &ast.ExprStmt{X: call(call(rw.rt("Send"), ch), v)}
	case *ast.RangeStmt:
		return rw.rangeStmt(s)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = rw.header(s.Init)
		}
		if s.Cond != nil {
			s.Cond = rw.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = rw.header(s.Post)
		}
		rw.block(s.Body)
		if len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{rw.yield(s.Pos())}
		}
		return s
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = rw.header(s.Init)
		}
		s.Cond = rw.expr(s.Cond)
		rw.block(s.Body)
		if s.Else != nil {
			s.Else = rw.stmt(s.Else)
		}
		return s
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = rw.header(s.Init)
		}
		if s.Tag != nil {
			s.Tag = rw.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = rw.expr(cc.List[i])
			}
			cc.Body = rw.stmts(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = rw.header(s.Init)
		}
		s.Assign = rw.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = rw.expr(cc.List[i])
			}
			cc.Body = rw.stmts(cc.Body)
		}
		return s
	case *ast.AssignStmt:
		if rw.race {
			return rw.raceSimple(s)
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = rw.expr(s.Lhs[i])
				}
				s.Rhs[0] = call(rw.rt("Recv2"), rw.expr(u.X))
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = rw.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = rw.expr(s.Rhs[i])
		}
		return s
	case *ast.DeclStmt:
		rw.node(s.Decl)
		return s
	case *ast.ExprStmt:
		s.X = rw.expr(s.X)
		return s
	case *ast.DeferStmt:
		if b, ok := rw.builtin(s.Call); ok {
			// defer close(ch): the rewritten call is an ordinary one.
			if b == "delete" {
				was := rw.race
				rw.race = false
				s.Call = rw.expr(s.Call).(*ast.CallExpr)
				rw.race = was
				return s
			}
			s.Call = rw.expr(s.Call).(*ast.CallExpr)
			return s
		}
		s.Call = rw.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.IncDecStmt:
		if rw.race {
			return rw.raceSimple(s)
		}
		s.X = rw.expr(s.X)
		return s
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = rw.expr(s.Results[i])
		}
		return s
	}
	return s
}

func (rw *fileRW) stmtLabel(l *ast.LabeledStmt) ast.Stmt {
	if s, ok := l.Stmt.(*ast.SelectStmt); ok {
		return rw.selectStmt(s, l.Label.Name)
	}
	if s, ok := l.Stmt.(*ast.BlockStmt); ok {
		rw.block(s)
		return s
	}
	return rw.stmt(l.Stmt)
}

// unwrapLabel drops the outer label where selectStmt has put it on the switch
// inside the block it made (a goto to it then still finds it there).
func unwrapLabel(l *ast.LabeledStmt) ast.Stmt {
	if b, ok := l.Stmt.(*ast.BlockStmt); ok && len(b.List) > 0 {
		if x, ok := b.List[len(b.List)-1].(*ast.LabeledStmt); ok && x.Label.Name == l.Label.Name {
			return b
		}
	}
	return l
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (rw *fileRW) name(p string) *ast.Ident {
	rw.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, rw.tmp))
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (rw *fileRW) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	var args []ast.Expr
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: rw.stmts(cc.Body)})
			continue
		}
		nm := rw.name("c")
		var pre []ast.Stmt
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			blk.List = append(blk.List, define(nm, call(call(rw.rt("SendCase"), rw.expr(comm.Chan)), rw.expr(comm.Value))))
		case *ast.ExprStmt:
			u := unparen(comm.X).(*ast.UnaryExpr)
			blk.List = append(blk.List, define(nm, call(rw.rt("RecvCase"), rw.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			blk.List = append(blk.List, define(nm, call(rw.rt("RecvCase"), rw.expr(u.X))))
			m := "Val"
			if len(comm.Lhs) == 2 {
				m = "Val2"
			}
			var lhs []ast.Expr
			var post []ast.Stmt
			for _, l := range comm.Lhs {
				if rw.race {
					a, to, b := rw.lhs(l, comm.Tok == token.DEFINE)
					pre, lhs, post = append(pre, a...), append(lhs, to), append(post, b...)
					continue
				}
				lhs = append(lhs, rw.expr(l))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: comm.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(nm.Name), Sel: ast.NewIdent(m)})}})
			pre = append(pre, post...)
		}
		args = append(args, ast.NewIdent(nm.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, rw.stmts(cc.Body)...)})
		n++
	}
	// Every path of a select without default is taken by a case; saying so keeps
	// functions that end in a select terminating.
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	sw.Tag = call(rw.rt("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)
	var last ast.Stmt = sw
	if label != "" {
		last = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: sw}
	}
	blk.List = append(blk.List, last)
	return blk
}

func (rw *fileRW) builtin(c *ast.CallExpr) (string, bool) {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok {
		return "", false
	}
	b, ok := rw.info.Uses[id].(*types.Builtin)
	if !ok {
		return "", false
	}
	return b.Name(), true
}

// elemSize is the size of an element of the slice or map type e, or 0.
func (rw *fileRW) elemSize(e ast.Expr) (n int64) {
	defer func() {
		if recover() != nil { // a type parameter
			n = 1
		}
	}()
	sizes := types.SizesFor("gc", "amd64")
	switch t := rw.info.Types[e].Type.Underlying().(type) {
	case *types.Slice:
		n = sizes.Sizeof(t.Elem())
	case *types.Map:
		n = sizes.Sizeof(t.Key()) + sizes.Sizeof(t.Elem())
	default:
		return 0
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (rw *fileRW) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if _, ok := rw.builtin(c); ok {
		x := rw.expr(c)
		return &ast.ExprStmt{X: call(rw.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}})}
	}
	fun := unparen(c.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(rw.rt("Go"), rw.expr(fl))}
	}
	blk := &ast.BlockStmt{}
	hoistFun := true
	switch f := fun.(type) {
	case *ast.Ident:
		if _, ok := rw.info.Uses[f].(*types.Func); ok {
			hoistFun = false
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := rw.info.Uses[id].(*types.PkgName); ok {
				hoistFun = false
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		hoistFun = false
	}
	nf := rw.expr(c.Fun)
	if hoistFun {
		nm := rw.name("f")
		blk.List = append(blk.List, define(nm, nf))
		nf = ast.NewIdent(nm.Name)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := rw.info.Types[a]
		_, isTuple := tv.Type.(*types.Tuple)
		untyped := false
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			untyped = true
		}
		na := rw.expr(a)
		if tv.Value != nil || tv.IsNil() || untyped || isTuple {
			args = append(args, na)
			continue
		}
		nm := rw.name("a")
		blk.List = append(blk.List, define(nm, na))
		args = append(args, ast.NewIdent(nm.Name))
	}
	nc := &ast.CallExpr{Fun: nf, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(rw.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})})
	return blk
}

func (rw *fileRW) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := rw.info.TypeOf(s.X)
	kind := core(t)
	_, isMap := kind.(*types.Map)
	_, isChan := kind.(*types.Chan)
	if !isMap && !isChan && rw.race {
		return rw.raceRange(s)
	}
	if !isMap && !isChan {
		if s.Key != nil {
			s.Key = rw.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = rw.expr(s.Value)
		}
		s.X = rw.expr(s.X)
		rw.block(s.Body)
		return s
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	it := rw.name("it")
	isNilKey, isNilVal := blank(s.Key), blank(s.Value)
	x := rw.expr(s.X)
	ptr := func(e ast.Expr, nilp bool) ast.Expr {
		if nilp {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	next := func(args ...ast.Expr) ast.Expr {
		return call(&ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, args...)
	}
	key, val := s.Key, s.Value
	var first []ast.Stmt
	if rw.race {
		for _, e := range []ast.Expr{key, val} {
			if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
				o := rw.info.Defs[id]
				if o == nil {
					o = rw.info.Uses[id]
				}
				if o != nil && rw.tracked(o) {
					first = append(first, wr(rw, addr(ast.NewIdent(id.Name))))
				}
			}
		}
	}
	if !isNilKey {
		key = rw.lval(key)
	}
	if !isNilVal {
		val = rw.lval(val)
	}
	body := s.Body
	rw.block(body)
	body.List = append(first, body.List...)
	f := &ast.ForStmt{Body: body}
	id := func(e ast.Expr, nilp bool) ast.Expr {
		if nilp {
			return ast.NewIdent("_")
		}
		return e
	}
	fun := "RangeMap"
	if isChan {
		fun = "RangeChan"
	}
	if s.Tok == token.DEFINE {
		lhs := []ast.Expr{it, id(key, isNilKey)}
		args := []ast.Expr{ptr(key, isNilKey)}
		if isMap {
			lhs = append(lhs, id(val, isNilVal))
			args = append(args, ptr(val, isNilVal))
		}
		f.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rw.rt(fun), x)}}
		f.Cond = next(args...)
		return f
	}
	// Assignment form, or no variables: go through temporaries.
	lhs := []ast.Expr{it}
	var args []ast.Expr
	var copies []ast.Stmt
	add := func(e ast.Expr, nilp bool) {
		if nilp {
			lhs = append(lhs, ast.NewIdent("_"))
			args = append(args, ast.NewIdent("nil"))
			return
		}
		tn := rw.name("t")
		lhs = append(lhs, tn)
		args = append(args, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(tn.Name)})
		copies = append(copies, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tn.Name)}})
	}
	add(key, isNilKey)
	if isMap {
		add(val, isNilVal)
	}
	f.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rw.rt(fun), x)}}
	f.Cond = next(args...)
	body.List = append(copies, body.List...)
	return f
}

// node rewrites the expressions of a declaration in place.
func (rw *fileRW) node(d ast.Decl) {
	gd, ok := d.(*ast.GenDecl)
	if !ok {
		return
	}
	for _, s := range gd.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if s.Type != nil {
				s.Type = rw.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = call(rw.rt("Recv2"), rw.expr(u.X))
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = rw.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			if s.TypeParams != nil {
				rw.fields(s.TypeParams)
			}
			s.Type = rw.expr(s.Type)
		}
	}
}

func (rw *fileRW) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = rw.expr(f.Type)
	}
}

func (rw *fileRW) exprs(t *ast.FuncType) {
	rw.fields(t.TypeParams)
	rw.fields(t.Params)
	rw.fields(t.Results)
}

func (rw *fileRW) expr(e ast.Expr) ast.Expr {
	if rw.race && e != nil {
		w := rw.wrap[e]
		r, ok := rw.raceExpr(e)
		if !ok {
			r = rw.plain(e)
		}
		if w != "" {
			return call(rw.rt(w), r)
		}
		return r
	}
	return rw.plain(e)
}

func (rw *fileRW) plain(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := rw.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if sim, ok := replaced[path]; ok && rw.exported[path][e.Sel.Name] {
					rw.used[sim] = true
					return sel("zz"+sim, e.Sel.Name)
				}
				return e
			}
		}
		e.X = rw.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(rw.rt("Recv"), rw.expr(e.X))
		}
		e.X = rw.expr(e.X)
		return e
	case *ast.CallExpr:
		if b, ok := rw.builtin(e); ok && len(e.Args) == 1 && rw.isChan(e.Args[0]) {
			switch b {
			case "close":
				return call(rw.rt("Close"), rw.expr(e.Args[0]))
			case "len":
				return call(rw.rt("Len"), rw.expr(e.Args[0]))
			}
		}
		elem := int64(0)
		sized := make([]bool, len(e.Args))
		if b, ok := rw.builtin(e); ok && b == "make" && len(e.Args) > 1 {
			elem = rw.elemSize(e.Args[0])
			for i, a := range e.Args[1:] {
				tv := rw.info.Types[a]
				bt, ok := tv.Type.Underlying().(*types.Basic)
				sized[i+1] = elem > 0 && tv.Value == nil && ok && bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUntyped == 0
			}
		}
		e.Fun = rw.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = rw.expr(e.Args[i])
			if sized[i] {
				e.Args[i] = call(rw.rt("Alloc"), e.Args[i], &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(elem, 10)})
			}
		}
		return e
	case *ast.FuncLit:
		rw.exprs(e.Type)
		rw.block(e.Body)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = rw.expr(e.X), rw.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = rw.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = rw.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = rw.expr(e.X), rw.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = rw.expr(e.X)
		for i := range e.Indices {
			e.Indices[i] = rw.expr(e.Indices[i])
		}
		return e
	case *ast.SliceExpr:
		e.X = rw.expr(e.X)
		if e.Low != nil {
			e.Low = rw.expr(e.Low)
		}
		if e.High != nil {
			e.High = rw.expr(e.High)
		}
		if e.Max != nil {
			e.Max = rw.expr(e.Max)
		}
		return e
	case *ast.TypeAssertExpr:
		e.X = rw.expr(e.X)
		if e.Type != nil {
			e.Type = rw.expr(e.Type)
		}
		return e
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = rw.expr(e.Type)
		}
		isStruct := false
		if t := rw.info.TypeOf(e); t != nil {
			u := core(t)
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, isStruct = u.(*types.Struct)
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = rw.expr(kv.Key)
				}
				kv.Value = rw.expr(kv.Value)
				continue
			}
			e.Elts[i] = rw.expr(el)
		}
		return e
	case *ast.KeyValueExpr:
		e.Value = rw.expr(e.Value)
		return e
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = rw.expr(e.Len)
		}
		e.Elt = rw.expr(e.Elt)
		return e
	case *ast.ChanType:
		e.Value = rw.expr(e.Value)
		return e
	case *ast.MapType:
		e.Key, e.Value = rw.expr(e.Key), rw.expr(e.Value)
		return e
	case *ast.FuncType:
		rw.exprs(e)
		return e
	case *ast.StructType:
		rw.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		rw.fields(e.Methods)
		return e
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = rw.expr(e.Elt)
		}
		return e
	}
	return e
}
