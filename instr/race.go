package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// With -race every access to memory that another goroutine could reach is
// reported to rt: fields, elements, pointed-to values, package variables, and
// locals that a closure or a pointer shares. A read x.f becomes
// (*zzrt.Rd(&x.f)); a write is reported after the assignment, through the
// address taken before it, so that it counts from the moment it happened.

// funcOf finds the locals that more than one goroutine could see: those used
// in a function literal other than the function that declares them, and those
// whose address is taken.
func (rw *fileRW) findShared(f *ast.File) {
	rw.shared = map[types.Object]bool{}
	rw.wrap = map[ast.Expr]string{}
	rw.given = map[types.Object]bool{}
	decl := map[types.Object]ast.Node{}
	var cur ast.Node
	var walk func(n ast.Node, uses bool)
	walk = func(n ast.Node, uses bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl:
				rw.findGiven(x)
				if x != n {
					old := cur
					cur = x
					walk(x, uses)
					cur = old
					return false
				}
			case *ast.FuncLit:
				if x != n {
					old := cur
					cur = x
					walk(x, uses)
					cur = old
					return false
				}
			}
			if x == nil {
				return true
			}
			if o := rw.info.Implicits[x]; o != nil && !uses {
				decl[o] = cur
			}
			switch x := x.(type) {
			case *ast.Ident:
				if !uses {
					if v, ok := rw.info.Defs[x].(*types.Var); ok && !v.IsField() {
						decl[v] = cur
					}
				} else if v, ok := rw.info.Uses[x].(*types.Var); ok && !v.IsField() {
					if d, ok := decl[v]; ok && d != cur {
						rw.shared[v] = true
					}
				}
			case *ast.UnaryExpr:
				if uses && x.Op == token.AND {
					if v := rw.rootVar(x.X); v != nil {
						rw.shared[v] = true
					}
				}
			case *ast.SliceExpr:
				if uses {
					if _, ok := under(rw.info.TypeOf(x.X)).(*types.Array); ok {
						if v := rw.rootVar(x.X); v != nil {
							rw.shared[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				if uses && rw.ptrMethod(x) {
					if v := rw.rootVar(x.X); v != nil {
						rw.shared[v] = true
					}
				}
			}
			return true
		})
	}
	walk(f, false)
	walk(f, true)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := core(t).(*types.Pointer)
	return ok
}

// ptrMethod reports whether e is a method with a pointer receiver taken of an
// addressable value (whose address it takes).
func (rw *fileRW) ptrMethod(e *ast.SelectorExpr) bool {
	s := rw.info.Selections[e]
	if s == nil || s.Kind() != types.MethodVal {
		return false
	}
	sig, ok := s.Obj().Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return false
	}
	_, recvPtr := sig.Recv().Type().(*types.Pointer)
	return recvPtr && !isPtr(rw.info.TypeOf(e.X)) && rw.info.Types[e.X].Addressable()
}

// rootVar is the local or package variable that holds the addressed value
// itself (nil if the path goes through a pointer, slice or map).
func (rw *fileRW) rootVar(e ast.Expr) types.Object {
	for {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			v, ok := rw.info.Uses[x].(*types.Var)
			if !ok || v.IsField() {
				if d, ok := rw.info.Defs[x].(*types.Var); ok {
					return d
				}
				return nil
			}
			return v
		case *ast.SelectorExpr:
			if s := rw.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				if s.Indirect() {
					return nil
				}
				e = x.X
				continue
			}
			if v, ok := rw.info.Uses[x.Sel].(*types.Var); ok {
				return v
			}
			return nil
		case *ast.IndexExpr:
			if _, ok := under(rw.info.TypeOf(x.X)).(*types.Array); ok {
				e = x.X
				continue
			}
			return nil
		default:
			return nil
		}
	}
}

// ownVar reports whether a variable is one that accesses are reported of.
func (rw *fileRW) tracked(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Name() == "_" {
		return false
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		_, mine := rw.typed[v.Pkg().Path()]
		return mine || v.Pkg().Path() == rw.pkgPath
	}
	return rw.shared[v]
}

// worth reports whether an access to the addressable e can concern another
// goroutine.
func (rw *fileRW) worth(e ast.Expr) bool {
	if !rw.info.Types[e].Addressable() {
		return false
	}
	if o := rw.rootVar(e); o != nil {
		return rw.tracked(o)
	}
	return !rw.foreign(e)
}

// foreign reports whether e is part of a value of another module's type, as a
// request's context is: what that code does with it, and how it synchronises,
// is not known.
func (rw *fileRW) foreign(e ast.Expr) bool {
	named := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return false
		}
		path := n.Obj().Pkg().Path()
		_, mine := rw.typed[path]
		return !mine && path != rw.pkgPath
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return rw.foreign(x.X)
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if f := s.Obj(); f.Pkg() != nil {
			if _, mine := rw.typed[f.Pkg().Path()]; !mine && f.Pkg().Path() != rw.pkgPath {
				return true
			}
		}
		return false
	case *ast.StarExpr:
		return named(rw.info.TypeOf(x.X))
	}
	return false
}

// findGiven finds the memory that a reader or writer of the code is given: it
// may belong to a library, which synchronises its use in its own way.
func (rw *fileRW) findGiven(fd *ast.FuncDecl) {
	if fd.Recv == nil {
		return
	}
	switch fd.Name.Name {
	case "Read", "Write", "ReadAt", "WriteAt":
		for _, f := range fd.Type.Params.List {
			for _, n := range f.Names {
				if o := rw.info.Defs[n]; o != nil {
					rw.given[o] = true
				}
			}
		}
	}
}

// ofLibrary reports whether e is (part of) memory that a library may own.
func (rw *fileRW) ofLibrary(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SliceExpr:
		return rw.ofLibrary(x.X)
	case *ast.Ident:
		return rw.given[rw.info.Uses[x]]
	}
	return false
}

// unsafeUse tells how a method of a library uses its receiver, if that is a
// type which is not made for concurrent use.
func (rw *fileRW) unsafeUse(o types.Object) string {
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil {
		return ""
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	t := sig.Recv().Type()
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return ""
	}
	switch f.Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder", "container/list.List", "bytes.Reader", "strings.Reader":
		switch f.Name() {
		case "Len", "Cap", "String", "Bytes", "Available", "Front", "Back", "Size":
			return "Use"
		}
		return "UseW"
	case "bufio.Reader", "bufio.Writer", "bufio.Scanner", "math/rand.Rand", "encoding/json.Encoder", "encoding/json.Decoder":
		return "UseW"
	}
	return ""
}

// library notes which arguments of a call of a library function it reads or
// writes.
func (rw *fileRW) library(x *ast.CallExpr) {
	if x.Ellipsis.IsValid() {
		return
	}
	is := func(i int) *types.Slice {
		if i >= len(x.Args) || rw.info.Types[x.Args[i]].IsNil() {
			return nil
		}
		s, _ := under(rw.info.TypeOf(x.Args[i])).(*types.Slice)
		return s
	}
	note := func(i int, w string) {
		if is(i) != nil {
			rw.wrap[x.Args[i]] = w
		}
	}
	if tv := rw.info.Types[x.Fun]; tv.IsType() {
		// string(b)
		if b, ok := under(tv.Type).(*types.Basic); ok && b.Info()&types.IsString != 0 && len(x.Args) == 1 {
			note(0, "RdS")
		}
		return
	}
	se, ok := unparen(x.Fun).(*ast.SelectorExpr)
	if !ok {
		return
	}
	f, ok := rw.info.Uses[se.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return
	}
	deep := func(i int) {
		if i < len(x.Args) {
			if tv := rw.info.Types[x.Args[i]]; tv.Value == nil && !tv.IsNil() {
				rw.wrap[x.Args[i]] = "Deep"
			}
		}
	}
	into := func(i int) {
		if i < len(x.Args) && isPtr(rw.info.TypeOf(x.Args[i])) {
			rw.wrap[x.Args[i]] = "Into"
		}
	}
	if recv := f.Type().(*types.Signature).Recv(); recv != nil && !strings.HasPrefix(f.Pkg().Path(), "recengine") && is(0) != nil && !rw.ofLibrary(x.Args[0]) {
		switch f.Name() {
		case "Read", "ReadAt":
			note(0, "WrS")
		case "Write", "WriteAt":
			note(0, "RdS")
		}
	}
	switch name := f.Name(); f.Pkg().Path() {
	case "io":
		if name == "ReadFull" || name == "ReadAtLeast" {
			note(1, "WrS")
		}
	case "encoding/binary":
		if name == "Read" {
			into(2)
			note(2, "WrS")
		}
		if name == "Write" {
			note(2, "RdS")
		}
		switch {
		case strings.HasPrefix(name, "PutUint"):
			note(0, "WrS")
		case strings.HasPrefix(name, "Uint") || name == "Varint" || name == "Uvarint":
			note(0, "RdS")
		}
	case "bytes", "hash/crc32", "hash/crc64", "hash/adler32", "encoding/hex":
		if f.Type().(*types.Signature).Recv() == nil && (f.Pkg().Path() != "encoding/hex" || name == "EncodeToString") {
			for i := range x.Args {
				if s := is(i); s != nil && name != "NewBuffer" && name != "NewReader" {
					note(i, "RdS")
				}
			}
		}
	case "sort":
		switch name {
		case "Ints", "Strings", "Float64s", "Slice", "SliceStable":
			note(0, "WrS")
		}
	case "slices":
		if strings.HasPrefix(name, "Sort") || name == "Reverse" {
			note(0, "WrS")
		}
	case "encoding/json":
		switch name {
		case "Marshal", "MarshalIndent", "Encode":
			deep(0)
		case "Unmarshal":
			note(0, "RdS")
			into(1)
		case "Decode":
			into(0)
		}
	case "github.com/gin-gonic/gin":
		switch name {
		case "JSON", "IndentedJSON", "PureJSON", "SecureJSON", "AsciiJSON", "AbortWithStatusJSON":
			deep(1)
		case "ShouldBind", "ShouldBindJSON", "Bind", "BindJSON", "ShouldBindQuery", "ShouldBindUri", "ShouldBindWith", "ShouldBindBodyWith":
			into(0)
		}
	}
}

func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

// rd wraps an address-mode expression so that reading it is reported.
func (rw *fileRW) rd(e ast.Expr) ast.Expr {
	return paren(&ast.StarExpr{X: call(rw.rt("Rd"), addr(e))})
}

// lval rewrites an addressable expression whose address is taken or that is
// assigned to: only what is read on the way to it is reported.
func (rw *fileRW) lval(e ast.Expr) ast.Expr {
	if !rw.race {
		return rw.expr(e)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = rw.lval(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return rw.plain(x)
		}
		if isPtr(rw.info.TypeOf(x.X)) || !rw.info.Types[x.X].Addressable() {
			x.X = rw.expr(x.X)
		} else {
			x.X = rw.lval(x.X)
		}
		return x
	case *ast.IndexExpr:
		if _, ok := under(rw.info.TypeOf(x.X)).(*types.Array); ok && rw.info.Types[x.X].Addressable() {
			x.X = rw.lval(x.X)
		} else {
			x.X = rw.expr(x.X)
		}
		x.Index = rw.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = rw.expr(x.X)
		return x
	}
	return rw.expr(e)
}

// raceExpr rewrites a value expression; ok is false where the ordinary
// rewriting applies.
func (rw *fileRW) raceExpr(e ast.Expr) (ast.Expr, bool) {
	tv, known := rw.info.Types[e]
	if known && (tv.Value != nil || tv.IsType() || tv.IsNil()) {
		rw.race = false
		r := rw.plain(e)
		rw.race = true
		return r, true
	}
	switch x := e.(type) {
	case *ast.Ident:
		if o := rw.info.Uses[x]; o != nil && rw.tracked(o) {
			return rw.rd(x), true
		}
		return x, true
	case *ast.SelectorExpr:
		s := rw.info.Selections[x]
		if s == nil { // a name of another package
			if v, ok := rw.info.Uses[x.Sel].(*types.Var); ok && rw.tracked(v) {
				return rw.rd(rw.plain(x)), true
			}
			return nil, false
		}
		switch s.Kind() {
		case types.FieldVal:
			if rw.worth(x) {
				return rw.rd(rw.lval(x)), true
			}
			if tv.Addressable() {
				return rw.lval(x), true
			}
			return nil, false
		case types.MethodVal:
			use := ""
			if len(s.Index()) == 1 {
				use = rw.unsafeUse(s.Obj())
			}
			if rw.ptrMethod(x) {
				if use != "" && rw.worth(x.X) {
					x.X = call(rw.rt(use), addr(rw.lval(x.X)))
					return x, true
				}
				x.X = rw.lval(x.X)
				return x, true
			}
			if use != "" && isPtr(rw.info.TypeOf(x.X)) {
				x.X = call(rw.rt(use), rw.expr(x.X))
				return x, true
			}
			sig, ok := s.Obj().Type().(*types.Signature)
			if ok && sig.Recv() != nil && len(s.Index()) == 1 && isPtr(rw.info.TypeOf(x.X)) {
				_, recvPtr := sig.Recv().Type().(*types.Pointer)
				_, iface := under(sig.Recv().Type()).(*types.Interface)
				if !recvPtr && !iface {
					x.X = paren(&ast.StarExpr{X: call(rw.rt("Rd"), rw.expr(x.X))})
					return x, true
				}
			}
			return nil, false
		}
		return x, true
	case *ast.StarExpr:
		if !rw.worth(x) {
			return nil, false
		}
		return paren(&ast.StarExpr{X: call(rw.rt("Rd"), rw.expr(x.X))}), true
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			x.X = rw.lval(x.X)
			return x, true
		}
	case *ast.IndexExpr:
		t := rw.info.TypeOf(x.X)
		if t == nil {
			return nil, false
		}
		switch core(t).(type) {
		case *types.Map:
			x.X = call(rw.rt("RdM"), rw.expr(x.X))
			x.Index = rw.expr(x.Index)
			return x, true
		case *types.Slice, *types.Array, *types.Pointer:
			if rw.worth(x) {
				return rw.rd(rw.lval(x)), true
			}
			if tv.Addressable() {
				return rw.lval(x), true
			}
			return nil, false
		case *types.Signature:
			rw.race = false
			r := rw.plain(x)
			rw.race = true
			return r, true
		}
	case *ast.SliceExpr:
		if _, ok := under(rw.info.TypeOf(x.X)).(*types.Array); ok {
			y := &ast.SliceExpr{X: rw.lval(x.X), Low: rw.expr(x.Low), High: rw.expr(x.High), Max: rw.expr(x.Max), Slice3: x.Slice3}
			return y, true
		}
	case *ast.CallExpr:
		b, ok := rw.builtin(x)
		if !ok {
			rw.library(x)
			return nil, false
		}
		switch b {
		case "len", "cap":
			switch core(rw.info.TypeOf(x.Args[0])).(type) {
			case *types.Array:
				x.Args[0] = rw.lval(x.Args[0])
				return x, true
			case *types.Map:
				x.Args[0] = call(rw.rt("RdM"), rw.expr(x.Args[0]))
				return x, true
			}
		case "append":
			if len(x.Args) < 2 {
				return nil, false
			}
			if rw.info.Types[x.Args[0]].IsNil() {
				return nil, false
			}
			if _, ok := core(rw.info.TypeOf(x.Args[0])).(*types.Slice); !ok {
				return nil, false
			}
			if x.Ellipsis.IsValid() {
				if _, ok := core(rw.info.TypeOf(x.Args[1])).(*types.Slice); !ok || rw.info.Types[x.Args[1]].IsNil() {
					return nil, false // a string
				}
			}
			y := &ast.CallExpr{Fun: call(rw.rt("App"), rw.expr(x.Args[0])), Ellipsis: x.Ellipsis}
			for _, a := range x.Args[1:] {
				y.Args = append(y.Args, rw.expr(a))
			}
			return y, true
		case "copy":
			if _, ok := core(rw.info.TypeOf(x.Args[1])).(*types.Slice); !ok || rw.info.Types[x.Args[1]].IsNil() {
				return nil, false
			}
			return call(rw.rt("Copy"), rw.expr(x.Args[0]), rw.expr(x.Args[1])), true
		case "delete":
			x.Args[0] = call(rw.rt("WrM"), rw.expr(x.Args[0]))
			x.Args[1] = rw.expr(x.Args[1])
			return x, true
		}
	}
	return nil, false
}

func (rw *fileRW) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	x, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	t := rw.info.TypeOf(x.X)
	if t == nil {
		return nil, false
	}
	_, ok = core(t).(*types.Map)
	return x, ok
}

func wr(rw *fileRW, e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: call(rw.rt("Wr"), e)} }

// lhs rewrites one assigned expression: what to do before the statement, the
// expression to assign to, and what to do after it.
func (rw *fileRW) lhs(l ast.Expr, def bool) (pre []ast.Stmt, to ast.Expr, post []ast.Stmt) {
	if id, ok := unparen(l).(*ast.Ident); ok {
		if id.Name == "_" {
			return nil, l, nil
		}
		o := rw.info.Uses[id]
		if o == nil {
			o = rw.info.Defs[id]
		}
		if o != nil && rw.tracked(o) {
			post = append(post, wr(rw, addr(ast.NewIdent(id.Name))))
		}
		return nil, l, post
	}
	if x, ok := rw.isMapIndex(l); ok {
		nm := rw.name("m")
		pre = append(pre, define(nm, rw.expr(x.X)))
		post = append(post, &ast.ExprStmt{X: call(rw.rt("WrM"), ast.NewIdent(nm.Name))})
		return pre, &ast.IndexExpr{X: ast.NewIdent(nm.Name), Index: rw.expr(x.Index)}, post
	}
	if !rw.worth(unparen(l)) {
		return nil, rw.lval(l), nil
	}
	nm := rw.name("p")
	pre = append(pre, define(nm, addr(rw.lval(unparen(l)))))
	return pre, &ast.StarExpr{X: ast.NewIdent(nm.Name)}, []ast.Stmt{wr(rw, ast.NewIdent(nm.Name))}
}

// raceAssign rewrites an assignment that stands in a statement list.
func (rw *fileRW) raceAssign(s *ast.AssignStmt) []ast.Stmt {
	var out, after []ast.Stmt
	for i, l := range s.Lhs {
		pre, to, post := rw.lhs(l, s.Tok == token.DEFINE)
		s.Lhs[i] = to
		out = append(out, pre...)
		after = append(after, post...)
	}
	if s.Tok == token.DEFINE {
		out = nil
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = call(rw.rt("Recv2"), rw.expr(u.X))
			return append(append(out, s), after...)
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = rw.expr(s.Rhs[i])
	}
	return append(append(out, s), after...)
}

// quiet reports whether evaluating e cannot synchronise with anything.
func (rw *fileRW) quiet(e ast.Expr) bool {
	q := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if _, ok := rw.builtin(n); !ok && !rw.info.Types[n.Fun].IsType() {
				q = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				q = false
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return q
}

// raceSimple rewrites an assignment where nothing can be put after it (in the
// header of an if, for or switch): the write is reported on the way to it.
func (rw *fileRW) raceSimple(s ast.Stmt) ast.Stmt {
	target := func(l ast.Expr, report bool) ast.Expr {
		if id, ok := unparen(l).(*ast.Ident); ok {
			if o := rw.info.Uses[id]; report && o != nil && rw.tracked(o) {
				return &ast.StarExpr{X: call(rw.rt("Wr"), addr(id))}
			}
			return l
		}
		if x, ok := rw.isMapIndex(l); ok {
			m := rw.expr(x.X)
			if report {
				m = call(rw.rt("WrM"), m)
			}
			return &ast.IndexExpr{X: m, Index: rw.expr(x.Index)}
		}
		if report && rw.worth(unparen(l)) {
			return &ast.StarExpr{X: call(rw.rt("Wr"), addr(rw.lval(unparen(l))))}
		}
		return rw.lval(l)
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		t := target(s.X, true)
		if st, ok := t.(*ast.StarExpr); ok {
			t = paren(st)
		}
		s.X = t
		return s
	case *ast.AssignStmt:
		report := s.Tok != token.DEFINE
		for _, r := range s.Rhs {
			report = report && rw.quiet(r)
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = target(s.Lhs[i], report)
			}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = call(rw.rt("Recv2"), rw.expr(u.X))
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = rw.expr(s.Rhs[i])
		}
		return s
	}
	return rw.stmt(s)
}

// raceStmt rewrites a statement of a list into what takes its place.
func (rw *fileRW) raceStmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return rw.raceAssign(s)
	case *ast.IncDecStmt:
		pre, to, post := rw.lhs(s.X, false)
		if st, ok := to.(*ast.StarExpr); ok {
			to = paren(st)
		}
		s.X = to
		return append(append(pre, s), post...)
	case *ast.IfStmt:
		if a, ok := s.Init.(*ast.AssignStmt); ok && a.Tok != token.DEFINE {
			s.Init = nil
			list := rw.raceAssign(a)
			list = append(list, rw.stmt(s))
			return []ast.Stmt{&ast.BlockStmt{List: list}}
		}
	}
	return []ast.Stmt{rw.stmt(s)}
}

// raceRange rewrites the range statements over slices, arrays and strings.
func (rw *fileRW) raceRange(s *ast.RangeStmt) ast.Stmt {
	shared := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		if !ok || id.Name == "_" {
			return false
		}
		o := rw.info.Defs[id]
		if o == nil {
			o = rw.info.Uses[id]
		}
		return o != nil && rw.tracked(o)
	}
	var first []ast.Stmt
	for _, e := range []ast.Expr{s.Key, s.Value} {
		if e != nil && shared(e) {
			first = append(first, wr(rw, addr(ast.NewIdent(e.(*ast.Ident).Name))))
		}
	}
	blank := s.Value == nil
	if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
		blank = true
	}
	_, isSlice := core(rw.info.TypeOf(s.X)).(*types.Slice)
	if !isSlice || blank || s.Tok != token.DEFINE {
		if s.Key != nil {
			s.Key = rw.lval(s.Key)
		}
		if s.Value != nil {
			s.Value = rw.lval(s.Value)
		}
		if _, ok := under(rw.info.TypeOf(s.X)).(*types.Array); ok && blank {
			s.X = rw.lval(s.X)
		} else {
			s.X = rw.expr(s.X)
		}
		rw.block(s.Body)
		s.Body.List = append(first, s.Body.List...)
		return s
	}
	it := rw.name("it")
	key := ast.Expr(ast.NewIdent("_"))
	keyp := ast.Expr(ast.NewIdent("nil"))
	if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
		key, keyp = id, addr(ast.NewIdent(id.Name))
	}
	val := s.Value.(*ast.Ident)
	x := rw.expr(s.X)
	rw.block(s.Body)
	s.Body.List = append(first, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it, key, val}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rw.rt("RangeSlice"), x)}},
		Cond: call(&ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, keyp, addr(ast.NewIdent(val.Name))),
		Body: s.Body,
	}
}

func (in *instr) sitesFile() string {
	out := "package rt\n\nfunc init() { SiteNames = []string{\n"
	for _, s := range in.sites {
		out += fmt.Sprintf("%q,\n", s)
	}
	return out + "} }\n"
}

// blamed prints the functions that the compiler complained about, separated by
// commas, as -norace takes them.
func blamed(log, dst string) {
	data, err := os.ReadFile(log)
	if err != nil {
		die("%v", err)
	}
	seen := map[string]bool{}
	var out []string
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.SplitN(l, ":", 4)
		if len(f) < 4 || !strings.HasSuffix(f[0], ".go") {
			continue
		}
		line, err := strconv.Atoi(f[1])
		if err != nil {
			continue
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, filepath.Join(dst, f[0]), nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fset.Position(fd.Pos()).Line > line || fset.Position(fd.End()).Line < line {
				continue
			}
			id := strings.TrimPrefix(filepath.ToSlash(filepath.Clean(f[0])), "./") + ":" + fd.Name.Name
			if !seen[id] {
				seen[id] = true
				out = append(out, id)
			}
		}
	}
	fmt.Println(strings.Join(out, ","))
}
