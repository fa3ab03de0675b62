// Mutate lists or applies small syntactic changes of one Go file, used to look
// for gaps of the checks (tools/mutants.py).
//
//	mutate FILE          lists the changes, one per line
//	mutate FILE N OUT    writes the file with change N to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var ms []mut
	add := func(p token.Pos, what string, apply func()) { ms = append(ms, mut{p, what, apply}) }
	src := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		s := b.String()
		if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
			s = s[:i] + "..."
		}
		return s
	}
	ops := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.OR: {token.AND}, token.AND: {token.OR}, token.SHL: {token.SHR},
	}
	list := func(l []ast.Stmt, set func([]ast.Stmt)) {
		for i, s := range l {
			i, s := i, s
			del := func() {
				n := append([]ast.Stmt{}, l[:i]...)
				set(append(n, l[i+1:]...))
			}
			switch s.(type) {
			case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.SendStmt, *ast.GoStmt, *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), "delete "+src(s), del)
			case *ast.AssignStmt:
				if s.(*ast.AssignStmt).Tok != token.DEFINE {
					add(s.Pos(), "delete "+src(s), del)
				}
			}
			if i+1 < len(l) {
				if _, ok := s.(*ast.ReturnStmt); !ok {
					if _, ok := l[i+1].(*ast.ReturnStmt); !ok {
						add(s.Pos(), "swap "+src(s)+" with next", func() { l[i], l[i+1] = l[i+1], l[i] })
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			list(n.List, func(l []ast.Stmt) { n.List = l })
		case *ast.CaseClause:
			list(n.Body, func(l []ast.Stmt) { n.Body = l })
		case *ast.CommClause:
			list(n.Body, func(l []ast.Stmt) { n.Body = l })
		case *ast.BinaryExpr:
			for _, o := range ops[n.Op] {
				o, old := o, n.Op
				add(n.OpPos, fmt.Sprintf("%s: %s -> %s", src(n), old, o), func() { n.Op = o })
			}
		case *ast.IfStmt:
			add(n.Pos(), "never "+src(n.Cond), func() {
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: n.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			add(n.Pos(), "always "+src(n.Cond), func() {
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: n.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.Value+" + 1", func() { n.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(n.Pos(), n.Value+" - 1", func() { n.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.ReturnStmt:
			if k := len(n.Results); k > 0 {
				if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					add(n.Pos(), "return nil for err", func() { n.Results[k-1] = ast.NewIdent("nil") })
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), "true -> false", func() { n.Name = "false" })
			} else if n.Name == "false" {
				add(n.Pos(), "false -> true", func() { n.Name = "true" })
			}
		}
		return true
	})
	if len(os.Args) < 4 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	ms[i].apply()
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0644)
}
