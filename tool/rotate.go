package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"strings"
)

// A loop written with its step before it and again at the end of its body,
//
//	S; for C { B; S }        for S; C; S { B }
//
// is read as the loop it is: for { S; if !(C) { break }; B }. The rules then see
// one occurrence of the step. The rewriting happens on the syntax tree, before
// type-checking, and only where it cannot change what the loop does.

func parseUnrotated(root string) func(*token.FileSet, string, []byte) (*ast.File, error) {
	return func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
		f, err := parser.ParseFile(fset, filename, src, parser.AllErrors|parser.ParseComments|parser.SkipObjectResolution)
		if err != nil || f == nil || !strings.HasPrefix(filename, root) || strings.HasSuffix(filename, ".pb.go") {
			return f, err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			consumeFns(fd.Body, fd.Type)
			unrotateFn(fd.Body, fd.Type)
		}
		return f, err
	}
}

// unrotateFn rewrites the loops of one function body; a function literal below it is
// a body of its own.
func unrotateFn(body *ast.BlockStmt, typ *ast.FuncType) {
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			unrotateFn(x.Body, x.Type)
			return false
		case *ast.BlockStmt:
			x.List = unrotate(x.List, body, typ)
		case *ast.CaseClause:
			x.Body = unrotate(x.Body, body, typ)
		case *ast.CommClause:
			x.Body = unrotate(x.Body, body, typ)
		}
		return true
	})
}

func stepText(s ast.Stmt) (string, []string, bool) {
	as, ok := s.(*ast.AssignStmt)
	if !ok || as.Tok != token.ASSIGN && as.Tok != token.DEFINE {
		return "", nil, false
	}
	call := false
	for _, r := range as.Rhs {
		ast.Inspect(r, func(n ast.Node) bool {
			if _, ok := n.(*ast.CallExpr); ok {
				call = true
			}
			return true
		})
	}
	if !call {
		return "", nil, false
	}
	var names []string
	for _, l := range as.Lhs {
		id, ok := l.(*ast.Ident)
		if !ok {
			return "", nil, false
		}
		if id.Name != "_" {
			names = append(names, id.Name)
		}
	}
	cp := *as
	cp.Tok = token.ASSIGN
	var b bytes.Buffer
	if printer.Fprint(&b, token.NewFileSet(), &cp) != nil {
		return "", nil, false
	}
	return strings.Join(strings.Fields(b.String()), " "), names, true
}

func isDefine(s ast.Stmt) bool { as, ok := s.(*ast.AssignStmt); return ok && as.Tok == token.DEFINE }

// mentions: does any of the names occur below n (in a function literal only, if lits).
func mentions(n ast.Node, names []string, lits bool, keep func(*ast.Ident) bool) bool {
	found := false
	var visit func(n ast.Node, in bool)
	visit = func(n ast.Node, in bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if fl, ok := m.(*ast.FuncLit); ok && !in {
				visit(fl.Body, true)
				return false
			}
			if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.AND && lits {
				if id, ok := u.X.(*ast.Ident); ok && containsStr(names, id.Name) {
					found = true
				}
			}
			if id, ok := m.(*ast.Ident); ok && (in || !lits) && containsStr(names, id.Name) && keep(id) {
				found = true
			}
			return true
		})
	}
	visit(n, false)
	return found
}

func containsStr(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func continues(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.GOTO {
				found = true
			}
		}
		return true
	})
	return found
}

func unrotate(list []ast.Stmt, fd *ast.BlockStmt, typ *ast.FuncType) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		loop, ok := s.(*ast.ForStmt)
		if !ok || loop.Cond == nil {
			out = append(out, s)
			continue
		}
		all := func(*ast.Ident) bool { return true }
		exit := &ast.IfStmt{If: loop.Cond.Pos(), Cond: &ast.UnaryExpr{OpPos: loop.Cond.Pos(), Op: token.NOT, X: &ast.ParenExpr{Lparen: loop.Cond.Pos(), X: loop.Cond, Rparen: loop.Cond.End()}},
			Body: &ast.BlockStmt{Lbrace: loop.Cond.End(), List: []ast.Stmt{&ast.BranchStmt{TokPos: loop.Cond.End(), Tok: token.BREAK}}, Rbrace: loop.Cond.End()}}
		if loop.Init != nil && loop.Post != nil {
			a, names, ok1 := stepText(loop.Init)
			b, _, ok2 := stepText(loop.Post)
			if ok1 && ok2 && a == b && !mentions(loop, names, true, all) {
				body := &ast.BlockStmt{Lbrace: loop.Body.Lbrace, Rbrace: loop.Body.Rbrace, List: append([]ast.Stmt{loop.Init, exit}, loop.Body.List...)}
				out = append(out, &ast.ForStmt{For: loop.For, Body: body})
				continue
			}
		}
		if n := len(loop.Body.List); loop.Init == nil && loop.Post == nil && n > 0 && len(out) > 0 && !continues(loop.Body) {
			first, last := out[len(out)-1], loop.Body.List[n-1]
			a, names, ok1 := stepText(first)
			b, _, ok2 := stepText(last)
			after := func(id *ast.Ident) bool { return id.Pos() > loop.End() }
			def := isDefine(first)
			if ok1 && ok2 && a == b && !isDefine(last) && !mentions(fd, names, true, all) && !(def && mentions(fd, names, false, after)) && !shadows(loop.Body.List[:n-1], last) {
				if def && (mentions(typ, names, false, all) || mentions(fd, names, false, func(id *ast.Ident) bool { return id.Pos() < first.Pos() })) {
					out = append(out, s)
					continue
				}
				body := &ast.BlockStmt{Lbrace: loop.Body.Lbrace, Rbrace: loop.Body.Rbrace, List: append([]ast.Stmt{first, exit}, loop.Body.List[:n-1]...)}
				out[len(out)-1] = &ast.ForStmt{For: loop.For, Body: body}
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// shadows: a name the step mentions is declared anew in the body before it.
func shadows(list []ast.Stmt, step ast.Stmt) bool {
	var names []string
	for _, s := range list {
		switch x := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if isDefine(x) {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						names = append(names, id.Name)
					}
				}
			}
		}
	}
	return mentions(step, names, false, func(*ast.Ident) bool { return true })
}
