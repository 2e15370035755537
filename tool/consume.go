package main

import (
	"fmt"
	"go/ast"
	"go/token"
)

// A loop that takes the elements off a slice of its own,
//
//	for len(s) > 0 { B(s[0]); s = s[1:] }
//
// is read as the loop over the indices of s that it is. As with the rotated loops
// (rotate.go) the rewriting happens on the syntax tree and only where it cannot
// change what the loop does: s is a variable of the function that nothing else in
// the loop, nothing after it and no function literal mentions.

func consumeFns(body *ast.BlockStmt, typ *ast.FuncType) {
	consumeFn(body, typ)
	ast.Inspect(body, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			consumeFns(fl.Body, fl.Type)
			return false
		}
		return true
	})
}

func consumeFn(body *ast.BlockStmt, typ *ast.FuncType) {
	seq := 0
	var stmts func(list []ast.Stmt, nested bool) []ast.Stmt
	var visit func(n ast.Node, nested bool)
	visit = func(n ast.Node, nested bool) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				if !nested {
					visit(x.Body, true)
					return false
				}
			case *ast.RangeStmt:
				if !nested {
					visit(x.Body, true)
					return false
				}
			case *ast.BlockStmt:
				x.List = stmts(x.List, nested)
			case *ast.CaseClause:
				x.Body = stmts(x.Body, nested)
			}
			return true
		})
	}
	stmts = func(list []ast.Stmt, nested bool) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			loop, ok := s.(*ast.ForStmt)
			if !ok {
				out = append(out, s)
				continue
			}
			pre, l := consumed(loop, body, typ, nested, seq)
			if l != nil {
				seq++
				out = append(out, pre...)
				out = append(out, l)
				continue
			}
			out = append(out, s)
		}
		return out
	}
	visit(body, false)
}

func consumed(loop *ast.ForStmt, fd *ast.BlockStmt, typ *ast.FuncType, nested bool, seq int) (pre []ast.Stmt, l *ast.ForStmt) {
	name := hasElements(loop.Cond)
	if name == "" {
		return nil, nil
	}
	names := []string{name}
	outside := func(id *ast.Ident) bool { return id.Pos() < loop.Pos() || id.Pos() >= loop.End() }
	own := false // a variable of the loop itself
	if loop.Init != nil {
		as, ok := loop.Init.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return nil, nil
		}
		if id, ok := as.Lhs[0].(*ast.Ident); !ok || id.Name != name {
			return nil, nil
		}
		if mentions(as.Rhs[0], names, false, func(*ast.Ident) bool { return true }) {
			return nil, nil
		}
		own = true
	}
	if mentions(fd, names, true, func(*ast.Ident) bool { return true }) {
		return nil, nil
	}
	if own {
		if mentions(fd, names, false, outside) || mentions(typ, names, false, func(*ast.Ident) bool { return true }) {
			return nil, nil
		}
	} else {
		if nested || mentions(fd, names, false, func(id *ast.Ident) bool { return id.Pos() >= loop.End() }) || !declares(fd, typ, name) {
			return nil, nil
		}
	}
	// the step: after the statement, last, or first but for the statement that reads the element
	list := loop.Body.List
	step := -1
	if loop.Post != nil {
		if !isTailStep(loop.Post, name) {
			return nil, nil
		}
	} else {
		for i, s := range list {
			if isTailStep(s, name) {
				if step >= 0 {
					return nil, nil
				}
				step = i
			}
		}
		if step < 0 {
			return nil, nil
		}
		if step != len(list)-1 || continues(loop.Body) {
			for _, s := range list[step+1:] {
				if mentions(s, names, false, func(*ast.Ident) bool { return true }) {
					return nil, nil
				}
			}
			for _, s := range list[:step] {
				as, ok := s.(*ast.AssignStmt)
				if !ok || as.Tok != token.DEFINE {
					return nil, nil
				}
			}
		}
	}
	// everything else reads the first element
	idx := fmt.Sprintf("index·%d", seq)
	heads := map[*ast.Ident]*ast.IndexExpr{}
	bad := false
	var body []ast.Stmt
	for i, s := range list {
		if i == step {
			continue
		}
		body = append(body, s)
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IndexExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Name == name {
					if k, ok := x.Index.(*ast.BasicLit); ok && k.Value == "0" {
						heads[id] = x
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if mentions(l, names, false, func(*ast.Ident) bool { return true }) {
						bad = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && mentions(x.X, names, false, func(*ast.Ident) bool { return true }) {
					bad = true
				}
			case *ast.BranchStmt:
				if x.Tok == token.GOTO || x.Label != nil {
					bad = true
				}
			}
			return true
		})
		if mentions(s, names, false, func(id *ast.Ident) bool { return heads[id] == nil }) {
			bad = true
		}
	}
	if bad {
		return nil, nil
	}
	for _, x := range heads {
		x.Index = &ast.Ident{NamePos: x.Index.Pos(), Name: idx}
	}
	at := loop.Cond.Pos()
	id := func() *ast.Ident { return &ast.Ident{NamePos: at, Name: idx} }
	if own {
		pre = append(pre, loop.Init)
	}
	return pre, &ast.ForStmt{
		For:  loop.For,
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id()}, TokPos: at, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{ValuePos: at, Kind: token.INT, Value: "0"}}},
		Cond: &ast.BinaryExpr{X: id(), OpPos: at, Op: token.LSS, Y: &ast.CallExpr{Fun: &ast.Ident{NamePos: at, Name: "len"}, Lparen: at, Args: []ast.Expr{&ast.Ident{NamePos: at, Name: name}}, Rparen: at}},
		Post: &ast.IncDecStmt{X: id(), TokPos: at, Tok: token.INC},
		Body: &ast.BlockStmt{Lbrace: loop.Body.Lbrace, List: body, Rbrace: loop.Body.Rbrace},
	}
}

// hasElements: the condition that the named slice has elements.
func hasElements(c ast.Expr) string {
	b, ok := c.(*ast.BinaryExpr)
	if !ok {
		return ""
	}
	lenOf := func(e ast.Expr) string {
		call, ok := e.(*ast.CallExpr)
		if !ok || len(call.Args) != 1 {
			return ""
		}
		if f, ok := call.Fun.(*ast.Ident); !ok || f.Name != "len" {
			return ""
		}
		if id, ok := call.Args[0].(*ast.Ident); ok {
			return id.Name
		}
		return ""
	}
	lit := func(e ast.Expr, v string) bool {
		k, ok := e.(*ast.BasicLit)
		return ok && k.Value == v
	}
	switch {
	case b.Op == token.GTR && lit(b.Y, "0"), b.Op == token.NEQ && lit(b.Y, "0"), b.Op == token.GEQ && lit(b.Y, "1"):
		return lenOf(b.X)
	case b.Op == token.LSS && lit(b.X, "0"), b.Op == token.NEQ && lit(b.X, "0"), b.Op == token.LEQ && lit(b.X, "1"):
		return lenOf(b.Y)
	}
	return ""
}

// isTailStep: name = name[1:]
func isTailStep(s ast.Stmt, name string) bool {
	as, ok := s.(*ast.AssignStmt)
	if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
		return false
	}
	if id, ok := as.Lhs[0].(*ast.Ident); !ok || id.Name != name {
		return false
	}
	sl, ok := as.Rhs[0].(*ast.SliceExpr)
	if !ok || sl.High != nil || sl.Max != nil || sl.Low == nil {
		return false
	}
	if id, ok := sl.X.(*ast.Ident); !ok || id.Name != name {
		return false
	}
	k, ok := sl.Low.(*ast.BasicLit)
	return ok && k.Value == "1"
}

// declares: name is a parameter (but no result) or declared in the body, once.
func declares(fd *ast.BlockStmt, typ *ast.FuncType, name string) bool {
	n := 0
	if typ.Params != nil {
		for _, f := range typ.Params.List {
			for _, id := range f.Names {
				if id.Name == name {
					n++
				}
			}
		}
	}
	if typ.Results != nil {
		for _, f := range typ.Results.List {
			for _, id := range f.Names {
				if id.Name == name {
					return false
				}
			}
		}
	}
	ast.Inspect(fd, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == name {
						n++
					}
				}
			}
		case *ast.ValueSpec:
			for _, id := range x.Names {
				if id.Name == name {
					n++
				}
			}
		}
		return true
	})
	return n >= 1
}
