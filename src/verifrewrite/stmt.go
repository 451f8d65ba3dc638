package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

func (rw *rewriter) yieldStmt(pos token.Pos) ast.Stmt {
	rw.stats["yields"]++
	return &ast.ExprStmt{X: simCall("Y", rw.site(pos))}
}

func (rw *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = rw.stmtList(b.List)
}

func (rw *rewriter) stmtList(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.BlockStmt:
		case *ast.DeclStmt:
		default:
			out = append(out, rw.yieldStmt(s.Pos()))
		}
		out = append(out, rw.stmt(s, false))
	}
	return out
}

func (rw *rewriter) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch sp := sp.(type) {
		case *ast.ValueSpec:
			if d.Tok == token.CONST {
				continue
			}
			rw.typeExpr(sp.Type)
			if len(sp.Names) == 2 && len(sp.Values) == 1 {
				if r := rw.recv2(sp.Values[0]); r != nil {
					sp.Values[0] = r
					continue
				}
			}
			rw.exprs(sp.Values)
		case *ast.TypeSpec:
			rw.typeExpr(sp.Type)
		}
	}
}

func (rw *rewriter) recv2(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		rw.stats["chanops"]++
		return simCall("Recv2", rw.rvalue(u.X))
	}
	return nil
}

func (rw *rewriter) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	x, ok := e.(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = under(rw.typeOf(x.X)).(*types.Map)
	return x, ok
}

// store rewrites an assignment target for use on the left of =.
func (rw *rewriter) target(e ast.Expr) ast.Expr {
	if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
		return e
	}
	if x, ok := rw.isMapIndex(e); ok {
		pos := x.Pos()
		konst := rw.cur.info.Types[x.Index].Value != nil || rw.cur.info.Types[x.Index].IsNil()
		x.X = rw.rvalue(x.X)
		x.Index = rw.rvalue(x.Index)
		if !konst {
			x.Index = simCall("NK", x.Index)
		}
		if rw.mem() {
			rw.stats["mapops"]++
			x.X = simCall("MW", x.X, rw.site(pos))
		}
		return x
	}
	shared := rw.mem() && rw.sharedLoc(e) && !syncType(rw.typeOf(e))
	pos := e.Pos()
	l := rw.lvalue(e)
	if shared {
		rw.stats["writes"]++
		return &ast.StarExpr{X: simCall("Wr", &ast.UnaryExpr{Op: token.AND, X: l}, rw.site(pos))}
	}
	return l
}

func (rw *rewriter) opAssign(lhs ast.Expr, op token.Token, rhs ast.Expr, simple bool) ast.Stmt {
	asTok := map[token.Token]token.Token{
		token.ADD: token.ADD_ASSIGN, token.SUB: token.SUB_ASSIGN, token.MUL: token.MUL_ASSIGN, token.QUO: token.QUO_ASSIGN,
		token.REM: token.REM_ASSIGN, token.AND: token.AND_ASSIGN, token.OR: token.OR_ASSIGN, token.XOR: token.XOR_ASSIGN,
		token.SHL: token.SHL_ASSIGN, token.SHR: token.SHR_ASSIGN, token.AND_NOT: token.AND_NOT_ASSIGN}[op]
	if _, isMap := rw.isMapIndex(lhs); isMap || simple || !rw.mem() || !rw.sharedLoc(lhs) {
		l := rw.target(lhs)
		return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: asTok, Rhs: []ast.Expr{rw.rvalue(rhs)}}
	}
	pos := lhs.Pos()
	l := rw.lvalue(lhs)
	r := rw.rvalue(rhs)
	rw.stats["reads"]++
	rw.stats["writes"]++
	p, v := ast.NewIdent("verifP"), ast.NewIdent("verifV")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: l}}},
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{
			X: &ast.StarExpr{X: simCall("Rd", p, rw.site(pos))}, Op: op, Y: &ast.ParenExpr{X: r}}}},
		&ast.ExprStmt{X: &ast.CallExpr{Fun: simCall("St", p, rw.site(pos)), Args: []ast.Expr{v}}},
	}}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (rw *rewriter) assign(s *ast.AssignStmt, simple bool) ast.Stmt {
	info := rw.cur.info
	switch s.Tok {
	case token.DEFINE:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if r := rw.recv2(s.Rhs[0]); r != nil {
				s.Rhs[0] = r
				return s
			}
		}
		rw.exprs(s.Rhs)
		return s
	case token.ASSIGN:
		if len(s.Lhs) == 1 {
			lhs := s.Lhs[0]
			if id, ok := lhs.(*ast.Ident); ok && id.Name == "_" {
				s.Rhs[0] = rw.rvalue(s.Rhs[0])
				return s
			}
			if _, isMap := rw.isMapIndex(lhs); isMap {
				rhs := s.Rhs[0]
				if hasCall(rhs) && !simple {
					// evaluate the value first, so that the write is one step
					t := info.TypeOf(rhs)
					if b, ok := t.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
						v := ast.NewIdent("verifV")
						r := rw.rvalue(rhs)
						l := rw.target(lhs)
						return &ast.BlockStmt{List: []ast.Stmt{
							&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{r}},
							&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
						}}
					}
				}
				s.Lhs[0] = rw.target(lhs)
				s.Rhs[0] = rw.rvalue(rhs)
				return s
			}
			if rw.mem() && rw.sharedLoc(lhs) && !syncType(info.TypeOf(lhs)) {
				pos := lhs.Pos()
				rw.stats["writes"]++
				l := rw.lvalue(lhs)
				r := rw.rvalue(s.Rhs[0])
				return &ast.ExprStmt{X: &ast.CallExpr{
					Fun:  simCall("St", &ast.UnaryExpr{Op: token.AND, X: l}, rw.site(pos)),
					Args: []ast.Expr{r}}}
			}
			s.Lhs[0] = rw.lvalue(lhs)
			s.Rhs[0] = rw.rvalue(s.Rhs[0])
			return s
		}
		// tuple
		if len(s.Rhs) == 1 {
			r := rw.recv2(s.Rhs[0])
			if r == nil {
				r = rw.rvalue(s.Rhs[0])
			}
			if simple {
				for i := range s.Lhs {
					s.Lhs[i] = rw.target(s.Lhs[i])
				}
				s.Rhs[0] = r
				return s
			}
			// results first, then one store per target
			var tmp []ast.Expr
			b := &ast.BlockStmt{}
			var stores []ast.Stmt
			for i, l := range s.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					tmp = append(tmp, l)
					continue
				}
				v := ast.NewIdent(fmt.Sprintf("verifT%d", i))
				tmp = append(tmp, v)
				stores = append(stores, &ast.AssignStmt{Lhs: []ast.Expr{rw.target(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
			if len(stores) == 0 {
				s.Rhs[0] = r
				return s
			}
			b.List = append(b.List, &ast.AssignStmt{Lhs: tmp, Tok: token.DEFINE, Rhs: []ast.Expr{r}})
			b.List = append(b.List, stores...)
			return b
		}
		for i := range s.Lhs {
			s.Lhs[i] = rw.target(s.Lhs[i])
		}
		rw.exprs(s.Rhs)
		return s
	}
	// op=
	ops := map[token.Token]token.Token{
		token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
		token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
		token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
	return rw.opAssign(s.Lhs[0], ops[s.Tok], s.Rhs[0], simple)
}

func (rw *rewriter) stmt(s ast.Stmt, simple bool) ast.Stmt {
	info := rw.cur.info
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = rw.rvalue(x.X)
		return x
	case *ast.AssignStmt:
		return rw.assign(x, simple)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		one := &ast.BasicLit{Kind: token.INT, Value: "1"}
		info.Types[one] = types.TypeAndValue{}
		return rw.opAssign(x.X, op, one, simple)
	case *ast.SendStmt:
		rw.stats["chanops"]++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: simCall("Send", rw.rvalue(x.Chan)), Args: []ast.Expr{rw.rvalue(x.Value)}}}
	case *ast.GoStmt:
		return rw.goStmt(x)
	case *ast.DeferStmt:
		if c, ok := rw.rvalue(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return x
	case *ast.ReturnStmt:
		rw.exprs(x.Results)
		return x
	case *ast.BlockStmt:
		rw.block(x)
		return x
	case *ast.IfStmt:
		x.Init = rw.stmt(x.Init, true)
		x.Cond = rw.rvalue(x.Cond)
		rw.block(x.Body)
		x.Else = rw.stmt(x.Else, false)
		return x
	case *ast.ForStmt:
		x.Init = rw.stmt(x.Init, true)
		x.Cond = rw.rvalue(x.Cond)
		x.Post = rw.stmt(x.Post, true)
		rw.block(x.Body)
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{rw.yieldStmt(x.Pos())}
		}
		return x
	case *ast.SwitchStmt:
		x.Init = rw.stmt(x.Init, true)
		x.Tag = rw.rvalue(x.Tag)
		rw.clauses(x.Body)
		return x
	case *ast.TypeSwitchStmt:
		x.Init = rw.stmt(x.Init, true)
		var ta *ast.TypeAssertExpr
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta = a.X.(*ast.TypeAssertExpr)
		case *ast.AssignStmt:
			ta = a.Rhs[0].(*ast.TypeAssertExpr)
		}
		ta.X = rw.rvalue(ta.X)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				rw.typeExpr(e)
			}
			cc.Body = rw.stmtList(cc.Body)
		}
		return x
	case *ast.RangeStmt:
		return rw.rangeStmt(x)
	case *ast.SelectStmt:
		return rw.selectStmt(x)
	case *ast.LabeledStmt:
		x.Stmt = rw.stmt(x.Stmt, false)
		return x
	case *ast.DeclStmt:
		rw.genDecl(x.Decl.(*ast.GenDecl))
		return x
	}
	return s
}

func (rw *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		rw.exprs(cc.List)
		cc.Body = rw.stmtList(cc.Body)
	}
}

func (rw *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	rw.stats["gostmts"]++
	info := rw.cur.info
	call := x.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: simCall("Go", rw.rvalue(lit))}
	}
	b := &ast.BlockStmt{}
	hoist := func(e ast.Expr) ast.Expr {
		v := ast.NewIdent(fmt.Sprintf("verifA%d", len(b.List)))
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return v
	}
	direct := info.Types[call.Fun].IsBuiltin()
	multi := false
	if len(call.Args) == 1 {
		_, multi = rw.typeOf(call.Args[0]).(*types.Tuple)
	}
	if direct || multi {
		e := rw.rvalue(call)
		return &ast.ExprStmt{X: simCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	named := false
	switch f := call.Fun.(type) {
	case *ast.Ident:
		_, named = info.Uses[f].(*types.Func)
	case *ast.IndexExpr, *ast.IndexListExpr:
		named = true
	case *ast.SelectorExpr:
		if rw.pkgOf(f.X) != "" {
			named = true
		}
	}
	konst := make([]bool, len(call.Args))
	for i, a := range call.Args {
		tv := info.Types[a]
		konst[i] = tv.Value != nil || tv.IsNil()
	}
	fun := call.Fun
	if !named {
		fun = hoist(rw.rvalue(fun))
	} else if s, ok := fun.(*ast.SelectorExpr); ok {
		rw.seamSel(s)
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		if konst[i] {
			args[i] = a
		} else {
			args[i] = hoist(rw.rvalue(a))
		}
	}
	c := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	b.List = append(b.List, &ast.ExprStmt{X: simCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})})
	return b
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (rw *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := rw.typeOf(x.X)
	pos := x.Pos()
	if !hasTypeParam(t) {
		switch under(t).(type) {
		case *types.Map:
			rw.stats["mapranges"]++
			m := rw.rvalue(x.X)
			ent := ast.NewIdent("verifE")
			ok := ast.NewIdent("verifOK")
			var pre []ast.Stmt
			val := x.Value
			if isBlank(val) {
				val = nil
			}
			get := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ent, Sel: ast.NewIdent("Get")}}
			cont := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
			tmp := ast.NewIdent("verifX")
			if val == nil {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{get}}, cont)
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{tmp, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{get}}, cont,
					&ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: x.Tok, Rhs: []ast.Expr{tmp}})
			}
			if !isBlank(x.Key) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: ent, Sel: ast.NewIdent("K")}}})
			}
			rw.block(x.Body)
			inner := &ast.BlockStmt{List: x.Body.List}
			return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ent, Tok: token.DEFINE,
				X: simCall("Entries", m, rw.site(pos)), Body: &ast.BlockStmt{List: append(pre, inner)}}
		case *types.Chan:
			rw.stats["chanops"]++
			ch := rw.rvalue(x.X)
			_ = ch
			v, ok := ast.NewIdent("verifX"), ast.NewIdent("verifOK")
			c := ast.NewIdent("verifC")
			var lhs ast.Expr = v
			if isBlank(x.Key) {
				lhs = ast.NewIdent("_")
			}
			pre := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{lhs, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{simCall("Recv2", c)}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			}
			if !isBlank(x.Key) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
			}
			rw.block(x.Body)
			inner := &ast.BlockStmt{List: x.Body.List}
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
				Body: &ast.BlockStmt{List: append(pre, inner)}}
		case *types.Slice:
			x.X = rw.rvalue(x.X)
			if rw.mem() && !isBlank(x.Value) {
				x.X = simCall("RS", x.X, rw.site(pos))
			}
			rw.block(x.Body)
			return x
		case *types.Array:
			if rw.cur.info.Types[x.X].Addressable() {
				x.X = rw.lvalue(x.X)
			} else {
				x.X = rw.rvalue(x.X)
			}
			rw.block(x.Body)
			return x
		}
	}
	x.X = rw.rvalue(x.X)
	rw.block(x.Body)
	return x
}

func (rw *rewriter) selectStmt(x *ast.SelectStmt) ast.Stmt {
	rw.stats["selects"]++
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{simCall("BlockForever")}}}
	}
	var names, vals []ast.Expr
	hasDefault := false
	var clauses []ast.Stmt
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: rw.stmtList(cc.Body)})
			continue
		}
		i := len(names)
		v := ast.NewIdent(fmt.Sprintf("verifC%d", i))
		names = append(names, v)
		var pre []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, &ast.CallExpr{Fun: simCall("S", rw.rvalue(s.Chan)), Args: []ast.Expr{rw.rvalue(s.Value)}})
		case *ast.ExprStmt:
			vals = append(vals, simCall("R", rw.rvalue(unparen(s.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			vals = append(vals, simCall("R", rw.rvalue(unparen(s.Rhs[0]).(*ast.UnaryExpr).X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: v, Sel: ast.NewIdent("V")}}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: v, Sel: ast.NewIdent("OK")})
			}
			lhs := s.Lhs
			if s.Tok == token.ASSIGN {
				for j := range lhs {
					lhs[j] = rw.target(lhs[j])
				}
			}
			allBlank := true
			for _, l := range lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			tok := s.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
		}
		body := append(pre, rw.stmtList(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}}, Body: body})
	}
	if !hasDefault {
		// the last clause becomes the default, so that the statement is
		// terminating exactly when the select was
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = simCall("Select", append([]ast.Expr{ast.NewIdent(d)}, names...)...)
	return sw
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
