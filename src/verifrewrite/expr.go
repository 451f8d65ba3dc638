package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func (rw *rewriter) mem() bool { return rw.level == 0 }

func (rw *rewriter) read(loc ast.Expr, pos token.Pos) ast.Expr {
	rw.stats["reads"]++
	return &ast.ParenExpr{X: &ast.StarExpr{X: simCall("Rd", &ast.UnaryExpr{Op: token.AND, X: loc}, rw.site(pos))}}
}

func (rw *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = rw.rvalue(l[i])
	}
}

func (rw *rewriter) pkgOf(x ast.Expr) string {
	id, ok := x.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := rw.cur.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

// seamSel replaces a qualified identifier that reaches the outside world.
func (rw *rewriter) seamSel(x *ast.SelectorExpr) bool {
	p := rw.pkgOf(x.X)
	if p == "" {
		return false
	}
	if n := rw.seam(p, x.Sel.Name); n != "" {
		rw.stats["seams"]++
		x.X = ast.NewIdent(simName)
		x.Sel = ast.NewIdent(n)
	}
	return true
}

// typeExpr rewrites seams inside a type expression.
func (rw *rewriter) typeExpr(e ast.Expr) {
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			rw.seamSel(s)
			return false
		}
		return true
	})
}

func (rw *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		rw.typeExpr(f.Type)
	}
}

// rvalue rewrites an expression whose value is used.
func (rw *rewriter) rvalue(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	info := rw.cur.info
	tv, known := info.Types[e]
	if known && tv.IsType() {
		rw.typeExpr(e)
		return e
	}
	if known && (tv.IsBuiltin() || tv.Value != nil || tv.IsNil()) {
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if rw.mem() && rw.sharedLoc(x) && !syncType(rw.typeOf(x)) {
			return rw.read(x, x.Pos())
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = rw.rvalue(x.X)
		return x
	case *ast.FuncLit:
		rw.fieldList(x.Type.Params)
		rw.fieldList(x.Type.Results)
		rw.block(x.Body)
		return x
	case *ast.CompositeLit:
		rw.composite(x)
		return x
	case *ast.SelectorExpr:
		if rw.seamSel(x) {
			return x
		}
		s := info.Selections[x]
		if s == nil {
			return x
		}
		switch s.Kind() {
		case types.FieldVal:
			shared := rw.mem() && rw.sharedLoc(x) && known && !syncType(tv.Type) && tv.Addressable()
			if shared {
				pos := x.Sel.Pos()
				return rw.read(rw.lvalue(x), pos)
			}
			if known && tv.Addressable() {
				return rw.lvalue(x)
			}
			x.X = rw.rvalue(x.X)
			return x
		case types.MethodVal:
			rw.receiver(x, s)
			return x
		}
		return x
	case *ast.IndexExpr:
		if info.Types[x.Index].IsType() {
			rw.typeExpr(x.Index)
			return x // instantiation
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, inst := info.Instances[id]; inst {
				return x
			}
		}
		t := rw.typeOf(x.X)
		if hasTypeParam(t) {
			x.X, x.Index = rw.rvalue(x.X), rw.rvalue(x.Index)
			return x
		}
		switch under(t).(type) {
		case *types.Map:
			pos := x.Pos()
			x.X, x.Index = rw.rvalue(x.X), rw.rvalue(x.Index)
			if rw.mem() {
				rw.stats["mapops"]++
				x.X = simCall("MR", x.X, rw.site(pos))
			}
			return x
		case *types.Slice, *types.Pointer, *types.Array:
			if tv.Addressable() {
				shared := rw.mem() && rw.sharedLoc(x) && !syncType(tv.Type)
				pos := x.Pos()
				l := rw.lvalue(x)
				if shared {
					return rw.read(l, pos)
				}
				return l
			}
			x.X, x.Index = rw.rvalue(x.X), rw.rvalue(x.Index)
			return x
		}
		x.X, x.Index = rw.rvalue(x.X), rw.rvalue(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		if _, ok := under(rw.typeOf(x.X)).(*types.Array); ok {
			x.X = rw.lvalue(x.X)
		} else {
			x.X = rw.rvalue(x.X)
		}
		x.Low, x.High, x.Max = rw.rvalue(x.Low), rw.rvalue(x.High), rw.rvalue(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = rw.rvalue(x.X)
		rw.typeExpr(x.Type)
		return x
	case *ast.StarExpr:
		pos := x.Pos()
		sync := syncType(rw.typeOf(x))
		x.X = rw.rvalue(x.X)
		if rw.mem() && !sync {
			rw.stats["reads"]++
			return &ast.ParenExpr{X: &ast.StarExpr{X: simCall("Rd", x.X, rw.site(pos))}}
		}
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = rw.lvalue(x.X)
			return x
		case token.ARROW:
			rw.stats["chanops"]++
			return simCall("Recv", rw.rvalue(x.X))
		}
		x.X = rw.rvalue(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = rw.rvalue(x.X), rw.rvalue(x.Y)
		return x
	case *ast.CallExpr:
		return rw.call(x)
	case *ast.KeyValueExpr:
		x.Key, x.Value = rw.rvalue(x.Key), rw.rvalue(x.Value)
		return x
	}
	return e
}

func (rw *rewriter) composite(x *ast.CompositeLit) {
	t := under(rw.typeOf(x))
	rw.typeExpr(x.Type)
	if p, ok := t.(*types.Pointer); ok { // elided &T
		t = under(p.Elem())
	}
	_, isStruct := t.(*types.Struct)
	_, isMap := t.(*types.Map)
	for i, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if isMap {
				kv.Key = rw.rvalue(kv.Key)
			}
			kv.Value = rw.rvalue(kv.Value)
			_ = isStruct
			continue
		}
		x.Elts[i] = rw.rvalue(el)
	}
}

// receiver rewrites the receiver of a method value or call in place.
func (rw *rewriter) receiver(x *ast.SelectorExpr, s *types.Selection) {
	info := rw.cur.info
	tv := info.Types[x.X]
	if tv.IsType() {
		return
	}
	t := tv.Type
	if isPointer(t) || types.IsInterface(t) || !tv.Addressable() {
		x.X = rw.rvalue(x.X)
		return
	}
	ptrRecv := true
	if fn, ok := s.Obj().(*types.Func); ok {
		if r := fn.Type().(*types.Signature).Recv(); r != nil {
			_, ptrRecv = r.Type().(*types.Pointer)
		}
	}
	if !ptrRecv && len(s.Index()) == 1 {
		x.X = rw.rvalue(x.X)
		return
	}
	x.X = rw.lvalue(x.X)
}

// lvalue rewrites an expression that denotes a location, keeping it
// addressable and not recording an access to the location itself.
func (rw *rewriter) lvalue(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = rw.lvalue(x.X)
		return x
	case *ast.SelectorExpr:
		if rw.pkgOf(x.X) != "" {
			rw.seamSel(x)
			return x
		}
		s := rw.cur.info.Selections[x]
		if s == nil {
			return x
		}
		if isPointer(rw.typeOf(x.X)) || !rw.cur.info.Types[x.X].Addressable() {
			x.X = rw.rvalue(x.X)
		} else {
			x.X = rw.lvalue(x.X)
		}
		return x
	case *ast.IndexExpr:
		switch under(rw.typeOf(x.X)).(type) {
		case *types.Array:
			x.X, x.Index = rw.lvalue(x.X), rw.rvalue(x.Index)
			return x
		case *types.Slice, *types.Pointer:
			x.X, x.Index = rw.rvalue(x.X), rw.rvalue(x.Index)
			return x
		}
		return rw.rvalue(x)
	case *ast.StarExpr:
		x.X = rw.rvalue(x.X)
		return x
	}
	return rw.rvalue(e)
}

func (rw *rewriter) call(x *ast.CallExpr) ast.Expr {
	info := rw.cur.info
	ft := info.Types[x.Fun]
	if ft.IsType() { // conversion
		rw.typeExpr(x.Fun)
		var from, to types.Type
		if len(x.Args) == 1 {
			from, to = rw.typeOf(x.Args[0]), ft.Type
		}
		rw.exprs(x.Args)
		if rw.mem() && from != nil && isSlice(from) && to != nil {
			if b, ok := under(to).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				x.Args[0] = simCall("RS", x.Args[0], rw.site(x.Pos()))
			}
		}
		return x
	}
	if ft.IsBuiltin() {
		name := ""
		fun := x.Fun
		for {
			if p, ok := fun.(*ast.ParenExpr); ok {
				fun = p.X
				continue
			}
			break
		}
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			return x // unsafe.*
		}
		switch name {
		case "make":
			_, isChan := under(rw.typeOf(x)).(*types.Chan)
			rw.typeExpr(x.Args[0])
			rw.exprs(x.Args[1:])
			if isChan {
				rw.stats["chanops"]++
				if ch, ok := under(info.Types[x.Args[0]].Type).(*types.Chan); ok && ch.Dir() == types.SendRecv {
					return simCall("MkChan", x)
				}
			}
			return x
		case "new":
			rw.typeExpr(x.Args[0])
			return x
		case "close":
			rw.stats["chanops"]++
			return simCall("Close", rw.rvalue(x.Args[0]))
		case "len":
			switch under(rw.typeOf(x.Args[0])).(type) {
			case *types.Chan:
				return simCall("ChLen", rw.rvalue(x.Args[0]))
			case *types.Map:
				pos := x.Pos()
				x.Args[0] = rw.rvalue(x.Args[0])
				if rw.mem() {
					x.Args[0] = simCall("MR", x.Args[0], rw.site(pos))
				}
				return x
			}
		case "append":
			pos := x.Pos()
			if rw.mem() && len(x.Args) > 1 && isSlice(rw.typeOf(x.Args[0])) && !info.Types[x.Args[0]].IsNil() {
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(x.Args) - 1)}
				if x.Ellipsis.IsValid() {
					n = &ast.BasicLit{Kind: token.INT, Value: "1"}
				}
				rw.exprs(x.Args)
				rw.stats["appends"]++
				x.Args[0] = simCall("AP", x.Args[0], n, rw.site(pos))
				return x
			}
		case "copy":
			pos := x.Pos()
			if rw.mem() && isSlice(rw.typeOf(x.Args[0])) {
				src := isSlice(rw.typeOf(x.Args[1]))
				rw.exprs(x.Args)
				x.Args[0] = simCall("WS", x.Args[0], rw.site(pos))
				if src {
					x.Args[1] = simCall("RS", x.Args[1], rw.site(pos))
				}
				return x
			}
		case "delete", "clear":
			if _, ok := under(rw.typeOf(x.Args[0])).(*types.Map); ok {
				pos := x.Pos()
				rw.exprs(x.Args)
				if rw.mem() {
					rw.stats["mapops"]++
					x.Args[0] = simCall("MW", x.Args[0], rw.site(pos))
				}
				return x
			}
		}
		rw.exprs(x.Args)
		return x
	}
	switch f := x.Fun.(type) {
	case *ast.Ident:
		if _, ok := info.Uses[f].(*types.Var); ok {
			x.Fun = rw.rvalue(f)
		}
	default:
		x.Fun = rw.rvalue(x.Fun)
	}
	if f, ok := x.Fun.(*ast.SelectorExpr); ok && strings.HasPrefix(f.Sel.Name, "Fatal") {
		if m, ok := info.Uses[f.Sel].(*types.Func); ok && strings.HasPrefix(m.FullName(), "(*log.Logger).Fatal") {
			rw.exprs(x.Args)
			rw.stats["seams"]++
			args := append([]ast.Expr{f.X}, x.Args...)
			return &ast.CallExpr{Fun: simSel("Logger" + f.Sel.Name), Args: args, Ellipsis: x.Ellipsis}
		}
	}
	bytesOut := false
	if f, ok := x.Fun.(*ast.SelectorExpr); ok && rw.mem() && f.Sel.Name == "Write" && len(x.Args) == 1 {
		bytesOut = isSlice(rw.typeOf(x.Args[0]))
	}
	rw.exprs(x.Args)
	if bytesOut {
		x.Args[0] = simCall("RS", x.Args[0], rw.site(x.Pos()))
	}
	return x
}

// isSlice reports a slice type that is no type parameter.
func isSlice(t types.Type) bool {
	if t == nil || hasTypeParam(t) {
		return false
	}
	_, ok := under(t).(*types.Slice)
	return ok
}
