package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// rw rewrites one file.
type rw struct {
	p        *pkgSpec
	f        *ast.File
	race     bool
	shimUsed map[string]bool // shim import paths used
	pkgUsed  map[*types.PkgName]bool
	captured map[*types.Var]bool
	tmp      int
}

func alias(path string) string {
	return strings.NewReplacer("/", "_", ".", "_").Replace(strings.TrimPrefix(path, "verif/")) + "__"
}

const vs = "verif/vsched"

func (w *rw) shim(path, name string) ast.Expr {
	w.shimUsed[path] = true
	return &ast.SelectorExpr{X: ast.NewIdent(alias(path)), Sel: ast.NewIdent(name)}
}

func (w *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: w.shim(vs, name), Args: args}
}

func (w *rw) temp() *ast.Ident {
	w.tmp++
	return ast.NewIdent(fmt.Sprintf("vt%d__", w.tmp))
}

func (w *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.p.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.objOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (w *rw) objOf(id *ast.Ident) types.Object {
	if o := w.p.info.Uses[id]; o != nil {
		return o
	}
	return w.p.info.Defs[id]
}

func (w *rw) isType(e ast.Expr) bool {
	tv, ok := w.p.info.Types[e]
	return ok && tv.IsType()
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// core returns the underlying type, looking through type parameters with a
// core type.
func isChan(t types.Type) bool {
	_, ok := under(t).(*types.Chan)
	return ok
}

func isMap(t types.Type) (*types.Map, bool) {
	m, ok := under(t).(*types.Map)
	return m, ok
}

func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

// ---- file

func (w *rw) file() {
	w.shimUsed = map[string]bool{}
	w.pkgUsed = map[*types.PkgName]bool{}
	w.findCaptured()
	for _, d := range w.f.Decls {
		w.decl(d)
	}
	// imports
	var decls []ast.Decl
	var specs []ast.Spec
	for _, d := range w.f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var pn *types.PkgName
			if is.Name != nil {
				if is.Name.Name == "_" || is.Name.Name == "." {
					specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(is.Name.Name), Path: lit(is.Path.Value)})
					continue
				}
				pn, _ = w.p.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = w.p.info.Implicits[is].(*types.PkgName)
			}
			if pn != nil && !w.pkgUsed[pn] {
				continue
			}
			ns := &ast.ImportSpec{Path: lit(is.Path.Value)}
			if is.Name != nil {
				ns.Name = ast.NewIdent(is.Name.Name)
			}
			specs = append(specs, ns)
		}
	}
	var paths []string
	for p := range w.shimUsed {
		paths = append(paths, p)
	}
	for i := range paths {
		for j := i + 1; j < len(paths); j++ {
			if paths[j] < paths[i] {
				paths[i], paths[j] = paths[j], paths[i]
			}
		}
	}
	for _, p := range paths {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(alias(p)), Path: lit(strconv.Quote(p))})
	}
	var imp []ast.Decl
	for _, s := range specs {
		imp = append(imp, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	w.f.Decls = append(imp, decls...)
	w.f.Imports = nil
	w.f.Doc = nil
}

func lit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: s} }

// findCaptured finds local variables that are shared with a closure and
// assigned after their declaration.
func (w *rw) findCaptured() {
	w.captured = map[*types.Var]bool{}
	declIn := map[*types.Var]ast.Node{}
	usedOut := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	var stack []ast.Node
	curFunc := func() ast.Node {
		for i := len(stack) - 1; i >= 0; i-- {
			switch stack[i].(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return stack[i]
			}
		}
		return nil
	}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if isPtr(w.typeOf(x.X)) {
					return
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if _, ok := under(w.typeOf(x.X)).(*types.Array); !ok {
					return
				}
				e = x.X
				continue
			}
			break
		}
		if id, ok := e.(*ast.Ident); ok {
			if v, ok := w.p.info.Uses[id].(*types.Var); ok {
				assigned[v] = true
			}
		}
	}
	ast.Inspect(w.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.Ident:
			if v, ok := w.p.info.Defs[x].(*types.Var); ok && !v.IsField() {
				declIn[v] = curFunc()
			}
			if v, ok := w.p.info.Uses[x].(*types.Var); ok && !v.IsField() {
				if d, ok := declIn[v]; ok && d != curFunc() {
					usedOut[v] = true
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					mark(x.Key)
				}
				if x.Value != nil {
					mark(x.Value)
				}
			}
		}
		return true
	})
	for v := range usedOut {
		if assigned[v] {
			w.captured[v] = true
		}
	}
}

func (w *rw) instrumentedPkg(p *types.Package) bool {
	if p == nil {
		return false
	}
	s := specs[p.Path()]
	return s != nil && s.mode == "repo"
}

// needs tells whether e denotes a possibly shared memory location.
func (w *rw) needs(e ast.Expr) bool {
	if !w.race {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.needs(x.X)
	case *ast.Ident:
		v, ok := w.objOf(x).(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return w.instrumentedPkg(v.Pkg())
		}
		return w.captured[v]
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				v, ok := w.p.info.Uses[x.Sel].(*types.Var)
				return ok && w.instrumentedPkg(v.Pkg())
			}
		}
		sel := w.p.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if isPtr(w.typeOf(x.X)) || sel.Indirect() {
			return true
		}
		return w.needs(x.X)
	case *ast.StarExpr:
		return !w.isType(x)
	case *ast.IndexExpr:
		switch t := under(w.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_ = t
			return true
		case *types.Array:
			return w.needs(x.X)
		}
	}
	return false
}

// addr rewrites e as a location without reporting an access to it.
func (w *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = w.addr(x.X)
		return x
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				return w.qualified(x, pn)
			}
		}
		if isPtr(w.typeOf(x.X)) {
			x.X = w.expr(x.X)
		} else {
			x.X = w.addr(x.X)
		}
		return x
	case *ast.StarExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.IndexExpr:
		switch under(w.typeOf(x.X)).(type) {
		case *types.Array:
			x.X = w.addr(x.X)
			x.Index = w.expr(x.Index)
			return x
		case *types.Slice, *types.Pointer:
			x.X = w.expr(x.X)
			x.Index = w.expr(x.Index)
			return x
		}
	}
	return w.expr(e)
}

func (w *rw) acc(fn string, e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: w.call(fn, &ast.UnaryExpr{Op: token.AND, X: e})}}
}

// tracked tells whether accesses of e are reported.
func (w *rw) tracked(e ast.Expr) bool { return w.needs(e) }

// qualified rewrites pkg.Name.
func (w *rw) qualified(x *ast.SelectorExpr, pn *types.PkgName) ast.Expr {
	path := pn.Imported().Path()
	if sp, ok := shimPkgs[path]; ok && shims[sp][x.Sel.Name] {
		return w.shim(sp, x.Sel.Name)
	}
	w.pkgUsed[pn] = true
	return x
}

func (w *rw) exprs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = w.expr(l[i])
	}
	return l
}

func named(t types.Type) bool {
	switch types.Unalias(t).(type) {
	case *types.Named, *types.TypeParam:
		return true
	}
	return false
}

// chanExpr rewrites a channel operand so that methods can be called on it.
func (w *rw) chanExpr(e ast.Expr) ast.Expr {
	t := w.typeOf(e)
	n := w.expr(e)
	if named(t) {
		return w.call("Ch", n)
	}
	if u, ok := n.(*ast.UnaryExpr); ok {
		return &ast.ParenExpr{X: u}
	}
	return n
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

// expr rewrites an expression (or type) that is read.
func (w *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		if w.tracked(x) {
			if _, isDef := w.p.info.Defs[x]; !isDef {
				return w.acc("Rd", x)
			}
		}
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				q := w.qualified(x, pn)
				if q == ast.Expr(x) && w.needs(x) {
					return w.acc("Rd", x)
				}
				return q
			}
		}
		sel := w.p.info.Selections[x]
		if sel == nil {
			x.X = w.expr(x.X)
			return x
		}
		switch sel.Kind() {
		case types.FieldVal:
			if w.needs(x) && w.addressable(x) {
				return w.acc("Rd", w.addr(x))
			}
			if isPtr(w.typeOf(x.X)) || !w.addressable(x.X) {
				x.X = w.expr(x.X)
			} else {
				x.X = w.addr(x.X)
			}
			return x
		case types.MethodVal:
			f, _ := sel.Obj().(*types.Func)
			ptrRecv := false
			if f != nil {
				if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
					ptrRecv = isPtr(sig.Recv().Type())
				}
			}
			if ptrRecv && !isPtr(w.typeOf(x.X)) && w.addressable(x.X) {
				x.X = w.addr(x.X)
			} else {
				x.X = w.expr(x.X)
			}
			return x
		}
		x.X = w.expr(x.X)
		return x
	case *ast.ParenExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.StarExpr:
		if w.isType(x) || !w.race {
			x.X = w.expr(x.X)
			return x
		}
		return &ast.ParenExpr{X: &ast.StarExpr{X: w.call("Rd", w.expr(x.X))}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			// v, ok forms are handled by the statement
			return method(w.chanExpr(x.X), "Recv")
		}
		if x.Op == token.AND {
			in := x.X
			for {
				if p, ok := in.(*ast.ParenExpr); ok {
					in = p.X
					continue
				}
				break
			}
			if _, ok := in.(*ast.CompositeLit); ok {
				x.X = w.expr(x.X)
			} else {
				x.X = w.addr(x.X)
			}
			return x
		}
		x.X = w.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = w.expr(x.X)
		x.Y = w.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Key = w.expr(x.Key)
		x.Value = w.expr(x.Value)
		return x
	case *ast.CallExpr:
		return w.callExpr(x)
	case *ast.IndexExpr:
		if w.isType(x) {
			x.X = w.expr(x.X)
			x.Index = w.expr(x.Index)
			return x
		}
		if tv, ok := w.p.info.Types[x.Index]; ok && tv.IsType() { // generic instantiation
			x.X = w.expr(x.X)
			x.Index = w.expr(x.Index)
			return x
		}
		if _, ok := isMap(w.typeOf(x.X)); ok {
			x.X = w.mapRead(x.X)
			x.Index = w.expr(x.Index)
			return x
		}
		if w.tracked(x) && w.addressable(x) {
			return w.acc("Rd", w.addr(x))
		}
		if _, ok := under(w.typeOf(x.X)).(*types.Array); ok && !w.tracked(x.X) && w.addressable(x.X) {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
		x.Index = w.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = w.expr(x.X)
		x.Indices = w.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		if _, ok := under(w.typeOf(x.X)).(*types.Array); ok && w.addressable(x.X) {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
		x.Low, x.High, x.Max = w.expr(x.Low), w.expr(x.High), w.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = w.expr(x.X)
		if x.Type != nil {
			x.Type = w.expr(x.Type)
		}
		return x
	case *ast.CompositeLit:
		t := w.typeOf(x)
		if x.Type != nil {
			x.Type = w.expr(x.Type)
		}
		ut := under(t)
		if p, ok := ut.(*types.Pointer); ok {
			ut = under(p.Elem())
		}
		_, isStruct := ut.(*types.Struct)
		mt, isMp := ut.(*types.Map)
		for i, el := range x.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				x.Elts[i] = w.expr(el)
				continue
			}
			if !isStruct {
				if _, lit := kv.Key.(*ast.CompositeLit); !lit && isMp && ptrKey(mt) && !w.isNil(kv.Key) {
					kv.Key = w.call("K", w.expr(kv.Key))
				} else {
					kv.Key = w.expr(kv.Key)
				}
			}
			kv.Value = w.expr(kv.Value)
		}
		return x
	case *ast.FuncLit:
		w.expr(x.Type)
		w.block(x.Body)
		return x
	case *ast.Ellipsis:
		x.Elt = w.expr(x.Elt)
		return x
	case *ast.ArrayType:
		x.Len = w.expr(x.Len)
		x.Elt = w.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key = w.expr(x.Key)
		x.Value = w.expr(x.Value)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: w.shim(vs, "Chan"), Index: w.expr(x.Value)}}
	case *ast.FuncType:
		w.fields(x.TypeParams)
		w.fields(x.Params)
		w.fields(x.Results)
		return x
	case *ast.StructType:
		w.fields(x.Fields)
		return x
	case *ast.InterfaceType:
		w.fields(x.Methods)
		return x
	}
	return e
}

func ptrKey(m *types.Map) bool {
	switch under(m.Key()).(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// isNil tells whether an expression is the predeclared nil.
func (w *rw) isNil(e ast.Expr) bool {
	tv, ok := w.p.info.Types[e]
	return ok && tv.IsNil()
}

func (w *rw) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = w.expr(f.Type)
		f.Doc = nil
		f.Comment = nil
	}
}

func (w *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.addressable(x.X)
	case *ast.Ident:
		v, ok := w.objOf(x).(*types.Var)
		return ok && v != nil
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				_, ok := w.p.info.Uses[x.Sel].(*types.Var)
				return ok
			}
		}
		sel := w.p.info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if isPtr(w.typeOf(x.X)) || sel.Indirect() {
			return true
		}
		return w.addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch under(w.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return w.addressable(x.X)
		}
	}
	return false
}

func (w *rw) mapRead(e ast.Expr) ast.Expr {
	n := w.expr(e)
	if !w.race {
		return n
	}
	return w.call("MapR", n)
}

func (w *rw) builtin(f ast.Expr) string {
	for {
		if p, ok := f.(*ast.ParenExpr); ok {
			f = p.X
			continue
		}
		break
	}
	if id, ok := f.(*ast.Ident); ok {
		if b, ok := w.p.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (w *rw) callExpr(x *ast.CallExpr) ast.Expr {
	isSlice := false
	if n := len(x.Args); n > 0 {
		_, isSlice = under(w.typeOf(x.Args[n-1])).(*types.Slice)
		isSlice = isSlice && !w.isNil(x.Args[n-1])
	}
	switch w.builtin(x.Fun) {
	case "make":
		t := w.typeOf(x.Args[0])
		if ch, ok := under(t).(*types.Chan); ok {
			_ = ch
			if ct, ok := x.Args[0].(*ast.ChanType); ok {
				c := &ast.CallExpr{Fun: &ast.IndexExpr{X: w.shim(vs, "MakeChan"), Index: w.expr(ct.Value)}}
				c.Args = w.exprs(x.Args[1:])
				for i := range c.Args {
					c.Args[i] = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{c.Args[i]}}
				}
				return c
			}
			// named channel type: T(MakeChanOf(T(nil), n))
			nt := w.expr(x.Args[0])
			args := []ast.Expr{&ast.CallExpr{Fun: &ast.ParenExpr{X: nt}, Args: []ast.Expr{ast.NewIdent("nil")}}}
			for _, a := range x.Args[1:] {
				args = append(args, &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{w.expr(a)}})
			}
			return w.call("MakeChanLike", args...)
		}
	case "len", "cap":
		t := w.typeOf(x.Args[0])
		if isChan(t) {
			n := "Len"
			if w.builtin(x.Fun) == "cap" {
				n = "Cap"
			}
			return method(w.chanExpr(x.Args[0]), n)
		}
		if _, ok := isMap(t); ok {
			x.Args[0] = w.mapRead(x.Args[0])
			return x
		}
		if tv := w.p.info.Types[ast.Expr(x)]; tv.Value != nil {
			return x // constant
		}
	case "copy":
		if w.race {
			if _, ok := under(w.typeOf(x.Args[0])).(*types.Slice); ok {
				switch under(w.typeOf(x.Args[1])).(type) {
				case *types.Slice:
					return w.call("Copy", w.exprs(x.Args)...)
				case *types.Basic:
					return w.call("CopyString", w.exprs(x.Args)...)
				}
			}
		}
	case "append":
		x.Args = w.exprs(x.Args)
		if n := len(x.Args); w.race && x.Ellipsis.IsValid() && isSlice {
			x.Args[n-1] = w.call("RdS", x.Args[n-1])
		}
		return x
	case "close":
		return method(w.chanExpr(x.Args[0]), "Close")
	case "delete", "clear":
		if _, ok := isMap(w.typeOf(x.Args[0])); ok {
			x.Args[0] = w.expr(x.Args[0])
			if w.race {
				x.Args[0] = w.call("MapW", x.Args[0])
			}
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = w.expr(x.Args[i])
			}
			return x
		}
	}
	if w.isType(x.Fun) { // conversion
		ft := w.expr(x.Fun)
		if _, ok := ft.(*ast.StarExpr); ok {
			ft = &ast.ParenExpr{X: ft}
		}
		// converting to a string reads the elements
		_, toBasic := under(w.typeOf(x.Fun)).(*types.Basic)
		x.Fun = ft
		x.Args = w.exprs(x.Args)
		if w.race && isSlice && toBasic {
			x.Args[0] = w.call("RdS", x.Args[0])
		}
		return x
	}
	x.Fun = w.expr(x.Fun)
	x.Args = w.exprs(x.Args)
	return x
}

// lvalue rewrites the target of an assignment.
func (w *rw) lvalue(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = w.lvalue(x.X)
		return x
	case *ast.Ident:
		if x.Name != "_" && w.tracked(x) {
			return w.acc("Wr", x)
		}
		return x
	case *ast.StarExpr:
		if !w.race {
			x.X = w.expr(x.X)
			return x
		}
		return &ast.StarExpr{X: w.call("Wr", w.expr(x.X))}
	case *ast.IndexExpr:
		if mt, ok := isMap(w.typeOf(x.X)); ok {
			x.X = w.expr(x.X)
			if w.race {
				x.X = w.call("MapW", x.X)
			}
			x.Index = w.expr(x.Index)
			if ptrKey(mt) && !w.isNil(x.Index) {
				x.Index = w.call("K", x.Index)
			}
			return x
		}
		if w.tracked(x) && w.addressable(x) {
			return w.acc("Wr", w.addr(x))
		}
		return w.addr(x)
	case *ast.SelectorExpr:
		if w.tracked(x) {
			return w.acc("Wr", w.addr(x))
		}
		return w.addr(x)
	}
	return w.expr(e)
}

// hasCall tells whether evaluating e may run other code or block.
func (w *rw) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if w.isType(x.Fun) {
				return true
			}
			if b := w.builtin(x.Fun); b != "" {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// ---- statements

func (w *rw) decl(d ast.Decl) {
	switch x := d.(type) {
	case *ast.FuncDecl:
		x.Doc = nil
		w.fields(x.Recv)
		w.expr(x.Type)
		if x.Body != nil {
			w.block(x.Body)
		}
	case *ast.GenDecl:
		w.genDecl(x)
	}
}

func (w *rw) genDecl(x *ast.GenDecl) {
	x.Doc = nil
	if x.Tok == token.IMPORT {
		return
	}
	for _, s := range x.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if x.Tok == token.CONST {
				// mark packages used by constant expressions
				for _, v := range s.Values {
					w.markPkgs(v)
				}
				if s.Type != nil {
					s.Type = w.expr(s.Type)
				}
				continue
			}
			if s.Type != nil {
				s.Type = w.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if r, ok := w.recv2(s.Values[0]); ok {
					s.Values[0] = r
					continue
				}
			}
			s.Values = w.exprs(s.Values)
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			w.fields(s.TypeParams)
			s.Type = w.expr(s.Type)
		}
	}
}

func (w *rw) markPkgs(e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				w.pkgUsed[pn] = true
			}
		}
		return true
	})
}

func (w *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = w.stmts(b.List)
}

func (w *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, w.stmt(s))
	}
	return out
}

// recv2 rewrites "<-ch" in a two-value context.
func (w *rw) recv2(e ast.Expr) (ast.Expr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil, false
	}
	return method(w.chanExpr(u.X), "Recv2"), true
}

func (w *rw) stmt(s ast.Stmt) ast.Stmt { return w.stmtIn(s, true) }

func (w *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return w.stmtIn(s, false)
}

func (w *rw) isConstOrNil(e ast.Expr) bool {
	tv, ok := w.p.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (w *rw) stmtIn(s ast.Stmt, canSplit bool) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		w.block(x)
		return x
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
		if p, ok := x.X.(*ast.ParenExpr); ok {
			x.X = p.X
		}
		return x
	case *ast.SendStmt:
		c := w.chanExpr(x.Chan)
		return &ast.ExprStmt{X: method(c, "Send", w.expr(x.Value))}
	case *ast.IncDecStmt:
		if w.race && canSplit && w.tracked(x.X) {
			tok := token.ADD
			if x.Tok == token.DEC {
				tok = token.SUB
			}
			if u := w.update(x.X, tok, &ast.BasicLit{Kind: token.INT, Value: "1"}); u != nil {
				return u
			}
		}
		x.X = w.lvalue(x.X)
		return x
	case *ast.AssignStmt:
		return w.assign(x, canSplit)
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		n := w.expr(x.Call)
		if c, ok := n.(*ast.CallExpr); ok {
			x.Call = c
		} else {
			x.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{n}}}}}}
		}
		return x
	case *ast.ReturnStmt:
		x.Results = w.exprs(x.Results)
		return x
	case *ast.IfStmt:
		x.Init = w.simple(x.Init)
		x.Cond = w.expr(x.Cond)
		w.block(x.Body)
		if x.Else != nil {
			x.Else = w.stmt(x.Else)
		}
		return x
	case *ast.ForStmt:
		x.Init = w.simple(x.Init)
		x.Cond = w.expr(x.Cond)
		x.Post = w.simple(x.Post)
		w.block(x.Body)
		return x
	case *ast.RangeStmt:
		t := w.typeOf(x.X)
		n := w.expr(x.X)
		if isChan(t) {
			if named(t) {
				n = w.call("Ch", n)
			}
			n = method(n, "All")
		} else if _, ok := isMap(t); ok {
			n = w.call("RangeMap", n)
		} else if _, ok := under(t).(*types.Slice); ok && w.race && x.Value != nil {
			n = w.call("RdS", n)
		}
		x.X = n
		w.block(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = w.simple(x.Init)
		x.Tag = w.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.List = w.exprs(cc.List)
			cc.Body = w.stmts(cc.Body)
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = w.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			a.X = w.expr(a.X)
		case *ast.AssignStmt:
			a.Rhs[0] = w.expr(a.Rhs[0])
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.List = w.exprs(cc.List)
			cc.Body = w.stmts(cc.Body)
		}
		return x
	case *ast.SelectStmt:
		return w.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(sel, x.Label)
		}
		x.Stmt = w.stmt(x.Stmt)
		return x
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			w.genDecl(g)
		}
		return x
	}
	return s
}

func (w *rw) assign(x *ast.AssignStmt, canSplit bool) ast.Stmt {
	two := len(x.Lhs) == 2 && len(x.Rhs) == 1
	var r2 ast.Expr
	if two {
		if r, ok := w.recv2(x.Rhs[0]); ok {
			r2 = r
		}
	}
	if x.Tok == token.DEFINE {
		if r2 != nil {
			x.Rhs[0] = r2
		} else {
			x.Rhs = w.exprs(x.Rhs)
		}
		return x
	}
	if tok, ok := opAssign[x.Tok]; ok && w.race && canSplit && len(x.Lhs) == 1 && w.tracked(x.Lhs[0]) {
		l, r := x.Lhs[0], w.expr(x.Rhs[0])
		if u := w.update(l, tok, r); u != nil {
			return u
		}
		x.Lhs[0], x.Rhs[0] = w.lvalue(l), r
		return x
	}
	anyTracked := false
	for _, l := range x.Lhs {
		if w.tracked(l) {
			anyTracked = true
		}
		if ix, ok := l.(*ast.IndexExpr); ok {
			if _, ok := isMap(w.typeOf(ix.X)); ok {
				anyTracked = true
			}
		}
	}
	calls := r2 != nil
	for _, r := range x.Rhs {
		if w.hasCall(r) {
			calls = true
		}
	}
	if canSplit && w.race && anyTracked && calls {
		// evaluate the right-hand side before reporting the write
		var list []ast.Stmt
		var tl []ast.Expr
		if len(x.Lhs) == len(x.Rhs) {
			for i, r := range x.Rhs {
				if w.isConstOrNil(r) || !w.hasCall(r) {
					tl = append(tl, w.expr(r))
					continue
				}
				t := w.temp()
				_ = i
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(r)}})
				tl = append(tl, t)
			}
		} else {
			var lhs []ast.Expr
			for range x.Lhs {
				t := w.temp()
				lhs = append(lhs, t)
				tl = append(tl, t)
			}
			rhs := r2
			if rhs == nil {
				rhs = w.expr(x.Rhs[0])
			}
			list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		}
		for i := range x.Lhs {
			x.Lhs[i] = w.lvalue(x.Lhs[i])
		}
		list = append(list, &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: tl})
		return &ast.BlockStmt{List: list}
	}
	if r2 != nil {
		x.Rhs[0] = r2
	} else {
		x.Rhs = w.exprs(x.Rhs)
	}
	for i := range x.Lhs {
		x.Lhs[i] = w.lvalue(x.Lhs[i])
	}
	return x
}

func (w *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	var list []ast.Stmt
	if w.builtin(c.Fun) != "" || w.isType(c.Fun) {
		body := &ast.BlockStmt{List: []ast.Stmt{w.stmt(&ast.ExprStmt{X: c})}}
		return &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	}
	sig, _ := under(w.typeOf(c.Fun)).(*types.Signature)
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && sig != nil && sig.Results().Len() == 0 {
		return &ast.ExprStmt{X: w.call("Go", w.expr(fl))}
	}
	var fun ast.Expr
	direct := false
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := w.objOf(id).(*types.Func); ok {
			direct = true
		}
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if _, ok := w.p.info.Uses[id].(*types.PkgName); ok {
				direct = true
			}
		}
	}
	switch c.Fun.(type) {
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	if direct {
		fun = w.expr(c.Fun)
	} else {
		t := w.temp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(c.Fun)}})
		fun = t
	}
	nc := &ast.CallExpr{Fun: fun}
	if c.Ellipsis != token.NoPos {
		nc.Ellipsis = c.Ellipsis
	}
	for i, a := range c.Args {
		if w.isConstOrNil(a) {
			nc.Args = append(nc.Args, w.expr(a))
			continue
		}
		// multi-value call f(g())
		if tup, ok := w.typeOf(a).(*types.Tuple); ok {
			var lhs []ast.Expr
			for k := 0; k < tup.Len(); k++ {
				t := w.temp()
				lhs = append(lhs, t)
				nc.Args = append(nc.Args, t)
			}
			list = append(list, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(a)}})
			continue
		}
		_ = i
		t := w.temp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(a)}})
		nc.Args = append(nc.Args, t)
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}
	list = append(list, &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return &ast.BlockStmt{List: list}
}

func (w *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var list []ast.Stmt
	hasDefault := "false"
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			nc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			nc.Body = w.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, nc)
			continue
		}
		t := w.temp()
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			list = append(list, define(t, method(w.chanExpr(m.Chan), "SendCase", w.expr(m.Value))))
		case *ast.ExprStmt:
			list = append(list, define(t, method(w.chanExpr(recvChan(m.X)), "RecvCase")))
		case *ast.AssignStmt:
			list = append(list, define(t, method(w.chanExpr(recvChan(m.Rhs[0])), "RecvCase")))
			a := &ast.AssignStmt{Tok: m.Tok}
			for i, l := range m.Lhs {
				if m.Tok == token.ASSIGN {
					l = w.lvalue(l)
				}
				a.Lhs = append(a.Lhs, l)
				n := "Val"
				if i == 1 {
					n = "Ok"
				}
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent(n)})
			}
			pre = append(pre, a)
		}
		cases = append(cases, t)
		nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		nc.Body = append(pre, w.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	sw.Tag = w.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	// keeps terminating-statement analysis as for select
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{lit(`"unreachable"`)}}}}})
	var s ast.Stmt = sw
	if label != nil {
		s = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(list, s)}
}

func define(t *ast.Ident, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func recvChan(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			return x.X
		}
		return e
	}
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// update splits a read-modify-write into its accesses (nil: not possible).
func (w *rw) update(l ast.Expr, tok token.Token, r ast.Expr) ast.Stmt {
	for {
		p, ok := l.(*ast.ParenExpr)
		if !ok {
			break
		}
		l = p.X
	}
	switch x := l.(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return nil
		}
	case *ast.SelectorExpr:
	case *ast.IndexExpr:
		if _, ok := isMap(w.typeOf(x.X)); ok || !w.addressable(x) {
			return nil
		}
	default:
		return nil
	}
	p, v := w.temp(), w.temp()
	return &ast.BlockStmt{List: []ast.Stmt{
		define(p, &ast.UnaryExpr{Op: token.AND, X: w.addr(l)}),
		define(v, &ast.BinaryExpr{X: &ast.StarExpr{X: w.call("Rd", p)}, Op: tok, Y: &ast.ParenExpr{X: r}}),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: w.call("Wr", p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}}
}
