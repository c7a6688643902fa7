package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"instr/astutil"
)

const rt = "simrt_"

type rw struct {
	sp      *srcPkg
	info    *types.Info
	n       int
	file    string
	useRT   bool
	pvs     map[types.Object]bool // package level vars made per-process (this package)
	skip    map[ast.Node]bool
	curFunc string
	pvTypes map[ast.Expr]types.Type
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) rtSel(name string) ast.Expr {
	r.useRT = true
	return &ast.SelectorExpr{X: id(rt), Sel: id(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rtSel(name), Args: args}
}

func (r *rw) tmp(p string) string { r.n++; return fmt.Sprintf("simv%s%d", p, r.n) }

func (r *rw) site(n ast.Node) ast.Expr {
	s := fmt.Sprintf("%s/%s:?", filepath.Base(r.sp.lp.Dir), r.file)
	if n != nil && n.Pos().IsValid() {
		p := fset.Position(n.Pos())
		s = fmt.Sprintf("%s/%s:%d", filepath.Base(r.sp.lp.Dir), filepath.Base(p.Filename), p.Line)
	}
	if r.curFunc != "" {
		s += ":" + r.curFunc
	}
	sites = append(sites, s)
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites) - 1)}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// isPkgVar: a package level variable of an instrumented repository package
// that is given one instance per simulated process.
func isPkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil {
		return false
	}
	sp := insts[v.Pkg().Path()]
	if sp == nil || sp.kind != kindRepo {
		return false
	}
	return v.Parent() == sp.tpkg.Scope() && perProc[v]
}

var perProc = map[*types.Var]bool{}

// decidePerProc marks the package level variables that become per process:
// those declared with a single initialiser per name, or none.
func decidePerProc(sp *srcPkg) {
	if sp.kind != kindRepo {
		return
	}
	for _, f := range sp.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					if v, ok := sp.info.Defs[n].(*types.Var); ok {
						perProc[v] = true
					}
				}
			}
		}
	}
}

func rewrite(sp *srcPkg) {
	decidePerProc(sp)
	for i, f := range sp.files {
		r := &rw{sp: sp, info: sp.info, file: sp.names[i], skip: map[ast.Node]bool{}}
		r.doFile(f)
		write(sp, sp.names[i], f)
	}
}

func (r *rw) doFile(f *ast.File) {
	yields := r.sp.kind == kindRepo && !strings.HasSuffix(r.sp.lp.ImportPath, "/gencoder")
	if r.sp.kind != kindPB {
		r.initFuncs(f)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			r.curFunc = fd.Name.Name
			if fd.Body != nil && yields {
				r.addYields(fd.Body)
			}
		}
		r.curFunc = ""
		astutil.Apply(f, r.preVisit, r.postVisit)
		r.pkgVars(f)
	}
	r.imports(f)
}

// ---- statement level yields -------------------------------------------------

func (r *rw) addYields(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.ForStmt:
			if len(b.Body.List) == 0 { // busy wait
				y := &ast.ExprStmt{X: r.call("Y", r.site(b))}
				r.skip[y] = true
				b.Body.List = []ast.Stmt{y}
			}
		case *ast.BlockStmt:
			b.List = r.yieldList(b.List)
		case *ast.CaseClause:
			b.Body = r.yieldList(b.Body)
		case *ast.CommClause:
			b.Body = r.yieldList(b.Body)
		case *ast.SwitchStmt:
			for _, c := range b.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
			r.clauses(b.Body)
			r.inspectExprs(b.Init, b.Tag)
			return false
		case *ast.TypeSwitchStmt:
			r.clauses(b.Body)
			return false
		case *ast.SelectStmt:
			for _, c := range b.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm != nil {
					r.addYields(cc.Comm)
				}
				cc.Body = r.yieldList(cc.Body)
				for _, s := range cc.Body {
					r.addYields(s)
				}
			}
			return false
		}
		return true
	})
}

func (r *rw) inspectExprs(s ast.Stmt, e ast.Expr) {
	if s != nil {
		r.addYields(s)
	}
	if e != nil {
		r.addYields(e)
	}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			r.addYields(e)
		}
		cc.Body = r.yieldList(cc.Body)
		for _, s := range cc.Body {
			r.addYields(s)
		}
	}
}

type yieldStmt struct{}

func (r *rw) yieldList(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if es, ok := s.(*ast.ExprStmt); ok && r.skip[es] {
			o = append(o, s)
			continue
		}
		switch x := s.(type) {
		case *ast.EmptyStmt:
			o = append(o, s)
			continue
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				o = append(o, s)
				continue
			}
		}
		y := &ast.ExprStmt{X: r.call("Y", r.site(s))}
		r.skip[y] = true
		o = append(o, y, s)
	}
	return o
}

// pure: an expression without calls, receives or function literals, so that
// evaluating it twice is harmless.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if u.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// ---- expression and statement rewriting --------------------------------------

func (r *rw) preVisit(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.LabeledStmt:
		if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
			_ = sel
		}
	case *ast.FuncDecl:
		r.curFunc = n.Name.Name
	case *ast.ImportSpec:
		return false
	}
	return true
}

func (r *rw) postVisit(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.skip[n] {
			if as, ok := c.Parent().(*ast.AssignStmt); ok && len(as.Lhs) == 2 && len(as.Rhs) == 1 {
				c.Replace(r.call("Recv2", n.X))
			} else if vs, ok := c.Parent().(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
				c.Replace(r.call("Recv2", n.X))
			} else {
				c.Replace(r.call("Recv", n.X))
			}
		}
	case *ast.SendStmt:
		if !r.skip[n] {
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", n.Chan), Args: []ast.Expr{n.Value}}})
		}
	case *ast.CallExpr:
		r.builtin(n)
	case *ast.GoStmt:
		c.Replace(r.goStmt(n))
	case *ast.RangeStmt:
		r.rangeStmt(c, n)
	case *ast.CommClause:
		// handled with the select
	case *ast.SelectStmt:
		if _, ok := c.Parent().(*ast.LabeledStmt); !ok {
			b, sw := r.selectStmt(n)
			b.List = append(b.List, sw)
			c.Replace(b)
		}
	case *ast.LabeledStmt:
		if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
			b, sw := r.selectStmt(sel)
			b.List = append(b.List, &ast.LabeledStmt{Label: n.Label, Stmt: sw})
			c.Replace(b)
		}
	case *ast.IncDecStmt:
		if r.sp.kind == kindRepo && pure(n.X) && r.shared(n.X) {
			op := token.ADD
			if n.Tok == token.DEC {
				op = token.SUB
			}
			x := n.X
			c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				r.call("YV", &ast.BinaryExpr{X: x, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}})
		}
	case *ast.AssignStmt:
		r.assign(n)
	case *ast.BinaryExpr:
		if r.fieldRead(n.X) {
			n.X = r.call("YV", n.X)
		}
		if r.fieldRead(n.Y) {
			n.Y = r.call("YV", n.Y)
		}
	case *ast.CompositeLit:
		if t := r.typeOf(n); t != nil {
			if _, ok := t.Underlying().(*types.Struct); ok {
				for i, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if r.fieldRead(kv.Value) {
							kv.Value = r.call("YV", kv.Value)
						}
					} else if r.fieldRead(e) {
						n.Elts[i] = r.call("YV", e)
					}
				}
			}
		}
	case *ast.SelectorExpr:
		r.selector(c, n)
	case *ast.Ident:
		r.ident(c, n)
	}
	return true
}

// fieldRead: the value of a field reached through a pointer, read in the middle
// of a larger expression; another goroutine may run between such reads.
func (r *rw) fieldRead(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok || r.sp.kind != kindRepo {
		return false
	}
	sel := r.info.Selections[s]
	if sel == nil || sel.Kind() != types.FieldVal {
		return false
	}
	if tv, ok := r.info.Types[e]; !ok || !tv.IsValue() {
		return false
	}
	ptr := false
	for x := ast.Expr(s); ; {
		switch y := x.(type) {
		case *ast.SelectorExpr:
			if t := r.typeOf(y.X); t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					ptr = true
				}
			}
			x = y.X
			continue
		case *ast.Ident:
			return ptr
		}
		return false
	}
}

// shared: an lvalue other goroutines could see (anything but a plain local
// that is not captured is treated as shared; plain identifiers are included
// because closures capture them).
func (r *rw) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name != "_"
	case *ast.SelectorExpr, *ast.StarExpr, *ast.ParenExpr:
		return true
	case *ast.IndexExpr:
		return true
	}
	return false
}

func (r *rw) assign(n *ast.AssignStmt) {
	if r.sp.kind != kindRepo || len(n.Lhs) != 1 || len(n.Rhs) != 1 {
		return
	}
	l := n.Lhs[0]
	if i, ok := l.(*ast.Ident); ok {
		if i.Name == "_" {
			return
		}
		// a plain local: other goroutines see it only through a closure, where
		// the statement level yields already separate read from write
		if o := r.info.Uses[i]; o == nil || !isPkgVar(o) {
			return
		}
	}
	switch n.Tok {
	case token.ASSIGN:
		if tv, ok := r.info.Types[n.Rhs[0]]; ok && tv.Value == nil && !tv.IsNil() && tv.Type != nil && !untyped(tv.Type) {
			if lt := r.typeOf(l); lt != nil {
				n.Rhs[0] = r.call("YV", n.Rhs[0])
			}
		}
	case token.DEFINE:
	default:
		if !pure(l) {
			return
		}
		op, ok := assignOps[n.Tok]
		if !ok {
			return
		}
		n.Tok = token.ASSIGN
		n.Rhs[0] = r.call("YV", &ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: n.Rhs[0]}})
	}
}

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR}

func (r *rw) builtin(n *ast.CallExpr) {
	i, ok := n.Fun.(*ast.Ident)
	if !ok || len(n.Args) != 1 {
		return
	}
	if _, ok := r.info.Uses[i].(*types.Builtin); !ok {
		return
	}
	switch i.Name {
	case "close":
		n.Fun = r.rtSel("Close")
	case "len":
		if isChan(r.origType(n.Args[0])) {
			n.Fun = r.rtSel("Len")
		}
	}
}

// origType survives the replacement of sub-expressions.
func (r *rw) origType(e ast.Expr) types.Type {
	if t := r.typeOf(e); t != nil {
		return t
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.origType(p.X)
	}
	if s, ok := e.(*ast.StarExpr); ok { // (*PV.P())
		return r.pvTypes[s]
	}
	return nil
}

func (r *rw) goStmt(n *ast.GoStmt) ast.Stmt {
	call := n.Call
	site := r.site(n)
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", site, fl)}
	}
	b := &ast.BlockStmt{}
	var names []ast.Expr
	var vals []ast.Expr
	fun := call.Fun
	isBuiltin := false
	if i, ok := fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[i].(*types.Builtin); ok {
			isBuiltin = true
		}
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if x, ok := s.X.(*ast.Ident); ok && x.Name == rt {
			isBuiltin = true // already a simulator call
		}
	}
	if !isBuiltin {
		t := r.tmp("f")
		names = append(names, id(t))
		vals = append(vals, fun)
		fun = id(t)
	}
	var args []ast.Expr
	for _, a := range call.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			args = append(args, a)
			continue
		}
		t := r.tmp("a")
		names = append(names, id(t))
		vals = append(vals, a)
		args = append(args, id(t))
	}
	if len(names) > 0 {
		b.List = append(b.List, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals})
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	b.List = append(b.List, &ast.ExprStmt{X: r.call("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return b
}

func (r *rw) rangeStmt(c *astutil.Cursor, n *ast.RangeStmt) {
	t := r.origType(n.X)
	switch {
	case isChan(t):
		it := r.tmp("it")
		v := r.tmp("v")
		body := n.Body
		if n.Key != nil && !isBlank(n.Key) {
			if n.Tok == token.DEFINE {
				v = n.Key.(*ast.Ident).Name
			} else {
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}}, body.List...)
			}
		}
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(it), id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("RangeChan", n.X)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id("Next")}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: id(v)}}},
			Body: body,
		})
	case isMap(t):
		it := r.tmp("it")
		k, v := r.tmp("k"), r.tmp("v")
		body := n.Body
		var pre []ast.Stmt
		if n.Key != nil && !isBlank(n.Key) {
			if n.Tok == token.DEFINE {
				k = n.Key.(*ast.Ident).Name
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
			}
		}
		if n.Value != nil && !isBlank(n.Value) {
			if n.Tok == token.DEFINE {
				v = n.Value.(*ast.Ident).Name
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
		}
		body.List = append(pre, body.List...)
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(it), id(k), id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("RangeMap", n.X)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id("Next")}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: id(k)}, &ast.UnaryExpr{Op: token.AND, X: id(v)}}},
			Body: body,
		})
	}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// selectStmt is called after the children were rewritten, so receives in the
// communication clauses are already simrt_.Recv(ch)/Recv2(ch) calls and sends
// are simrt_.SendTo(ch)(v) statements.
func (r *rw) selectStmt(n *ast.SelectStmt) (*ast.BlockStmt, ast.Stmt) {
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	var cases []ast.Expr
	idx := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		name := r.tmp("c")
		var pre []ast.Stmt
		field := func(f string) ast.Expr { return &ast.SelectorExpr{X: id(name), Sel: id(f)} }
		var ctor ast.Expr
		switch s := cc.Comm.(type) {
		case *ast.ExprStmt:
			call, ok := unparen(s.X).(*ast.CallExpr)
			if !ok {
				die("%s: unsupported select case", r.file)
			}
			if inner, ok := call.Fun.(*ast.CallExpr); ok && isRT(inner.Fun, "SendTo") {
				ctor = &ast.CallExpr{Fun: r.call("CaseSend", inner.Args...), Args: call.Args}
			} else if isRT(call.Fun, "Recv") {
				ctor = r.call("CaseRecv", call.Args...)
			} else {
				die("%s: unsupported select case", r.file)
			}
		case *ast.AssignStmt:
			call, ok := unparen(s.Rhs[0]).(*ast.CallExpr)
			if ok && isRT(call.Fun, "YV") {
				call, ok = unparen(call.Args[0]).(*ast.CallExpr)
			}
			if !ok || !(isRT(call.Fun, "Recv") || isRT(call.Fun, "Recv2")) {
				die("%s: unsupported select case", r.file)
			}
			ctor = r.call("CaseRecv", call.Args...)
			rhs := []ast.Expr{field("V")}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, field("OK"))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
		default:
			die("%s: unsupported select case %T", r.file, cc.Comm)
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{ctor}})
		cases = append(cases, id(name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(pre, cc.Body...)})
		idx++
	}
	if hasDefault == "false" {
		// keeps the statement terminating where the select was
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("unreachable")}}}}}})
	}
	sw.Tag = r.call("Select", append([]ast.Expr{id(hasDefault)}, cases...)...)
	return b, sw
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRT(e ast.Expr, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	x, ok := s.X.(*ast.Ident)
	return ok && x.Name == rt && s.Sel.Name == name
}

func (r *rw) selector(c *astutil.Cursor, n *ast.SelectorExpr) {
	x, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[x].(*types.PkgName)
	if !ok {
		return
	}
	p := pn.Imported().Path()
	if o := r.info.Uses[n.Sel]; o != nil && isPkgVar(o) {
		s := r.pvUse(&ast.SelectorExpr{X: n.X, Sel: id("SimPV_" + n.Sel.Name)}, o)
		c.Replace(s)
		return
	}
	sm, ok := seams[p]
	if !ok {
		return
	}
	if to, ok := sm.sel[n.Sel.Name]; ok {
		c.Replace(r.rtSel(to))
		return
	}
	if sm.keep[n.Sel.Name] || sm.def == "keep" {
		return
	}
	if sm.def == "warn" {
		fmt.Fprintf(os.Stderr, "instr: warning: %s/%s uses %s.%s, which is not simulated\n", r.sp.lp.ImportPath, r.file, p, n.Sel.Name)
		return
	}
	die("%s/%s uses %s.%s, which the simulator has no seam for", r.sp.lp.ImportPath, r.file, p, n.Sel.Name)
}

func (r *rw) pvUse(v ast.Expr, o types.Object) ast.Expr {
	st := &ast.StarExpr{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: v, Sel: id("P")}}}
	pe := &ast.ParenExpr{X: st}
	if r.pvTypes == nil {
		r.pvTypes = map[ast.Expr]types.Type{}
	}
	r.pvTypes[st] = o.Type()
	return pe
}

func (r *rw) ident(c *astutil.Cursor, n *ast.Ident) {
	o := r.info.Uses[n]
	if o == nil || !isPkgVar(o) || o.Pkg().Path() != r.sp.lp.ImportPath {
		return
	}
	if s, ok := c.Parent().(*ast.SelectorExpr); ok && c.Name() == "Sel" {
		_ = s
		return
	}
	c.Replace(r.pvUse(id("SimPV_"+n.Name), o))
}

// pkgVars turns "var X T = init" into a per-process variable.
func (r *rw) pkgVars(f *ast.File) {
	if r.sp.kind != kindRepo {
		return
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				v, _ := r.info.Defs[n].(*types.Var)
				ns := &ast.ValueSpec{Names: []*ast.Ident{n}, Type: vs.Type}
				if v == nil || !perProc[v] {
					specs = append(specs, vs)
					break
				}
				var initE ast.Expr
				if len(vs.Values) > 0 {
					initE = vs.Values[i]
				}
				// SimPV_X = simrt.NewPV(func() (v T) { v = init; return })
				body := &ast.BlockStmt{}
				var res *ast.FieldList
				if vs.Type != nil {
					res = &ast.FieldList{List: []*ast.Field{{Type: vs.Type}}}
				} else {
					res = &ast.FieldList{List: []*ast.Field{{Type: r.typeExpr(v.Type(), f)}}}
				}
				if initE != nil {
					body.List = append(body.List, &ast.ReturnStmt{Results: []ast.Expr{initE}})
				} else {
					res.List[0].Names = []*ast.Ident{id("simzero")}
					body.List = append(body.List, &ast.ReturnStmt{})
				}
				ns.Names = []*ast.Ident{id("SimPV_" + n.Name)}
				ns.Type = nil
				ns.Values = []ast.Expr{r.call("NewPV", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: res}, Body: body})}
				specs = append(specs, ns)
			}
		}
		g.Specs = specs
		if len(specs) > 1 {
			g.Lparen = 1
		}
	}
}

// typeExpr renders a type as syntax valid in file f, after seam rewriting.
func (r *rw) typeExpr(t types.Type, f *ast.File) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == r.sp.lp.ImportPath {
			return ""
		}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if ip == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	_ = ok
	e, err := parseExpr(s)
	if err != nil {
		die("type %s: %v", s, err)
	}
	// apply seams to the rendered type
	var fix func(n ast.Node) bool
	fix = func(n ast.Node) bool { return true }
	ast.Inspect(e, fix)
	e = astutil.Apply(e, nil, func(c *astutil.Cursor) bool {
		if sx, ok := c.Node().(*ast.SelectorExpr); ok {
			if x, ok := sx.X.(*ast.Ident); ok {
				for path, sm := range seams {
					for _, im := range f.Imports {
						ip, _ := strconv.Unquote(im.Path.Value)
						nm := ip[strings.LastIndex(ip, "/")+1:]
						if im.Name != nil {
							nm = im.Name.Name
						}
						if ip == path && nm == x.Name {
							if to, ok := sm.sel[sx.Sel.Name]; ok {
								c.Replace(r.rtSel(to))
							}
						}
					}
				}
			}
		}
		return true
	}).(ast.Expr)
	return e
}

// initFuncs: init functions run once per simulated process.
func (r *rw) initFuncs(f *ast.File) {
	if r.sp.kind != kindRepo {
		return
	}
	var add []ast.Decl
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" {
			continue
		}
		nm := r.tmp("init") + "_" + strings.TrimSuffix(strings.ReplaceAll(r.file, "-", "_"), ".go")
		fd.Name = id(nm)
		add = append(add, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("RegisterInit", id(nm))}}}})
	}
	f.Decls = append(f.Decls, add...)
}

func (r *rw) imports(f *ast.File) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if name == "." {
				_, a := seams[p]
				_, b := insts[p]
				_, c := pkgSubst[p]
				if !a && !b && !c {
					specs = append(specs, is)
					continue
				}
				die("%s: dot import of %s", r.file, p)
			}
			if name == "_" && p == "net/http/pprof" {
				continue
			}
			if name == "" {
				name = r.pkgName(p)
			}
			if name != "_" && !used[name] {
				continue
			}
			np := p
			if sp, ok := insts[p]; ok {
				np = sp.newPath
			} else if t, ok := pkgSubst[p]; ok {
				np = t
			} else if strings.HasSuffix(p, "/annoyindex") && strings.HasPrefix(p, repoMod) {
				np = "verisim/sannoy"
			}
			if np != p && is.Name == nil {
				is.Name = id(name)
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
			specs = append(specs, is)
		}
		if len(specs) > 0 {
			g.Specs = specs
			decls = append(decls, g)
		}
	}
	if r.useRT {
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verisim/simrt"`}}}}}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
}

func (r *rw) pkgName(p string) string {
	for _, im := range r.sp.tpkg.Imports() {
		if im.Path() == p {
			return im.Name()
		}
	}
	return p[strings.LastIndex(p, "/")+1:]
}

func parseExpr(s string) (ast.Expr, error) { return parser.ParseExpr(s) }
