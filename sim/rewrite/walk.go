package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
)

var done = map[ast.Expr]ast.Expr{}

// rewritten returns what expression e was replaced by.
func (r *rw) rewritten(e ast.Expr) ast.Expr {
	if x, ok := done[e]; ok {
		return x
	}
	return e
}

func sim(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("sim%s%d", p, r.n))
}

func id(i *ast.Ident) *ast.Ident { return ast.NewIdent(i.Name) }

var timeNames = map[string]string{"Now": "TimeNow", "Since": "Since", "Until": "Until", "Sleep": "Sleep",
	"After": "TimeAfter", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick",
	"Timer": "Timer", "Ticker": "Ticker"}

var netNames = map[string]string{"ListenPacket": "ListenPacket", "ListenUDP": "ListenUDP",
	"ResolveUDPAddr": "ResolveUDPAddr", "UDPConn": "Sock"}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isChan(e ast.Expr) (*types.Chan, bool) {
	c, ok := core(r.typeOf(e)).(*types.Chan)
	return c, ok
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := core(r.typeOf(e)).(*types.Map)
	return ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	i, ok := e.(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = r.info.Uses[i].(*types.Builtin)
	return ok
}

func (r *rw) selector(s *ast.SelectorExpr) ast.Expr {
	p := r.pkgOf(s)
	n := s.Sel.Name
	switch p {
	case "":
		return nil
	case "time":
		if x := timeNames[n]; x != "" {
			return sim(x)
		}
	case "sync":
		return sim(n)
	case "context":
		switch n {
		case "WithCancel", "WithCancelCause", "WithDeadline", "WithDeadlineCause", "WithTimeout", "WithTimeoutCause", "AfterFunc", "Cause", "WithoutCancel":
			return sim("Ctx" + n)
		}
	case "net":
		if x := netNames[n]; x != "" {
			return sim(x)
		}
	case "math/rand", "math/rand/v2":
		switch r.info.Uses[s.Sel].(type) {
		case *types.Func:
			if n == "New" || n == "NewSource" || n == "NewZipf" || n == "NewPCG" || n == "NewChaCha8" || n == "N" {
				return nil
			}
			f := "MathRand"
			if p != "math/rand" {
				f = "MathRandV2"
			}
			return &ast.SelectorExpr{X: call(sim(f)), Sel: ast.NewIdent(n)}
		}
	case "crypto/rand":
		switch n {
		case "Reader":
			return sim("CryptoReader")
		case "Read":
			return sim("CryptoRead")
		}
	case "crypto/rsa":
		if n == "GenerateKey" {
			return sim("RSAGenerateKey")
		}
	case "os":
		if n == "Exit" {
			return sim("Exit")
		}
	case "runtime":
		if n == "Gosched" {
			return sim("Yield")
		}
	case r.mod + "/term":
		if n == "Getch" {
			return sim("Getch")
		}
	}
	return nil
}

func (r *rw) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d)
		case *ast.FuncDecl:
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
			d.Doc = nil
		}
	}
	f.Doc = nil
}

func (r *rw) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			r.fieldList(s.TypeParams)
			s.Type = r.expr(s.Type)
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = call(sim("Recv2"), r.expr(u.X))
					continue
				}
			}
			r.exprs(s.Values)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) funcType(t *ast.FuncType) {
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	x := r.expr1(e)
	if x != e {
		done[e] = x
	}
	return x
}

func (r *rw) expr1(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.SelectorExpr:
		if x := r.selector(e); x != nil {
			return x
		}
		e.X = r.expr(e.X)
	case *ast.FuncLit:
		r.funcType(e.Type)
		r.block(e.Body)
	case *ast.CompositeLit:
		e.Type = r.expr(e.Type)
		r.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		e.Index = r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		e.Type = r.expr(e.Type)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		e.X = r.expr(e.X)
		if e.Op == token.ARROW {
			return call(sim("Recv"), e.X)
		}
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
	case *ast.ArrayType:
		e.Len = r.expr(e.Len)
		e.Elt = r.expr(e.Elt)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
	case *ast.CallExpr:
		return r.call(e)
	default:
		die("unknown expression %T", e)
	}
	return e
}

func (r *rw) call(e *ast.CallExpr) ast.Expr {
	switch {
	case r.isBuiltin(e.Fun, "close"):
		return call(sim("Close"), r.expr(e.Args[0]))
	case r.isBuiltin(e.Fun, "len") && len(e.Args) == 1:
		if c, ok := r.isChan(e.Args[0]); ok {
			n := "Len"
			if c.Dir() == types.SendOnly {
				n = "LenS"
			}
			return call(sim(n), r.expr(e.Args[0]))
		}
	}
	if s, ok := e.Fun.(*ast.SelectorExpr); ok && len(e.Args) == 0 {
		if sel := r.info.Selections[s]; sel != nil && s.Sel.Name == "MapKeys" && sel.Recv().String() == "reflect.Value" {
			return call(sim("ReflectMapKeys"), r.expr(s.X))
		}
	}
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

// --- statements ------------------------------------------------------------------

// sites numbers the preemption points.
var sites int

func pstmt() ast.Stmt {
	sites++
	return &ast.ExprStmt{X: call(sim("P"), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(sites)})}
}

func (r *rw) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, pstmt())
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 {
		b.List = []ast.Stmt{pstmt()}
		return
	}
	r.block(b)
}

func label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (r *rw) stmt(s ast.Stmt, lab *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label)
	case *ast.SelectStmt:
		return r.selectStmt(s, lab)
	case *ast.RangeStmt:
		return r.rangeStmt(s, lab)
	case *ast.GoStmt:
		return label(lab, r.goStmt(s))
	}
	return label(lab, r.plain(s))
}

func (r *rw) plain(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil, *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		c := r.expr(s.Chan)
		return &ast.ExprStmt{X: call(call(sim("Sender"), c), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		if shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(s.X, op, intLit(1))
		}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.exprs(s.Lhs)
				s.Rhs[0] = call(sim("Recv2"), r.expr(u.X))
				return s
			}
		}
		split := false
		if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok == token.ASSIGN && shared(s.Lhs[0]) {
			tv := r.info.Types[s.Rhs[0]]
			_, tuple := tv.Type.(*types.Tuple)
			switch unparen(s.Rhs[0]).(type) {
			case *ast.CallExpr, *ast.BinaryExpr:
				if b, ok := tv.Type.(*types.Basic); tv.Value == nil && !tv.IsNil() && !tuple && !(ok && b.Info()&types.IsUntyped != 0) {
					split = true
				}
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		if op, ok := rmwOps[s.Tok]; ok && shared(s.Lhs[0]) {
			return r.rmw(s.Lhs[0], op, s.Rhs[0])
		}
		if split {
			// x.f = g(x.f): preemption between read and write
			t := r.tmp("T")
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: s.Rhs}, pstmt(),
				&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
		}
	case *ast.DeferStmt:
		x := r.call(s.Call)
		s.Call = x.(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.init(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else, nil)
		}
	case *ast.SwitchStmt:
		s.Init = r.init(s.Init)
		s.Tag = r.expr(s.Tag)
		r.cases(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.init(s.Init)
		s.Assign = r.init(s.Assign)
		r.cases(s.Body)
	case *ast.ForStmt:
		s.Init = r.init(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.init(s.Post)
		r.loopBody(s.Body)
	default:
		die("unknown statement %T", s)
	}
	return s
}

func (r *rw) init(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			break
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		return s
	}
	return r.plain(s)
}

var rmwOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}

// shared tells whether the lvalue may be seen by several goroutines (fields of
// structs; plain variables are not split).
func shared(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	for {
		switch x := s.X.(type) {
		case *ast.Ident:
			return true
		case *ast.SelectorExpr:
			s = x
		default:
			return false
		}
	}
}

// rmw makes a read-modify-write of a field in two steps.
func (r *rw) rmw(lhs ast.Expr, op token.Token, v ast.Expr) ast.Stmt {
	p, t := r.tmp("P"), r.tmp("T")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: lhs}}},
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: &ast.StarExpr{X: id(p)}, Op: op, Y: &ast.ParenExpr{X: v}}}},
		pstmt(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}}
}

func (r *rw) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.list(cc.Body)
	}
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && core(r.typeOf(c.Fun)).(*types.Signature).Results().Len() == 0 {
		return &ast.ExprStmt{X: call(sim("Go"), r.expr(c.Fun))}
	}
	if i, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[i].(*types.Builtin); ok {
			x := r.call(c)
			return &ast.ExprStmt{X: call(sim("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}})}
		}
	}
	b := &ast.BlockStmt{}
	ft := r.tmp("F")
	var args []ast.Expr
	pre := func(t *ast.Ident, v ast.Expr) {
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
	}
	type arg struct {
		e      ast.Expr
		const_ bool
	}
	var as []arg
	for _, a := range c.Args {
		tv := r.info.Types[a]
		as = append(as, arg{a, tv.Value != nil || tv.IsNil()})
	}
	pre(ft, r.expr(c.Fun))
	multi := false
	if len(c.Args) == 1 {
		if _, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			multi = true
		}
	}
	for _, a := range as {
		x := r.expr(a.e)
		if a.const_ || multi {
			args = append(args, x)
			continue
		}
		t := r.tmp("A")
		pre(t, x)
		args = append(args, id(t))
	}
	cc := &ast.CallExpr{Fun: id(ft), Args: args}
	if c.Ellipsis != token.NoPos {
		cc.Ellipsis = 1
	}
	b.List = append(b.List, &ast.ExprStmt{X: call(sim("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cc}}}})})
	return b
}

func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)} }

func (r *rw) selectStmt(s *ast.SelectStmt, lab *ast.Ident) ast.Stmt {
	b := &ast.BlockStmt{}
	hasDef := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	cl := call(sim("Select"), ast.NewIdent("false"))
	sw.Tag = cl
	k := 0
	var last *ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		sw.Body.List = append(sw.Body.List, nc)
		if cc.Comm == nil {
			hasDef = true
			nc.Body = r.list(cc.Body)
			continue
		}
		last = nc
		nc.List = []ast.Expr{intLit(k)}
		k++
		t := r.tmp("C")
		var body []ast.Stmt
		def := func(v ast.Expr) {
			b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
		}
		method := func(n string) ast.Expr { return call(&ast.SelectorExpr{X: id(t), Sel: ast.NewIdent(n)}) }
		recvOf := func(e ast.Expr) ast.Expr { return r.expr(unparen(e).(*ast.UnaryExpr).X) }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			def(call(call(sim("NewSend"), r.expr(cm.Chan)), r.expr(cm.Value)))
		case *ast.ExprStmt:
			def(call(sim("NewRecv"), recvOf(cm.X)))
		case *ast.AssignStmt:
			def(call(sim("NewRecv"), recvOf(cm.Rhs[0])))
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Val2"
			}
			r.exprs(cm.Lhs)
			body = append(body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{method(m)}})
		default:
			die("unknown select case %T", cm)
		}
		cl.Args = append(cl.Args, id(t))
		nc.Body = append(body, r.list(cc.Body)...)
	}
	if hasDef {
		cl.Args[0] = ast.NewIdent("true")
	} else if last != nil {
		last.List = nil // default: keeps terminating statement analysis valid
	}
	if k == 0 && !hasDef {
		b.List = append(b.List, &ast.ExprStmt{X: cl}, &ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})})
		return label(lab, b)
	}
	b.List = append(b.List, label(lab, sw))
	return b
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt, lab *ast.Ident) ast.Stmt {
	_, isCh := r.isChan(s.X)
	isMap := r.isMap(s.X)
	if !isCh && !isMap || isMap && isBlank(s.Key) && isBlank(s.Value) {
		s.X = r.expr(s.X)
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		r.loopBody(s.Body)
		return label(lab, s)
	}
	b := &ast.BlockStmt{}
	cont := r.tmp("R")
	b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{cont}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}})
	key, val := s.Key, s.Value
	if key != nil {
		key = r.expr(key)
	}
	if val != nil {
		val = r.expr(val)
	}
	r.loopBody(s.Body)
	tok := s.Tok
	assign := func(l, v ast.Expr, t token.Token) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: t, Rhs: []ast.Expr{v}}
	}
	ok := r.tmp("Ok")
	if isCh {
		v := r.tmp("V")
		var pre []ast.Stmt
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sim("Recv2"), id(cont))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
		if isBlank(key) {
			pre[0].(*ast.AssignStmt).Lhs[0] = ast.NewIdent("_")
		} else {
			t := tok
			if tok == token.DEFINE && r.old {
				b.List = append(b.List, assign(key, call(sim("ZeroC"), id(cont)), token.DEFINE))
				t = token.ASSIGN
			}
			pre = append(pre, assign(key, id(v), t))
		}
		b.List = append(b.List, label(lab, &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}))
		return b
	}
	k := r.tmp("K")
	v := r.tmp("V")
	pre := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(cont), Index: id(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
	}
	if isBlank(val) {
		pre[0].(*ast.AssignStmt).Lhs[0] = ast.NewIdent("_")
	}
	t := tok
	if tok == token.DEFINE && r.old {
		zk, zv := key, val
		if isBlank(zk) {
			zk = ast.NewIdent("_")
		}
		if isBlank(zv) {
			zv = ast.NewIdent("_")
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{zk, zv}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sim("ZeroKV"), id(cont))}})
		t = token.ASSIGN
	}
	if !isBlank(key) {
		pre = append(pre, assign(key, id(k), t))
	}
	if !isBlank(val) {
		pre = append(pre, assign(val, id(v), t))
	}
	b.List = append(b.List, label(lab, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
		X: call(ast.NewIdent("simMapKeys"), id(cont)), Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}))
	return b
}

// stripPos clears all positions so that the printer lays the file out afresh,
// but keeps the ones that carry meaning.
func stripPos(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Pointer || v.IsNil() {
			return true
		}
		e := v.Elem()
		if e.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < e.NumField(); i++ {
			fl := e.Field(i)
			if fl.Type() != reflect.TypeOf(token.Pos(0)) || !fl.CanSet() {
				continue
			}
			name := e.Type().Field(i).Name
			switch name {
			case "Ellipsis", "Lparen", "Rparen", "Assign", "Arrow":
				if fl.Int() != 0 {
					fl.SetInt(1)
				}
			default:
				fl.SetInt(0)
			}
		}
		return true
	})
}
