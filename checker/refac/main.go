// refac is a development tool: it applies random behaviour-preserving
// transformations to a scratch copy of the repository, so that the checks
// can be run on it. A check that raises an alarm there judges how the code is
// written, not what it does.
//
//	refac -dir COPY -seed N -count K [-kinds a,b] [-funcs substr,...]
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type cand struct {
	kind, fn, file string
	line           int
	edits          []edit
	tail           string // appended to the file
	fnKey          string
}

type ctx struct {
	pkg   *packages.Package
	file  *ast.File
	name  string
	src   []byte
	fd    *ast.FuncDecl
	info  *types.Info
	fset  *token.FileSet
	rnd   *rand.Rand
	out   *[]cand
	depth map[ast.Node]ast.Node // parents
}

var counter int

func (c *ctx) off(p token.Pos) int { return c.fset.Position(p).Offset }
func (c *ctx) text(n ast.Node) string {
	return string(c.src[c.off(n.Pos()):c.off(n.End())])
}
func (c *ctx) textBetween(a, b token.Pos) string { return string(c.src[c.off(a):c.off(b)]) }
func (c *ctx) add(kind string, at ast.Node, tail string, edits ...edit) {
	nm := c.fd.Name.Name
	if c.fd.Recv != nil {
		nm = types.ExprString(c.fd.Recv.List[0].Type) + "." + nm
	}
	*c.out = append(*c.out, cand{kind: kind, fn: nm, file: c.name, line: c.fset.Position(at.Pos()).Line, edits: edits, tail: tail, fnKey: c.name + ":" + nm})
}
func (c *ctx) rep(n ast.Node, t string) edit { return edit{c.off(n.Pos()), c.off(n.End()), t} }
func fresh(p string) string                  { counter++; return fmt.Sprintf("%sZ%d", p, counter) }

func (c *ctx) qual() (types.Qualifier, *bool) {
	ok := true
	return func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		for _, im := range c.file.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	}, &ok
}

func (c *ctx) typ(t types.Type) (string, bool) {
	q, ok := c.qual()
	s := types.TypeString(t, q)
	if b, is := t.(*types.Basic); is && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid) {
		return s, false
	}
	if strings.Contains(s, "invalid type") {
		return s, false
	}
	return s, *ok
}

// localsIn: the function-local variables used in the node but declared outside it.
func (c *ctx) localsIn(from, to token.Pos, nodes ...ast.Node) []*types.Var {
	seen := map[*types.Var]bool{}
	var res []*types.Var
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := c.info.Uses[id].(*types.Var)
			if !ok || v.IsField() || v.Parent() == nil || v.Parent() == c.pkg.Types.Scope() || v.Parent() == types.Universe {
				return true
			}
			if v.Pkg() != c.pkg.Types || v.Parent() == c.pkg.Types.Scope() {
				return true
			}
			if v.Pos() >= from && v.Pos() < to {
				return true
			}
			if !seen[v] {
				seen[v] = true
				res = append(res, v)
			}
			return true
		})
	}
	return res
}

// capt: variables used inside a function literal but declared outside it, and
// variables whose address is taken (explicitly or by a pointer method call).
func (c *ctx) unsafeVars() map[*types.Var]bool {
	res := map[*types.Var]bool{}
	ast.Inspect(c.fd, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			for _, v := range c.localsIn(x.Pos(), x.End(), x.Body) {
				res[v] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if v := c.rootVar(x.X); v != nil {
					res[v] = true
				}
			}
		case *ast.SelectorExpr:
			if s := c.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if f, ok := s.Obj().(*types.Func); ok {
					if r := f.Type().(*types.Signature).Recv(); r != nil {
						_, pr := r.Type().(*types.Pointer)
						_, px := c.info.TypeOf(x.X).(*types.Pointer)
						if pr && !px {
							if v := c.rootVar(x.X); v != nil {
								res[v] = true
							}
						}
					}
				}
			}
		}
		return true
	})
	return res
}

func (c *ctx) rootVar(e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if _, ok := c.info.TypeOf(x.X).Underlying().(*types.Pointer); ok {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if _, ok := c.info.TypeOf(x.X).Underlying().(*types.Array); !ok {
				return nil
			}
			e = x.X
		case *ast.Ident:
			v, _ := c.info.ObjectOf(x).(*types.Var)
			return v
		default:
			return nil
		}
	}
}

// assigned: variables assigned in the nodes (roots, and those written in place).
func (c *ctx) assigned(nodes ...ast.Node) map[*types.Var]bool {
	res := map[*types.Var]bool{}
	add := func(e ast.Expr) {
		if v := c.rootVar(e); v != nil {
			res[v] = true
		}
	}
	for _, n := range nodes {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					add(l)
				}
			case *ast.IncDecStmt:
				add(x.X)
			case *ast.RangeStmt:
				if x.Key != nil {
					add(x.Key)
				}
				if x.Value != nil {
					add(x.Value)
				}
			case *ast.DeclStmt:
				ast.Inspect(x, func(y ast.Node) bool {
					if id, ok := y.(*ast.Ident); ok {
						if v, ok := c.info.Defs[id].(*types.Var); ok {
							res[v] = true
						}
					}
					return true
				})
			}
			return true
		})
	}
	return res
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil && f(x) {
			found = true
		}
		return !found
	})
	return found
}

func hasFuncLit(n ast.Node) bool {
	return has(n, func(x ast.Node) bool { _, ok := x.(*ast.FuncLit); return ok })
}

func hasRecover(n ast.Node) bool {
	return has(n, func(x ast.Node) bool { id, ok := x.(*ast.Ident); return ok && id.Name == "recover" })
}

// escapes: control leaves the statements other than by falling through.
func escapes(st []ast.Stmt, returnsOK bool) bool {
	bad := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				if !returnsOK {
					bad = true
				}
			case *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt:
				bad = true
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO {
					bad = true
				}
				if x.Tok == token.CONTINUE && !loop || x.Tok == token.BREAK && !loop && !sw {
					bad = true
				}
			case *ast.ForStmt:
				walk(x.Body, true, true)
				return false
			case *ast.RangeStmt:
				walk(x.Body, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(x, loop, true)
				return false
			}
			return true
		})
	}
	for _, s := range st {
		walk(&ast.BlockStmt{List: []ast.Stmt{s}}, false, false)
	}
	return bad
}

func terminating(st []ast.Stmt) bool {
	if len(st) == 0 {
		return false
	}
	switch x := st[len(st)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	case *ast.ExprStmt:
		if call, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func pure(e ast.Expr) bool {
	return !has(e, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" {
				return false
			}
			return true
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.FuncLit:
			return true
		case *ast.UnaryExpr:
			return x.Op == token.ARROW || x.Op == token.AND
		}
		return false
	})
}

func (c *ctx) not(e ast.Expr) string {
	if b, ok := e.(*ast.BinaryExpr); ok && c.rnd.Intn(2) == 0 {
		m := map[token.Token]string{token.EQL: "!=", token.NEQ: "=="}
		bt, _ := c.info.TypeOf(b.X).Underlying().(*types.Basic)
		if bt != nil && bt.Info()&types.IsInteger != 0 {
			m[token.LSS], m[token.GTR], m[token.LEQ], m[token.GEQ] = ">=", "<=", ">", "<"
		}
		if o, ok := m[b.Op]; ok {
			return c.text(b.X) + " " + o + " " + c.text(b.Y)
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return c.text(u.X)
	}
	return "!(" + c.text(e) + ")"
}

func (c *ctx) stmtsText(st []ast.Stmt) string {
	if len(st) == 0 {
		return ""
	}
	return c.textBetween(st[0].Pos(), st[len(st)-1].End())
}

func (c *ctx) bodyText(b *ast.BlockStmt) string { return c.textBetween(b.Lbrace+1, b.Rbrace) }

// helper writes a function (or a method on the receiver) and its call.
func (c *ctx) helper(vars []*types.Var, results string, body string, pre string) (call, decl string, ok bool) {
	var recv *types.Var
	if c.fd.Recv != nil && len(c.fd.Recv.List[0].Names) == 1 {
		recv, _ = c.info.Defs[c.fd.Recv.List[0].Names[0]].(*types.Var)
	}
	name := fresh(pre)
	var ps, as []string
	rc := ""
	for _, v := range vars {
		if v == recv && c.rnd.Intn(3) > 0 {
			rc = c.text(c.fd.Recv) + " "
			call = v.Name() + "."
			continue
		}
		t, ok := c.typ(v.Type())
		if !ok {
			return "", "", false
		}
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	call += name + "(" + strings.Join(as, ", ") + ")"
	decl = "\nfunc " + rc + name + "(" + strings.Join(ps, ", ") + ")" + results + " {\n" + body + "\n}\n"
	return call, decl, true
}

func (c *ctx) block(list []ast.Stmt, kind string, owner ast.Node) {
	uns := c.unsafeVars()
	last := len(list) - 1
	for i, s := range list {
		if ifs, ok := s.(*ast.IfStmt); ok && ifs.Init == nil {
			c.ifStmt(ifs, list, i)
			if i == last && ifs.Else == nil && (kind == "for" || kind == "range") {
				c.add("earlyContinue", s, "", c.rep(s, "if "+c.not(ifs.Cond)+" {\ncontinue\n}\n"+c.bodyText(ifs.Body)))
			}
			if i == last && ifs.Else == nil && kind == "func" && c.fd.Type.Results == nil && owner == c.fd {
				c.add("earlyReturn", s, "", c.rep(s, "if "+c.not(ifs.Cond)+" {\nreturn\n}\n"+c.bodyText(ifs.Body)))
			}
			if i < last && ifs.Else == nil && len(ifs.Body.List) == 1 {
				rest := c.textBetween(ifs.End(), list[last].End())
				if b, ok := ifs.Body.List[0].(*ast.BranchStmt); ok && b.Tok == token.CONTINUE && b.Label == nil && (kind == "for" || kind == "range") {
					c.add("wrapContinue", s, "", edit{c.off(s.Pos()), c.off(list[last].End()), "if " + c.not(ifs.Cond) + " {" + rest + "\n}"})
				}
				if r, ok := ifs.Body.List[0].(*ast.ReturnStmt); ok && owner == c.fd && kind == "func" {
					if len(r.Results) == 0 && c.fd.Type.Results == nil {
						c.add("wrapReturn", s, "", edit{c.off(s.Pos()), c.off(list[last].End()), "if " + c.not(ifs.Cond) + " {" + rest + "\n}"})
					} else if len(r.Results) > 0 && terminating(list) {
						c.add("elseReturn", s, "", edit{c.off(ifs.End()), c.off(list[last].End()), " else {" + rest + "\n}"})
						c.add("swapReturn", s, "", edit{c.off(s.Pos()), c.off(list[last].End()), "if " + c.not(ifs.Cond) + " {" + rest + "\n}\n" + c.text(r)})
					}
				}
			}
			if i < last && ifs.Else != nil {
				if eb, ok := ifs.Else.(*ast.BlockStmt); ok && terminating(ifs.Body.List) && !declares(eb.List) {
					c.add("dropElse", s, "", edit{c.off(ifs.Body.End()), c.off(ifs.End()), "\n" + c.bodyText(eb)})
				}
			}
		}
		switch x := s.(type) {
		case *ast.RangeStmt:
			c.rangeStmt(x, uns)
		case *ast.ForStmt:
			if x.Init == nil && x.Post == nil && x.Cond != nil {
				c.add("forBreak", s, "", edit{c.off(x.For), c.off(x.Body.Lbrace) + 1, "for {\nif " + c.not(x.Cond) + " {\nbreak\n}\n"})
			}
		case *ast.SwitchStmt:
			c.switchStmt(x)
		case *ast.ReturnStmt:
			if len(x.Results) == 1 && c.fd.Type.Results != nil && !hasFuncLit(x) {
				if _, isT := c.info.TypeOf(x.Results[0]).(*types.Tuple); !isT {
					if _, ok := x.Results[0].(*ast.CallExpr); ok {
						n := fresh("ret")
						c.add("tempReturn", s, "", c.rep(s, n+" := "+c.text(x.Results[0])+"\nreturn "+n))
					}
				}
			}
			if len(x.Results) == 1 {
				if b, ok := x.Results[0].(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && owner == c.fd {
					if b.Op == token.LAND {
						c.add("returnSplit", s, "", c.rep(s, "if "+c.not(b.X)+" {\nreturn false\n}\nreturn "+c.text(b.Y)))
					} else {
						c.add("returnSplit", s, "", c.rep(s, "if "+c.text(b.X)+" {\nreturn true\n}\nreturn "+c.text(b.Y)))
					}
				}
			}
		case *ast.DeferStmt:
			if len(x.Call.Args) == 0 {
				if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
					if sel, ok := x.Call.Fun.(*ast.SelectorExpr); ok {
						if id, ok := sel.X.(*ast.Ident); ok && !c.reassigned(id) {
							c.add("deferWrap", s, "", c.rep(x.Call, "func() {\n"+c.text(x.Call)+"\n}()"))
						}
					}
				}
			}
		case *ast.AssignStmt:
			c.assignStmt(x, list, i)
		case *ast.ExprStmt:
			if call, ok := x.X.(*ast.CallExpr); ok {
				c.hoistArg(s, call)
			}
		}
	}
	// extract statements
	if len(list) >= 2 {
		for try := 0; try < 3; try++ {
			i := c.rnd.Intn(len(list))
			n := 1 + c.rnd.Intn(4)
			if i+n > len(list) {
				n = len(list) - i
			}
			c.extractStmts(list[i:i+n], list[i+n:], uns, kind)
		}
	}
	if len(list) >= 1 {
		c.extractStmts(list, nil, uns, kind) // whole block
	}
	if kind == "func" && owner == c.fd && len(list) >= 3 {
		for try := 0; try < 3; try++ {
			c.extractTail(list[1+c.rnd.Intn(len(list)-1):], uns)
		}
	}
}

func (c *ctx) reassigned(id *ast.Ident) bool {
	v, _ := c.info.ObjectOf(id).(*types.Var)
	if v == nil {
		return true
	}
	n := 0
	ast.Inspect(c.fd, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if li, ok := l.(*ast.Ident); ok && c.info.ObjectOf(li) == v {
					n++
				}
			}
		}
		return true
	})
	return n > 1
}

func declares(st []ast.Stmt) bool {
	for _, s := range st {
		switch x := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				return true
			}
		}
	}
	return false
}

func (c *ctx) ifStmt(ifs *ast.IfStmt, list []ast.Stmt, i int) {
	if eb, ok := ifs.Else.(*ast.BlockStmt); ok {
		c.add("invertIf", ifs, "", c.rep(ifs, "if "+c.not(ifs.Cond)+" {"+c.bodyText(eb)+"} else {"+c.bodyText(ifs.Body)+"}"))
	}
	if !hasFuncLit(ifs.Cond) {
		n := fresh("cond")
		c.add("tempCond", ifs, "", edit{c.off(ifs.If), c.off(ifs.Cond.End()), n + " := " + c.text(ifs.Cond) + "\nif " + n})
	}
	if ifs.Else == nil {
		if b, ok := ifs.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
			c.add("splitAnd", ifs, "", c.rep(ifs, "if "+c.text(b.X)+" {\nif "+c.text(b.Y)+" {"+c.bodyText(ifs.Body)+"}\n}"))
		}
		if b, ok := ifs.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && terminating(ifs.Body.List) {
			c.add("splitOr", ifs, "", c.rep(ifs, "if "+c.text(b.X)+" {"+c.bodyText(ifs.Body)+"}\nif "+c.text(b.Y)+" {"+c.bodyText(ifs.Body)+"}"))
		}
		if len(ifs.Body.List) == 1 {
			if in, ok := ifs.Body.List[0].(*ast.IfStmt); ok && in.Init == nil && in.Else == nil {
				c.add("mergeAnd", ifs, "", c.rep(ifs, "if ("+c.text(ifs.Cond)+") && ("+c.text(in.Cond)+") {"+c.bodyText(in.Body)+"}"))
			}
		}
	}
	if b, ok := ifs.Cond.(*ast.BinaryExpr); ok {
		switch b.Op {
		case token.EQL:
			c.add("negCmp", b, "", c.rep(b, "!("+c.text(b.X)+" != "+c.text(b.Y)+")"))
			if pure(b.X) && pure(b.Y) {
				c.add("flipCmp", b, "", c.rep(b, c.text(b.Y)+" == "+c.text(b.X)))
			}
			if c.text(b.Y) == "0" && strings.HasPrefix(c.text(b.X), "len(") {
				c.add("lenCmp", b, "", c.rep(b, c.text(b.X)+" < 1"))
			}
		case token.NEQ:
			c.add("negCmp", b, "", c.rep(b, "!("+c.text(b.X)+" == "+c.text(b.Y)+")"))
			if pure(b.X) && pure(b.Y) {
				c.add("flipCmp", b, "", c.rep(b, c.text(b.Y)+" != "+c.text(b.X)))
			}
			if c.text(b.Y) == "0" && strings.HasPrefix(c.text(b.X), "len(") {
				c.add("lenCmp", b, "", c.rep(b, c.text(b.X)+" > 0"))
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			m := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
			if pure(b.X) && pure(b.Y) {
				c.add("flipCmp", b, "", c.rep(b, c.text(b.Y)+" "+m[b.Op]+" "+c.text(b.X)))
			}
		case token.LAND:
			c.add("deMorgan", b, "", c.rep(b, "!("+c.not(b.X)+" || "+c.not(b.Y)+")"))
			if pure(b.X) && pure(b.Y) && !strings.Contains(c.text(b), "nil") && !strings.Contains(c.text(b), ".") {
				c.add("flipAnd", b, "", c.rep(b, c.text(b.Y)+" && "+c.text(b.X)))
			}
		case token.LOR:
			c.add("deMorgan", b, "", c.rep(b, "!("+"!("+c.text(b.X)+") && !("+c.text(b.Y)+"))"))
		}
	}
	// else-if chain to switch
	if ei, ok := ifs.Else.(*ast.IfStmt); ok && ei.Init == nil {
		if !has(ifs, func(x ast.Node) bool { b, ok := x.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
			s := "switch {\n"
			var cur ast.Stmt = ifs
			good := true
			for cur != nil {
				switch x := cur.(type) {
				case *ast.IfStmt:
					if x.Init != nil {
						good = false
					}
					s += "case " + c.text(x.Cond) + ":\n" + c.bodyText(x.Body) + "\n"
					cur = x.Else
				case *ast.BlockStmt:
					s += "default:\n" + c.bodyText(x) + "\n"
					cur = nil
				}
			}
			if good {
				c.add("ifToSwitch", ifs, "", c.rep(ifs, s+"}"))
			}
		}
		if eb := ei; eb != nil {
			c.add("elseIfNest", ifs, "", c.rep(ei, "{\n"+c.text(ei)+"\n}"))
		}
	}
}

func (c *ctx) rangeStmt(x *ast.RangeStmt, uns map[*types.Var]bool) {
	if x.Tok != token.DEFINE {
		return
	}
	_, ok := c.info.TypeOf(x.X).Underlying().(*types.Slice)
	if !ok {
		return
	}
	for _, e := range []ast.Expr{x.Key, x.Value} {
		if id, ok := e.(*ast.Ident); ok {
			if v, ok := c.info.Defs[id].(*types.Var); ok {
				if uns[v] {
					return
				}
				if e == x.Key && c.assigned(x.Body)[v] {
					return
				}
			}
		}
	}
	key := "_"
	if x.Key != nil {
		key = c.text(x.Key)
	}
	if key == "_" {
		key = fresh("i")
	}
	val := "_"
	if x.Value != nil {
		val = c.text(x.Value)
	}
	mk := func(s string) string {
		r := "for " + key + " := 0; " + key + " < len(" + s + "); " + key + "++ {\n"
		if val != "_" {
			r += val + " := " + s + "[" + key + "]\n"
		}
		return r + c.bodyText(x.Body) + "}"
	}
	l := fresh("list")
	c.add("rangeIndexTemp", x, "", c.rep(x, l+" := "+c.text(x.X)+"\n"+mk(l)))
	if id, ok := x.X.(*ast.Ident); ok {
		if v, _ := c.info.Uses[id].(*types.Var); v != nil && !uns[v] && !c.assigned(x.Body)[v] {
			c.add("rangeIndex", x, "", c.rep(x, mk(c.text(x.X))))
		}
	}
}

func (c *ctx) switchStmt(x *ast.SwitchStmt) {
	if x.Init != nil || has(x, func(n ast.Node) bool {
		b, ok := n.(*ast.BranchStmt)
		return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
	}) {
		return
	}
	pre, tag := "", ""
	if x.Tag != nil {
		if tv := c.info.Types[x.Tag]; tv.Value != nil {
			return
		}
		tag = fresh("tag")
		pre = tag + " := " + c.text(x.Tag) + "\n"
		if id, ok := x.Tag.(*ast.Ident); ok {
			if v, _ := c.info.Uses[id].(*types.Var); v != nil && c.rnd.Intn(2) == 0 {
				pre, tag = "", id.Name
			}
		}
	}
	s, def := "", ""
	hasDef := false
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CaseClause)
		body := c.stmtsText(cc.Body)
		if cc.List == nil {
			def, hasDef = body, true
			continue
		}
		var conds []string
		for _, e := range cc.List {
			if tag != "" {
				conds = append(conds, tag+" == "+c.text(e))
			} else {
				conds = append(conds, "("+c.text(e)+")")
			}
		}
		if s != "" {
			s += " else "
		}
		s += "if " + strings.Join(conds, " || ") + " {\n" + body + "\n}"
	}
	if s == "" {
		return
	}
	if hasDef {
		s += " else {\n" + def + "\n}"
	}
	c.add("switchToIf", x, "", c.rep(x, pre+s))
}

func (c *ctx) hoistArg(s ast.Stmt, call *ast.CallExpr) {
	if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
		if !pure(sel.X) {
			return
		}
	} else if _, ok := call.Fun.(*ast.Ident); !ok {
		return
	}
	for i, a := range call.Args {
		ac, ok := a.(*ast.CallExpr)
		if ok {
			tv := c.info.Types[ac.Fun]
			if _, isT := c.info.TypeOf(ac).(*types.Tuple); isT || tv.IsType() || tv.IsBuiltin() && len(call.Args) == 0 {
				return
			}
			if c.info.TypeOf(ac) == nil || hasFuncLit(ac) {
				return
			}
			n := fresh("arg")
			c.add("hoistArg", s, "", edit{c.off(s.Pos()), c.off(s.Pos()), n + " := " + c.text(ac) + "\n"}, c.rep(ac, n))
			return
		}
		switch a.(type) {
		case *ast.BasicLit:
		case *ast.Ident:
			if v, ok := c.info.Uses[a.(*ast.Ident)].(*types.Var); ok && i >= 0 && v.Parent() == c.pkg.Types.Scope() {
				return
			}
		default:
			return
		}
	}
}

func (c *ctx) assignStmt(x *ast.AssignStmt, list []ast.Stmt, i int) {
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if x.Tok == token.DEFINE {
			if id, ok := x.Lhs[0].(*ast.Ident); ok {
				if v, ok := c.info.Defs[id].(*types.Var); ok {
					if t, ok := c.typ(v.Type()); ok {
						c.add("varDecl", x, "", c.rep(x, "var "+id.Name+" "+t+" = "+c.text(x.Rhs[0])))
						c.add("varThenSet", x, "", c.rep(x, "var "+id.Name+" "+t+"\n"+id.Name+" = "+c.text(x.Rhs[0])))
					}
				}
			}
		}
		if call, ok := x.Rhs[0].(*ast.CallExpr); ok {
			if _, ok := x.Lhs[0].(*ast.Ident); ok {
				c.hoistArg(x, call)
			}
			// x = append(x, v) where v is a call
		}
		if i+1 < len(list) && x.Tok == token.DEFINE && pure(x.Rhs[0]) {
			if y, ok := list[i+1].(*ast.AssignStmt); ok && y.Tok == token.DEFINE && len(y.Lhs) == 1 && pure(y.Rhs[0]) {
				ax, ay := c.text(x.Lhs[0]), c.text(y.Lhs[0])
				use := func(e ast.Expr, n string) bool {
					return has(e, func(z ast.Node) bool { id, ok := z.(*ast.Ident); return ok && id.Name == n })
				}
				if ax != ay && !use(y.Rhs[0], ax) && !use(x.Rhs[0], ay) {
					c.add("swapStmts", x, "", c.rep(x, c.text(y)), c.rep(y, c.text(x)))
				}
			}
		}
	}
	if x.Tok == token.ADD_ASSIGN && len(x.Lhs) == 1 && pure(x.Lhs[0]) {
		c.add("opAssign", x, "", c.rep(x, c.text(x.Lhs[0])+" = "+c.text(x.Lhs[0])+" + ("+c.text(x.Rhs[0])+")"))
	}
}

func (c *ctx) extractStmts(st, rest []ast.Stmt, uns map[*types.Var]bool, kind string) {
	if escapes(st, false) {
		return
	}
	n := &ast.BlockStmt{List: st}
	if hasRecover(n) {
		return
	}
	from, to := st[0].Pos(), st[len(st)-1].End()
	nodes := make([]ast.Node, len(st))
	for i, s := range st {
		nodes[i] = s
	}
	ins := c.localsIn(from, to, nodes...)
	ass := c.assigned(nodes...)
	for v := range ass {
		if uns[v] {
			return
		}
	}
	for _, v := range ins {
		if uns[v] && (ass[v]) {
			return
		}
		switch v.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			if uns[v] {
				return
			}
		}
		// a captured variable might be changed by a closure called in st
		if uns[v] && c.assigned(c.fd)[v] && c.reassignedVar(v) {
			return
		}
	}
	// outputs: declared in st and used in rest; declared outside and assigned
	var decl, outs []*types.Var
	usedAfter := func(v *types.Var) bool {
		u := false
		ast.Inspect(c.fd, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok && c.info.Uses[id] == v && (id.Pos() >= to) {
				u = true
			}
			return !u
		})
		return u
	}
	for v := range ass {
		inside := v.Pos() >= from && v.Pos() < to
		if inside {
			if usedAfter(v) {
				decl = append(decl, v)
			}
		} else {
			outs = append(outs, v)
		}
	}
	byPos := func(l []*types.Var) { sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() }) }
	byPos(decl)
	byPos(outs)
	if len(decl)+len(outs) > 3 {
		return
	}
	var ts, ns []string
	pre := ""
	for _, v := range append(append([]*types.Var{}, decl...), outs...) {
		t, ok := c.typ(v.Type())
		if !ok {
			return
		}
		ts = append(ts, t)
		ns = append(ns, v.Name())
	}
	for _, v := range decl {
		t, _ := c.typ(v.Type())
		if len(outs) > 0 {
			pre += "var " + v.Name() + " " + t + "\n"
		}
	}
	res := ""
	body := c.stmtsText(st)
	if len(ts) == 1 {
		res = " " + ts[0]
	} else if len(ts) > 1 {
		res = " (" + strings.Join(ts, ", ") + ")"
	}
	if len(ts) > 0 {
		body += "\nreturn " + strings.Join(ns, ", ")
	}
	call, d, ok := c.helper(ins, res, body, "part")
	if !ok {
		return
	}
	if len(ns) > 0 {
		if len(outs) == 0 {
			call = strings.Join(ns, ", ") + " := " + call
		} else {
			call = strings.Join(ns, ", ") + " = " + call
		}
	}
	c.add("extractStmts", st[0], d, edit{c.off(from), c.off(to), pre + call})
}

func (c *ctx) reassignedVar(v *types.Var) bool {
	n := 0
	ast.Inspect(c.fd, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if c.rootVar(l) == v {
					n++
				}
			}
		}
		return true
	})
	return n > 1
}

func (c *ctx) extractTail(st []ast.Stmt, uns map[*types.Var]bool) {
	if escapes(st, true) {
		return
	}
	if hasRecover(&ast.BlockStmt{List: st}) {
		return
	}
	res := ""
	if r := c.fd.Type.Results; r != nil {
		for _, f := range r.List {
			if len(f.Names) > 0 {
				return
			}
		}
		res = " " + c.text(r)
	}
	from, to := st[0].Pos(), st[len(st)-1].End()
	nodes := make([]ast.Node, len(st))
	for i, s := range st {
		nodes[i] = s
	}
	ins := c.localsIn(from, to, nodes...)
	for _, v := range ins {
		if uns[v] {
			return
		}
	}
	call, d, ok := c.helper(ins, res, c.stmtsText(st), "tail")
	if !ok {
		return
	}
	if res != "" {
		call = "return " + call
	}
	c.add("extractTail", st[0], d, edit{c.off(from), c.off(to), call})
}

func (c *ctx) exprs() {
	uns := c.unsafeVars()
	lhs := map[ast.Node]bool{}
	skip := map[ast.Node]bool{}
	ast.Inspect(c.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				ast.Inspect(l, func(y ast.Node) bool { lhs[y] = true; return true })
			}
		case *ast.IncDecStmt:
			ast.Inspect(x.X, func(y ast.Node) bool { lhs[y] = true; return true })
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				lhs[x.X] = true
			}
		case *ast.DeferStmt:
			skip[x.Call] = true
		case *ast.GoStmt:
			skip[x.Call] = true
		case *ast.ExprStmt:
			if call, ok := x.X.(*ast.CallExpr); ok {
				_ = call
				skip[x.X] = true
			}
		case *ast.CallExpr:
			skip[x.Fun] = true
		case *ast.SelectorExpr:
			if s := c.info.Selections[x]; s != nil {
				lhs[x.X] = lhs[x.X] || false
			}
		case *ast.CaseClause:
			for _, e := range x.List {
				skip[e] = true
			}
		}
		return true
	})
	ast.Inspect(c.fd.Body, func(n ast.Node) bool {
		e, ok := n.(ast.Expr)
		if !ok || lhs[n] || skip[n] {
			return true
		}
		switch x := e.(type) {
		case *ast.FuncLit:
			return true
		case *ast.BasicLit:
			if x.Kind == token.STRING && len(x.Value) > 2 && c.rnd.Intn(4) == 0 {
				nm := fresh("txt")
				c.add("constHoist", x, "\nconst "+nm+" = "+x.Value+"\n", c.rep(x, nm))
			}
			return true
		case *ast.CallExpr, *ast.BinaryExpr:
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.CompositeLit:
			if c.rnd.Intn(4) > 0 {
				return true
			}
			if s, ok := e.(*ast.SelectorExpr); ok {
				if sel := c.info.Selections[s]; sel == nil || sel.Kind() != types.FieldVal {
					return true
				}
				switch c.info.TypeOf(e).Underlying().(type) {
				case *types.Struct, *types.Array:
					return true
				}
			}
		default:
			return true
		}
		tv := c.info.Types[e]
		if tv.Value != nil || tv.Type == nil || tv.IsType() || tv.IsVoid() || tv.IsNil() {
			return true
		}
		if _, isT := tv.Type.(*types.Tuple); isT {
			return true
		}
		if hasFuncLit(e) || hasRecover(e) || has(e, func(x ast.Node) bool {
			u, ok := x.(*ast.UnaryExpr)
			return ok && u.Op == token.AND && c.rootVar(u.X) != nil
		}) {
			return true
		}
		// comma-ok forms
		if _, ok := e.(*ast.IndexExpr); ok {
			if c.commaOk(e) {
				return true
			}
		}
		t, ok := c.typ(tv.Type)
		if !ok {
			return true
		}
		ins := c.localsIn(e.Pos(), e.End(), e)
		for _, v := range ins {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				if uns[v] {
					return true
				}
			}
		}
		call, d, ok := c.helper(ins, " "+t, "return "+c.text(e), "get")
		if ok {
			c.add("extractExpr", e, d, c.rep(e, call))
		}
		return true
	})
	// rename locals
	var vars []*types.Var
	occ := map[*types.Var][]*ast.Ident{}
	ast.Inspect(c.fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name != "_" {
			if v, ok := c.info.ObjectOf(id).(*types.Var); ok && !v.IsField() && v.Pkg() == c.pkg.Types && v.Parent() != c.pkg.Types.Scope() {
				if occ[v] == nil {
					vars = append(vars, v)
				}
				occ[v] = append(occ[v], id)
			}
		}
		return true
	})
	for _, v := range vars {
		if v.Pos() < c.fd.Pos() || v.Pos() > c.fd.End() {
			continue
		}
		nm := fresh(v.Name())
		var es []edit
		for _, id := range occ[v] {
			es = append(es, c.rep(id, nm))
		}
		c.add("renameLocal", occ[v][0], "", es...)
	}
	// inline one-expression functions
	ast.Inspect(c.fd.Body, func(n ast.Node) bool {
		call, ok := n.(*ast.CallExpr)
		if !ok || call.Ellipsis.IsValid() {
			return true
		}
		c.inline(call)
		return true
	})
}

func (c *ctx) commaOk(e ast.Expr) bool {
	bad := false
	ast.Inspect(c.fd.Body, func(n ast.Node) bool {
		if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 2 && len(a.Rhs) == 1 && a.Rhs[0] == e {
			bad = true
		}
		return true
	})
	return bad
}

type fsrc struct {
	c  *ctx
	fd *ast.FuncDecl
}

var funcSrc = map[*types.Func]fsrc{}

func (c *ctx) inline(call *ast.CallExpr) {
	var f *types.Func
	var recvE ast.Expr
	switch x := call.Fun.(type) {
	case *ast.Ident:
		f, _ = c.info.Uses[x].(*types.Func)
	case *ast.SelectorExpr:
		f, _ = c.info.Uses[x.Sel].(*types.Func)
		recvE = x.X
	}
	if f == nil {
		return
	}
	fs, ok := funcSrc[f]
	if !ok || fs.c.pkg != c.pkg || fs.fd == c.fd || len(fs.fd.Body.List) != 1 {
		return
	}
	r, ok := fs.fd.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 || hasFuncLit(r) {
		return
	}
	sub := map[types.Object]string{}
	simple := func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.Ident:
			return true
		case *ast.BasicLit:
			return true
		case *ast.SelectorExpr:
			return pure(e)
		}
		return false
	}
	if recvE != nil && fs.fd.Recv != nil {
		if !simple(recvE) || len(fs.fd.Recv.List[0].Names) == 0 {
			return
		}
		o := fs.c.info.Defs[fs.fd.Recv.List[0].Names[0]]
		if !types.Identical(o.Type(), c.info.TypeOf(recvE)) {
			return
		}
		sub[o] = c.text(recvE)
	}
	var names []*ast.Ident
	for _, p := range fs.fd.Type.Params.List {
		names = append(names, p.Names...)
	}
	if len(names) != len(call.Args) || f.Type().(*types.Signature).Variadic() {
		return
	}
	for i, nm := range names {
		o := fs.c.info.Defs[nm]
		if o == nil {
			continue
		}
		if !simple(call.Args[i]) || !types.Identical(o.Type(), c.info.TypeOf(call.Args[i])) {
			return
		}
		sub[o] = c.text(call.Args[i])
	}
	e := r.Results[0]
	if !types.Identical(fs.c.info.TypeOf(e), c.info.TypeOf(call)) {
		return
	}
	t := ""
	at := fs.c.off(e.Pos())
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if s, ok := sub[fs.c.info.Uses[id]]; ok && fs.c.info.Uses[id] != nil {
				t += string(fs.c.src[at:fs.c.off(id.Pos())]) + s
				at = fs.c.off(id.End())
			}
		}
		return true
	})
	t += string(fs.c.src[at:fs.c.off(e.End())])
	if _, isCall := e.(*ast.CallExpr); !isCall {
		t = "(" + t + ")"
	}
	c.add("inlineCall", call, "", c.rep(call, t))
}

func main() {
	dir := flag.String("dir", "", "")
	seed := flag.Int64("seed", 1, "")
	count := flag.Int("count", 15, "")
	kinds := flag.String("kinds", "", "")
	funcs := flag.String("funcs", "", "")
	list := flag.Bool("list", false, "only count candidates")
	only := flag.String("only", "", "comma separated indexes of the chosen candidates to apply")
	flag.Parse()
	rnd := rand.New(rand.NewSource(*seed))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	imps := map[string]*types.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) { imps[p.PkgPath] = p.Types })
	var all []cand
	owner := map[string]*packages.Package{}
	srcs := map[string][]byte{}
	var ctxs []*ctx
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(name)
			srcs[name], owner[name] = src, p
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				c := &ctx{pkg: p, file: f, name: name, src: src, fd: fd, info: p.TypesInfo, fset: p.Fset, rnd: rnd, out: &all}
				if fo, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					funcSrc[fo] = fsrc{c, fd}
				}
				ctxs = append(ctxs, c)
			}
		}
	}
	for _, c := range ctxs {
		fd := c.fd
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncLit:
					c.block(x.Body.List, "func", x)
				case *ast.ForStmt:
					c.block(x.Body.List, "for", x)
				case *ast.RangeStmt:
					c.block(x.Body.List, "range", x)
				case *ast.IfStmt:
					c.block(x.Body.List, "if", x)
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						c.block(b.List, "if", x)
					}
				}
				return true
			})
		}
		c.block(fd.Body.List, "func", fd)
		walk(fd.Body)
		c.exprs()
	}
	filter := func(k, l string) bool {
		if l == "" {
			return true
		}
		for _, s := range strings.Split(l, ",") {
			if strings.Contains(k, s) {
				return true
			}
		}
		return false
	}
	if *list {
		n := map[string]int{}
		for _, c := range all {
			n[c.kind]++
		}
		fmt.Println(len(all), n)
		return
	}
	// choose a kind first, so that rare kinds are seen
	byKind := map[string][]cand{}
	var ks []string
	for _, c := range all {
		if filter(c.kind, *kinds) && filter(c.file+":"+c.fn, *funcs) {
			if byKind[c.kind] == nil {
				ks = append(ks, c.kind)
			}
			byKind[c.kind] = append(byKind[c.kind], c)
		}
	}
	sort.Strings(ks)
	used := map[string]bool{}
	var chosen []cand
	check := func(c cand) bool {
		p := owner[c.file]
		fset := token.NewFileSet()
		var fs []*ast.File
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			src := srcs[name]
			if name == c.file {
				src = apply(src, []cand{c})
			}
			nf, err := parser.ParseFile(fset, name, src, 0)
			if err != nil {
				return false
			}
			fs = append(fs, nf)
		}
		bad := false
		tc := types.Config{Importer: impMap(imps), Error: func(error) { bad = true }, GoVersion: "go1.16"}
		tc.Check(p.PkgPath, fset, fs, nil)
		return !bad
	}
	weight := map[string]int{"extractStmts": 6, "extractTail": 4, "extractExpr": 5, "inlineCall": 3, "rangeIndexTemp": 2, "rangeIndex": 2}
	var wk []string
	for _, k := range ks {
		w := weight[k]
		if w == 0 {
			w = 1
		}
		for ; w > 0; w-- {
			wk = append(wk, k)
		}
	}
	for try := 0; try < 40**count && len(chosen) < *count && len(wk) > 0; try++ {
		l := byKind[wk[rnd.Intn(len(wk))]]
		c := l[rnd.Intn(len(l))]
		if used[c.fnKey] {
			continue
		}
		if !check(c) {
			continue
		}
		used[c.fnKey] = true
		chosen = append(chosen, c)
	}
	if *only != "" {
		var keep []cand
		for _, s := range strings.Split(*only, ",") {
			var i int
			fmt.Sscan(s, &i)
			if i < len(chosen) {
				keep = append(keep, chosen[i])
			}
		}
		chosen = keep
	}
	byFile := map[string][]cand{}
	for i, c := range chosen {
		rel, _ := filepath.Rel(*dir, c.file)
		fmt.Printf("%d %s %s %s:%d\n", i, c.kind, c.fn, rel, c.line)
		byFile[c.file] = append(byFile[c.file], c)
	}
	for f, cs := range byFile {
		os.WriteFile(f, apply(srcs[f], cs), 0644)
	}
}

func apply(src []byte, cs []cand) []byte {
	var es []edit
	tail := ""
	for _, c := range cs {
		es = append(es, c.edits...)
		tail += c.tail
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out []byte
	at := 0
	for _, e := range es {
		if e.from < at {
			continue
		}
		out = append(out, src[at:e.from]...)
		out = append(out, e.text...)
		at = e.to
	}
	out = append(out, src[at:]...)
	return append(out, tail...)
}

type impMap map[string]*types.Package

func (m impMap) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}
