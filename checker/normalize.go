package main

// Normalisation of the source before it is analysed.
//
// Moving statements into a new helper function changes nothing a program does,
// so it must not change what a rule decides either. Functions that are not in
// the list of functions the rules were written against (funcs.txt) are put back
// where they are called: the call is replaced by the body of the function, with
// its parameters and results as local variables. The result is a program with
// the same behaviour, which is then analysed instead. A call that cannot be
// replaced (a function used as a value, deferred, recursive, generic, behind a
// short-circuit operator ...) is left alone. A function that was only renamed
// (same package, receiver, signature and body) gets its old name back.
//
// On a tree without new functions this step does nothing.

import (
	"crypto/sha256"
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

//go:embed funcs.txt
var knownFuncsText string

type knownFunc struct{ dir, recv, name, hash string }

func (k knownFunc) id() string { return k.dir + "|" + k.recv + "|" + k.name }

func recvName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return ""
	}
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name
	}
	return "?"
}

// declHash: the tokens of a declaration, without its own name.
func declHash(src []byte, from, to int, name string) string {
	fs := token.NewFileSet()
	b := src[from:to]
	f := fs.AddFile("", -1, len(b))
	var s scanner.Scanner
	s.Init(f, b, nil, 0)
	h := sha256.New()
	for {
		_, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.IDENT && lit == name {
			lit = "$"
		}
		if tok == token.SEMICOLON {
			lit = ";"
		}
		fmt.Fprintf(h, "%d %s\n", tok, lit)
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}

// scanFuncs: the functions declared in the module, from the syntax alone.
func scanFuncs(dir string) ([]knownFunc, error) {
	var res []knownFunc
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != dir && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "init" && fd.Name.Name != "_" {
				res = append(res, knownFunc{rel, recvName(fd), fd.Name.Name,
					declHash(src, fs.Position(fd.Pos()).Offset, fs.Position(fd.End()).Offset, fd.Name.Name)})
			}
		}
		return nil
	})
	sort.Slice(res, func(i, j int) bool { return res[i].id() < res[j].id() })
	return res, err
}

func dumpFuncs(dir string) {
	fs, err := scanFuncs(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, f := range fs {
		fmt.Println(f.id() + "|" + f.hash)
	}
}

type nEdit struct {
	from, to int
	text     string
}

func nApply(src []byte, es []nEdit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out []byte
	at := 0
	for _, e := range es {
		if e.from < at {
			continue
		}
		out = append(out, src[at:e.from]...)
		out = append(out, e.text...)
		at = e.to
	}
	return append(out, src[at:]...)
}

type normalizer struct {
	dir     string
	cfg     packages.Config
	known   map[string]bool
	renames map[string]string // id of the new function -> old name
	overlay map[string][]byte
	failed  map[string]bool // helper id + " in " + caller: not replaceable
	n       int
	notes   []string

	// of the current round
	pkgs []*packages.Package
	imps map[string]*types.Package
	fns  map[*types.Func]*nFunc
}

type nFunc struct {
	id   string
	obj  *types.Func
	decl *ast.FuncDecl
	pkg  *packages.Package
	file *ast.File
	name string // file
	src  []byte
}

func (z *normalizer) fresh(p string) string {
	z.n++
	return fmt.Sprintf("%s_nz%d", p, z.n)
}

// normalizeSource: an overlay for the files that call new functions.
func normalizeSource(dir string, cfg packages.Config) (overlay map[string][]byte, notes []string) {
	if os.Getenv("TICAT_NO_NORMALIZE") != "" {
		return nil, nil
	}
	now, err := scanFuncs(dir)
	if err != nil {
		return nil, nil // the loader reports it
	}
	z := &normalizer{dir: dir, cfg: cfg, known: map[string]bool{}, renames: map[string]string{},
		overlay: map[string][]byte{}, failed: map[string]bool{}}
	old := map[string]knownFunc{}
	for _, l := range strings.Split(knownFuncsText, "\n") {
		if f := strings.Split(l, "|"); len(f) == 4 {
			k := knownFunc{f[0], f[1], f[2], f[3]}
			z.known[k.id()] = true
			old[k.id()] = k
		}
	}
	if l := os.Getenv("NZ_FORGET"); l != "" { // development: inline these as well
		for _, id := range strings.Split(l, ",") {
			delete(z.known, id)
			delete(old, id)
		}
	}
	if len(z.known) == 0 {
		return nil, nil
	}
	cur := map[string]bool{}
	var news []knownFunc
	for _, k := range now {
		cur[k.id()] = true
		if !z.known[k.id()] {
			news = append(news, k)
		}
	}
	if len(news) == 0 {
		return nil, nil
	}
	for _, k := range news {
		match := ""
		for _, o := range old {
			if o.dir == k.dir && o.recv == k.recv && o.hash == k.hash && !cur[o.id()] {
				if match != "" {
					match = "?"
				} else {
					match = o.name
				}
			}
		}
		if match != "" && match != "?" {
			z.renames[k.id()] = match
		}
	}
	defer func() {
		if x := recover(); x != nil {
			overlay, notes = nil, []string{fmt.Sprint("normalisation stopped: ", x)}
		}
	}()
	for round := 0; round < 24; round++ {
		if !z.round(round) {
			break
		}
	}
	if d := os.Getenv("NZ_DUMP"); d != "" {
		for f, s := range z.overlay {
			rel, _ := filepath.Rel(dir, f)
			os.MkdirAll(filepath.Dir(filepath.Join(d, rel)), 0755)
			os.WriteFile(filepath.Join(d, rel), s, 0644)
		}
	}
	return z.overlay, z.notes
}

func (z *normalizer) source(name string) []byte {
	if s, ok := z.overlay[name]; ok {
		return s
	}
	s, _ := os.ReadFile(name)
	return s
}

func (z *normalizer) round(round int) bool {
	cfg := z.cfg
	cfg.Overlay = z.overlay
	pkgs, err := packages.Load(&cfg, "./...")
	if err != nil {
		return false
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return false
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	z.pkgs = pkgs
	z.imps = map[string]*types.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) { z.imps[p.PkgPath] = p.Types })
	z.fns = map[*types.Func]*nFunc{}
	type caller struct {
		fn  *nFunc
		ctx *nCtx
	}
	var callers []*nCtx
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasSuffix(name, ".go") {
				continue
			}
			src := z.source(name)
			rel, _ := filepath.Rel(z.dir, filepath.Dir(name))
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				k := knownFunc{rel, recvName(fd), fd.Name.Name, ""}
				nf := &nFunc{id: k.id(), decl: fd, pkg: p, file: f, name: name, src: src}
				if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					nf.obj = o
					if fd.Name.Name != "init" {
						z.fns[o] = nf
					}
				}
				callers = append(callers, &nCtx{z: z, nFunc: nf})
			}
			// variables of the package may be initialised by calls: those are left alone
		}
	}
	if round == 0 && len(z.renames) > 0 {
		return z.rename(pkgs) || true
	}
	isNew := func(o *types.Func) *nFunc {
		nf := z.fns[o]
		if nf == nil || z.known[nf.id] || nf.decl.Name.Name == "main" {
			return nil
		}
		return nf
	}
	uses := map[*nFunc]int{}
	for _, p := range pkgs {
		for _, o := range p.TypesInfo.Uses {
			if f, ok := o.(*types.Func); ok {
				if nf := z.fns[f]; nf != nil {
					uses[nf]++
				}
			}
		}
	}
	changed := false
	edits := map[string][]nEdit{}
	spans := map[string][][2]int{}
	// new functions that nothing uses any more
	gone := map[string][]*nFunc{}
	for _, nf := range z.fns {
		if !z.known[nf.id] && uses[nf] == 0 && !nf.obj.Exported() && z.failed["inlined "+nf.id] && !z.implements(nf) {
			gone[nf.name] = append(gone[nf.name], nf)
		}
	}
	for name, l := range gone {
		for _, nf := range l {
			edits[name] = append(edits[name], nEdit{nf.off(nf.decl.Pos()), nf.off(nf.decl.End()), ""})
			spans[name] = append(spans[name], [2]int{nf.off(nf.decl.Pos()), nf.off(nf.decl.End())})
		}
		// imports only they used
		for _, im := range l[0].file.Imports {
			var o types.Object
			if im.Name != nil {
				o = l[0].pkg.TypesInfo.Defs[im.Name]
			} else {
				o = l[0].pkg.TypesInfo.Implicits[im]
			}
			if o == nil {
				continue
			}
			used, left := false, false
			ast.Inspect(l[0].file, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && l[0].pkg.TypesInfo.Uses[id] == o {
					used = true
					in := false
					for _, nf := range l {
						in = in || within(id, nf.decl)
					}
					left = left || !in
				}
				return true
			})
			if used && !left {
				at := l[0].off(im.Path.Pos())
				from := at
				if im.Name != nil {
					from = l[0].off(im.Name.Pos())
				}
				edits[name] = append(edits[name], nEdit{from, at, "_ "})
			}
		}
		if c := (&nCtx{z: z, nFunc: l[0]}); !z.typechecks(c, edits[name]) {
			delete(edits, name)
			delete(spans, name)
			for _, nf := range l {
				delete(z.failed, "inlined "+nf.id)
			}
			continue
		}
		changed = true
	}
	leaf := map[*nFunc]bool{}
	for _, c := range callers {
		open := false
		ast.Inspect(c.decl.Body, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok {
				if h := isNew(c.callee(call)); h != nil && !z.failed[h.id+" in "+c.id] {
					open = true
				}
			}
			return !open
		})
		if !open {
			leaf[c.nFunc] = true
		}
	}
	for _, c := range callers {
		c.parents()
		var calls []*ast.CallExpr
		ast.Inspect(c.decl.Body, func(n ast.Node) bool {
			if call, ok := n.(*ast.CallExpr); ok {
				calls = append(calls, call)
			}
			return true
		})
		for _, call := range calls {
			h := isNew(c.callee(call))
			if h == nil || h == c.nFunc || !leaf[h] || z.failed[h.id+" in "+c.id] {
				continue
			}
			es, ok := c.replace(call, h)
			if !ok {
				z.failed[h.id+" in "+c.id] = true
				continue
			}
			lo, hi := es[0].from, es[0].to
			for _, e := range es[:len(es)-c.imports] {
				if e.from < lo {
					lo = e.from
				}
				if e.to > hi {
					hi = e.to
				}
			}
			free := true
			for _, s := range spans[c.name] {
				if lo < s[1] && s[0] < hi {
					free = false
				}
			}
			if !free {
				changed = true // next round
				continue
			}
			if !z.typechecks(c, append(append([]nEdit{}, edits[c.name]...), es...)) {
				z.failed[h.id+" in "+c.id] = true
				continue
			}
			z.failed["inlined "+h.id] = true
			edits[c.name] = append(edits[c.name], es...)
			spans[c.name] = append(spans[c.name], [2]int{lo, hi})
			changed = true
			z.notes = append(z.notes, h.id+" into "+c.id)
			if c.imports > 0 {
				break // one new import per file and round
			}
		}
	}
	for f, es := range edits {
		z.overlay[f] = nApply(z.source(f), es)
	}
	return changed
}

// implements: the method may be called through an interface.
func (z *normalizer) implements(nf *nFunc) bool {
	if nf.decl.Recv == nil {
		return false
	}
	for _, p := range z.pkgs {
		for _, o := range p.TypesInfo.Defs {
			if tn, ok := o.(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == nf.obj.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (z *normalizer) rename(pkgs []*packages.Package) bool {
	edits := map[string][]nEdit{}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				if o, ok := p.TypesInfo.ObjectOf(id).(*types.Func); ok {
					if nf := z.fns[o]; nf != nil {
						if old, ok := z.renames[nf.id]; ok {
							tf := p.Fset.File(id.Pos())
							edits[name] = append(edits[name], nEdit{tf.Offset(id.Pos()), tf.Offset(id.End()), old})
						}
					}
				}
				return true
			})
		}
	}
	for f, es := range edits {
		z.overlay[f] = nApply(z.source(f), es)
	}
	cfg := z.cfg
	cfg.Overlay = z.overlay
	np, err := packages.Load(&cfg, "./...")
	bad := err != nil
	for _, p := range np {
		bad = bad || len(p.Errors) > 0
	}
	if bad {
		z.overlay = map[string][]byte{}
	}
	z.renames = nil
	return true
}

type nImp map[string]*types.Package

func (m nImp) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %s", path)
}

func (z *normalizer) typechecks(c *nCtx, es []nEdit) bool {
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, name := range c.pkg.CompiledGoFiles {
		src := z.source(name)
		if name == c.name {
			src = nApply(src, append([]nEdit{}, es...))
		}
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			nzDebug("parse: %v", err)
			return false
		}
		fs = append(fs, f)
	}
	ok := true
	tc := types.Config{Importer: nImp(z.imps), GoVersion: "go1.16", Error: func(e error) {
		nzDebug("type: %v", e)
		ok = false
	}}
	tc.Check(c.pkg.PkgPath, fset, fs, nil)
	return ok
}

func nzDebug(f string, a ...interface{}) {
	if os.Getenv("NZ_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "nz: "+f+"\n", a...)
	}
}

func (f *nFunc) off(p token.Pos) int { return f.pkg.Fset.File(p).Offset(p) }
func (f *nFunc) text(n ast.Node) string {
	return string(f.src[f.off(n.Pos()):f.off(n.End())])
}

type nCtx struct {
	z *normalizer
	*nFunc
	up      map[ast.Node]ast.Node
	imports int // import edits at the end of the last edit list
}

func (c *nCtx) parents() {
	c.up = map[ast.Node]ast.Node{}
	var st []ast.Node
	ast.Inspect(c.decl, func(n ast.Node) bool {
		if n == nil {
			st = st[:len(st)-1]
			return true
		}
		if len(st) > 0 {
			c.up[n] = st[len(st)-1]
		}
		st = append(st, n)
		return true
	})
}

func (c *nCtx) callee(call *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		o, _ := c.pkg.TypesInfo.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := c.pkg.TypesInfo.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// line: a directive that keeps positions in reports on the real source
func (f *nFunc) line(p token.Pos) string {
	q := f.pkg.Fset.Position(p)
	return fmt.Sprintf("/*line %s:%d:%d*/", q.Filename, q.Line, q.Column)
}

func (c *nCtx) qualified(t types.Type, need map[string]string) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		if p == nil {
			return ""
		}
		n := c.importName(p, need)
		if n == "" {
			ok = false
		}
		return n
	})
	if b, is := t.(*types.Basic); is && b.Info()&types.IsUntyped != 0 {
		return "", false
	}
	return s, ok
}

func (c *nCtx) importName(p *types.Package, need map[string]string) string {
	for _, im := range c.file.Imports {
		if strings.Trim(im.Path.Value, `"`) == p.Path() {
			if im.Name == nil {
				return p.Name()
			}
			if im.Name.Name != "_" && im.Name.Name != "." {
				return im.Name.Name
			}
		}
	}
	need[p.Path()] = p.Name()
	return p.Name()
}

// stable: names in the body of the helper mean the same at the call.
func (c *nCtx) stable(h *nFunc, n ast.Node, at token.Pos, need map[string]string) bool {
	scope := c.pkg.Types.Scope().Innermost(at)
	if scope == nil {
		return false
	}
	ok := true
	skip := map[*ast.Ident]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr:
			skip[x.Sel] = true
		case *ast.KeyValueExpr:
			if id, isID := x.Key.(*ast.Ident); isID {
				if v, isV := h.pkg.TypesInfo.Uses[id].(*types.Var); isV && v.IsField() {
					skip[id] = true
				}
			}
		case *ast.Ident:
			if skip[x] || x.Name == "_" {
				return true
			}
			o := h.pkg.TypesInfo.Uses[x]
			if o == nil {
				return true
			}
			pn, isPkg := o.(*types.PkgName)
			if !isPkg && o.Parent() != types.Universe && (h.pkg.Types == nil || o.Parent() != h.pkg.Types.Scope()) {
				return true // a local of the helper
			}
			if isPkg {
				for _, im := range c.file.Imports {
					if strings.Trim(im.Path.Value, `"`) == pn.Imported().Path() {
						nm := pn.Imported().Name()
						if im.Name != nil {
							nm = im.Name.Name
						}
						if nm != x.Name {
							ok = false
						}
					}
				}
				_, found := scope.LookupParent(x.Name, at)
				if found == nil {
					need[pn.Imported().Path()] = x.Name
				} else if fp, isP := found.(*types.PkgName); !isP || fp.Imported() != pn.Imported() {
					ok = false
				}
				return true
			}
			if h.pkg != c.pkg && o.Parent() != types.Universe {
				ok = false
				return true
			}
			_, found := scope.LookupParent(x.Name, at)
			if found != o {
				ok = false
			}
		}
		return true
	})
	return ok
}

type nParam struct {
	obj  *types.Var
	name string
	arg  ast.Expr
	text string // of the argument, converted where needed
}

func (c *nCtx) params(call *ast.CallExpr, h *nFunc, need map[string]string) ([]nParam, bool) {
	sig := h.obj.Type().(*types.Signature)
	if sig.Variadic() || sig.TypeParams() != nil || sig.RecvTypeParams() != nil || call.Ellipsis.IsValid() {
		return nil, false
	}
	var res []nParam
	add := func(f *ast.Ident, arg ast.Expr, text string, t, at types.Type) bool {
		var o *types.Var
		name := "_"
		if f != nil {
			o, _ = h.pkg.TypesInfo.Defs[f].(*types.Var)
			name = f.Name
		}
		if !types.Identical(t, at) {
			s, ok := c.qualified(t, need)
			if !ok {
				return false
			}
			text = "(" + s + ")(" + text + ")"
		}
		res = append(res, nParam{o, name, arg, text})
		return true
	}
	if h.decl.Recv != nil {
		sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
		if !ok {
			return nil, false
		}
		s := c.pkg.TypesInfo.Selections[sel]
		if s == nil || s.Kind() != types.MethodVal || len(s.Index()) != 1 {
			return nil, false
		}
		text, at := c.text(sel.X), c.pkg.TypesInfo.TypeOf(sel.X)
		rt := sig.Recv().Type()
		_, rp := rt.(*types.Pointer)
		_, ap := at.(*types.Pointer)
		if rp && !ap {
			text, at = "&"+text, types.NewPointer(at)
		} else if !rp && ap {
			text, at = "*"+text, at.(*types.Pointer).Elem()
		}
		var f *ast.Ident
		if len(h.decl.Recv.List[0].Names) > 0 {
			f = h.decl.Recv.List[0].Names[0]
		}
		if !add(f, sel.X, text, rt, at) {
			return nil, false
		}
	}
	var names []*ast.Ident
	for _, p := range h.decl.Type.Params.List {
		if len(p.Names) == 0 {
			names = append(names, nil)
		}
		names = append(names, p.Names...)
	}
	if len(names) != len(call.Args) {
		return nil, false
	}
	for i, a := range call.Args {
		at := c.pkg.TypesInfo.TypeOf(a)
		if tv := c.pkg.TypesInfo.Types[a]; tv.IsNil() {
			at = types.Typ[types.UntypedNil]
		}
		if !add(names[i], a, c.text(a), sig.Params().At(i).Type(), at) {
			return nil, false
		}
	}
	return res, true
}

// simpleArg: evaluating it twice or later gives the same and does nothing
func simpleArg(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simpleArg(e.X)
	}
	return false
}

func (f *nFunc) writes(v *types.Var) bool {
	bad := false
	is := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				return f.pkg.TypesInfo.ObjectOf(x) == v
			}
			return false
		}
	}
	ast.Inspect(f.decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && f.pkg.TypesInfo.ObjectOf(id) == v {
					bad = true
				} else if _, isP := v.Type().Underlying().(*types.Struct); isP && is(l) {
					bad = true
				} else if _, isA := v.Type().Underlying().(*types.Array); isA && is(l) {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			bad = bad || is(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND && is(n.X) {
				bad = true
			}
		case *ast.RangeStmt:
			if n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value) {
				bad = true
			}
		case *ast.SelectorExpr:
			if s := f.pkg.TypesInfo.Selections[n]; s != nil && s.Kind() == types.MethodVal && is(n.X) {
				if _, isP := v.Type().Underlying().(*types.Pointer); !isP {
					if _, isI := v.Type().Underlying().(*types.Interface); !isI {
						bad = true
					}
				}
			}
		}
		return !bad
	})
	return bad
}

func (c *nCtx) replace(call *ast.CallExpr, h *nFunc) ([]nEdit, bool) {
	c.imports = 0
	// what the body may not have
	bad := false
	var lits []*ast.FuncLit
	inLit := func(n ast.Node) bool {
		for _, l := range lits {
			if within(n, l) {
				return true
			}
		}
		return false
	}
	ast.Inspect(h.decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
		case *ast.LabeledStmt:
			bad = bad || !inLit(n)
		case *ast.BranchStmt:
			if n.Label != nil && !inLit(n) {
				bad = true
			}
		case *ast.DeferStmt:
			bad = bad || !inLit(n)
		case *ast.Ident:
			if b, ok := h.pkg.TypesInfo.Uses[n].(*types.Builtin); ok && b.Name() == "recover" {
				bad = true
			}
			if h.pkg.TypesInfo.Uses[n] == h.obj {
				bad = true
			}
		}
		return !bad
	})
	if bad {
		nzDebug("%s: body", h.id)
		return nil, false
	}
	need := map[string]string{}
	if !c.stable(h, h.decl.Body, call.Pos(), need) {
		nzDebug("%s: names", h.id)
		return nil, false
	}
	ps, ok := c.params(call, h, need)
	if !ok {
		nzDebug("%s: params", h.id)
		return nil, false
	}
	es, ok := c.substitute(call, h, ps)
	if !ok {
		es, ok = c.expand(call, h, ps, need)
	}
	if !ok {
		return nil, false
	}
	if len(need) > 0 {
		paths := make([]string, 0, len(need))
		for p := range need {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		t := ""
		for _, p := range paths {
			t += fmt.Sprintf("\nimport %s %q", need[p], p)
		}
		at := c.off(c.file.Name.End())
		es = append(es, nEdit{at, at, t})
		c.imports = 1
	}
	return es, true
}

// substitute: `return e` helpers called with simple arguments become e.
func (c *nCtx) substitute(call *ast.CallExpr, h *nFunc, ps []nParam) ([]nEdit, bool) {
	if len(h.decl.Body.List) != 1 {
		return nil, false
	}
	r, ok := h.decl.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return nil, false
	}
	e := r.Results[0]
	rt := h.obj.Type().(*types.Signature).Results()
	if rt.Len() != 1 {
		return nil, false
	}
	sub := map[*types.Var]string{}
	for _, p := range ps {
		if p.obj == nil || p.name == "_" {
			if !simpleArg(p.arg) {
				return nil, false
			}
			continue
		}
		if !simpleArg(p.arg) {
			// once, and before anything else
			if n := countUses(h, e, p.obj); n != 1 || len(ps) != 1 || hasCallOrLit(e, h, p.obj) {
				return nil, false
			}
		}
		if h.writes(p.obj) {
			return nil, false
		}
		sub[p.obj] = p.text
	}
	lit := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			lit = true
		}
		return true
	})
	if lit {
		return nil, false
	}
	t := ""
	at := h.off(e.Pos())
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v, ok := h.pkg.TypesInfo.Uses[id].(*types.Var); ok {
				if s, ok := sub[v]; ok {
					t += string(h.src[at:h.off(id.Pos())]) + paren(s)
					at = h.off(id.End())
				}
			}
		}
		return true
	})
	t += string(h.src[at:h.off(e.End())])
	et := h.pkg.TypesInfo.TypeOf(e)
	tv := h.pkg.TypesInfo.Types[e]
	if tv.Value != nil || tv.IsNil() || !types.Identical(et, rt.At(0).Type()) {
		s, ok := c.qualified(rt.At(0).Type(), map[string]string{})
		if !ok {
			return nil, false
		}
		t = "(" + s + ")(" + t + ")"
	} else {
		t = paren(t)
	}
	return []nEdit{{c.off(call.Pos()), c.off(call.End()), t + c.line(call.End())}}, true
}

func paren(s string) string {
	for _, r := range s {
		if !(r == '_' || r == '.' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return "(" + s + ")"
		}
	}
	return s
}

func countUses(h *nFunc, e ast.Node, v *types.Var) int {
	n := 0
	ast.Inspect(e, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && h.pkg.TypesInfo.Uses[id] == v {
			n++
		}
		return true
	})
	return n
}

// hasCallOrLit: something with an effect, or a short-circuit, is evaluated before the use of v
func hasCallOrLit(e ast.Expr, h *nFunc, v *types.Var) bool {
	bad := false
	ast.Inspect(e, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			if countUses(h, x, v) == 0 {
				bad = true
			}
		case *ast.BinaryExpr:
			if (x.Op == token.LAND || x.Op == token.LOR) && countUses(h, x.Y, v) > 0 {
				bad = true
			}
		case *ast.FuncLit:
			bad = true
		}
		return true
	})
	return bad
}

// expand: the body of the helper in place of the statement of the call.
func (c *nCtx) expand(call *ast.CallExpr, h *nFunc, ps []nParam, need map[string]string) ([]nEdit, bool) {
	// the statement
	var n ast.Node = call
	var stmt ast.Stmt
	for {
		p := c.up[n]
		if p == nil {
			return nil, false
		}
		if s, ok := n.(ast.Stmt); ok {
			stmt = s
			break
		}
		if b, ok := p.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && n == b.Y {
			nzDebug("%s: short-circuit", h.id)
			return nil, false
		}
		if _, ok := p.(*ast.FuncLit); ok {
			return nil, false
		}
		n = p
	}
	wrap, wrapEnd := "", ""
	from := stmt.Pos()
	to := stmt.End()
	switch s := stmt.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.IncDecStmt, *ast.SendStmt:
	case *ast.IfStmt:
		if s.Init != nil || !within(call, s.Cond) {
			return nil, false
		}
	case *ast.SwitchStmt:
		if s.Init != nil || s.Tag == nil || !within(call, s.Tag) {
			return nil, false
		}
	case *ast.RangeStmt:
		if !within(call, s.X) {
			return nil, false
		}
	default:
		nzDebug("%s: statement %T", h.id, stmt)
		return nil, false
	}
	var list ast.Node = c.up[stmt]
	initOf := token.NoPos
	switch p := list.(type) {
	case *ast.BlockStmt, *ast.CommClause:
		if cc, ok := p.(*ast.CommClause); ok && cc.Comm == stmt {
			return nil, false
		}
	case *ast.CaseClause:
	case *ast.IfStmt:
		if p.Else == stmt {
			wrap, wrapEnd = "{\n", "\n}"
		} else if p.Init == stmt {
			if _, ok := stmt.(*ast.AssignStmt); !ok {
				return nil, false
			}
			switch q := c.up[p].(type) {
			case *ast.BlockStmt, *ast.CaseClause:
			case *ast.IfStmt:
				if q.Else != p {
					return nil, false
				}
			default:
				return nil, false
			}
			wrap, wrapEnd = "{\n", "\n}"
			initOf = p.Cond.Pos()
			from, to = p.Pos(), p.End()
		} else {
			return nil, false
		}
	case *ast.SwitchStmt:
		if p.Init != stmt || p.Tag == nil {
			return nil, false
		}
		if _, ok := c.up[p].(*ast.BlockStmt); !ok {
			return nil, false
		}
		wrap, wrapEnd = "{\n", "\n}"
		initOf = p.Tag.Pos()
		from, to = p.Pos(), p.End()
	default:
		nzDebug("%s: in %T", h.id, list)
		return nil, false
	}
	// nothing with an effect may run before the call in this statement
	early := false
	ast.Inspect(stmt, func(x ast.Node) bool {
		if x == nil || x.Pos() >= call.Pos() {
			return x == nil || x.Pos() < call.Pos()
		}
		switch x := x.(type) {
		case *ast.CallExpr:
			if !within(call, x) && x.End() <= call.Pos() {
				if tv := c.pkg.TypesInfo.Types[x.Fun]; !tv.IsType() && !tv.IsBuiltin() {
					early = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && x.End() <= call.Pos() {
				early = true
			}
		}
		return true
	})
	if early {
		nzDebug("%s: not the first call", h.id)
		return nil, false
	}
	sig := h.obj.Type().(*types.Signature)
	named := false
	if h.decl.Type.Results != nil {
		for _, f := range h.decl.Type.Results.List {
			named = named || len(f.Names) > 0
		}
	}
	// parameters
	pre := ""
	var names, vals, blanks []string
	for _, p := range ps {
		if id, ok := ast.Unparen(p.arg).(*ast.Ident); ok && id.Name == p.name && p.text == id.Name && p.obj != nil && !h.writes(p.obj) {
			if v, ok := c.pkg.TypesInfo.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != c.pkg.Types.Scope() {
				continue
			}
		}
		if p.name == "_" && simpleArg(p.arg) {
			continue
		}
		names = append(names, p.name)
		vals = append(vals, p.text)
		if p.name != "_" {
			blanks = append(blanks, "_ = "+p.name+"\n")
		}
	}
	if len(names) > 0 {
		op := " := "
		if len(blanks) == 0 {
			op = " = "
		}
		pre = strings.Join(names, ", ") + op + strings.Join(vals, ", ") + "\n" + strings.Join(blanks, "")
	}
	rets := h.returns()
	body := func(edit func(r *ast.ReturnStmt, last bool) string) string {
		var es []nEdit
		base := h.off(h.decl.Body.Lbrace) + 1
		l := h.decl.Body.List
		for _, r := range rets {
			last := len(l) > 0 && l[len(l)-1] == ast.Stmt(r)
			es = append(es, nEdit{h.off(r.Pos()) - base, h.off(r.End()) - base, edit(r, last)})
		}
		src := append([]byte{}, h.src[base:h.off(h.decl.Body.Rbrace)]...)
		return h.line(h.decl.Body.Lbrace+1) + string(nApply(src, es)) + "\n"
	}
	// return helper(...)
	if rs, ok := stmt.(*ast.ReturnStmt); ok && len(rs.Results) == 1 && ast.Unparen(rs.Results[0]) == ast.Expr(call) && !named {
		if outer := c.results(stmt); outer != nil && types.Identical(outer, sig.Results()) {
			t := "{\n" + pre + body(func(r *ast.ReturnStmt, last bool) string { return h.text(r) }) + "}" + c.line(stmt.End())
			return []nEdit{{c.off(from), c.off(to), wrap + t + wrapEnd}}, true
		}
	}
	// results
	var temps []string
	decl := ""
	for i := 0; i < sig.Results().Len(); i++ {
		t, ok := c.qualified(sig.Results().At(i).Type(), need)
		if !ok {
			return nil, false
		}
		n := c.z.fresh("r")
		temps = append(temps, n)
		decl += "var " + n + " " + t + "\n"
	}
	var resNames []string
	if named {
		for _, f := range h.decl.Type.Results.List {
			t, ok := c.qualified(h.pkg.TypesInfo.TypeOf(f.Type), need)
			if !ok {
				return nil, false
			}
			for _, id := range f.Names {
				if id.Name == "_" {
					return nil, false
				}
				resNames = append(resNames, id.Name)
				pre += "var " + id.Name + " " + t + "\n"
			}
		}
	}
	label := c.z.fresh("L")
	gotos := false
	b := body(func(r *ast.ReturnStmt, last bool) string {
		s := ""
		if len(temps) > 0 {
			if len(r.Results) == 0 {
				s = strings.Join(temps, ", ") + " = " + strings.Join(resNames, ", ")
			} else {
				var rs []string
				for _, e := range r.Results {
					rs = append(rs, h.text(e))
				}
				s = strings.Join(temps, ", ") + " = " + strings.Join(rs, ", ")
			}
		}
		if !last {
			gotos = true
			s += "\ngoto " + label
			if len(temps) > 0 || true {
				s = "{\n" + s + "\n}"
			}
		}
		return s
	})
	t := decl + "{\n" + pre + b + "}\n"
	if gotos {
		t += label + ":\n;\n"
	}
	for _, n := range temps {
		t += "_ = " + n + "\n"
	}
	rep := strings.Join(temps, ", ")
	if es, ok := stmt.(*ast.ExprStmt); ok && ast.Unparen(es.X) == ast.Expr(call) {
		return []nEdit{{c.off(from), c.off(to), wrap + t + c.line(stmt.End()) + wrapEnd}}, true
	}
	if len(temps) == 0 {
		return nil, false
	}
	if initOf.IsValid() {
		head := "if "
		if _, ok := list.(*ast.SwitchStmt); ok {
			head = "switch "
		}
		st := string(c.src[c.off(stmt.Pos()):c.off(call.Pos())]) + rep + string(c.src[c.off(call.End()):c.off(stmt.End())])
		return []nEdit{{c.off(from), c.off(initOf), wrap + t + c.line(stmt.Pos()) + st + "\n" + head + c.line(initOf)},
			{c.off(to), c.off(to), wrapEnd + c.line(to)}}, true
	}
	es := []nEdit{{c.off(from), c.off(from), wrap + t + c.line(stmt.Pos())}, {c.off(call.Pos()), c.off(call.End()), rep + c.line(call.End())}}
	if wrapEnd != "" {
		es = append(es, nEdit{c.off(to), c.off(to), wrapEnd + c.line(to)})
	}
	return es, true
}

func within(n, of ast.Node) bool { return of != nil && n.Pos() >= of.Pos() && n.End() <= of.End() }

func (f *nFunc) returns() []*ast.ReturnStmt {
	var res []*ast.ReturnStmt
	ast.Inspect(f.decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			res = append(res, n)
		}
		return true
	})
	return res
}

// results: of the function (or literal) a statement is in
func (c *nCtx) results(s ast.Node) *types.Tuple {
	for n := s; n != nil; n = c.up[n] {
		if l, ok := n.(*ast.FuncLit); ok {
			return c.pkg.TypesInfo.TypeOf(l).(*types.Signature).Results()
		}
	}
	return c.obj.Type().(*types.Signature).Results()
}

// isNewFunc: a named function the rules do not know which could not be put back at all
// its call sites; the engine follows it where it is called.
func (w *World) isNewFunc(g *ssa.Function) bool {
	if g == nil || g.Parent() != nil || g.Synthetic != "" || g.Object() == nil || len(g.Blocks) == 0 || len(g.Blocks) > 8 {
		return false
	}
	known := w.Memo("knownFuncs", func() interface{} {
		m := map[string]bool{}
		for _, l := range strings.Split(knownFuncsText, "\n") {
			if f := strings.Split(l, "|"); len(f) == 4 {
				m[f[0]+"|"+f[1]+"|"+f[2]] = true
			}
		}
		return m
	}).(map[string]bool)
	if len(known) == 0 {
		return false
	}
	recv := ""
	if rc := g.Signature.Recv(); rc != nil {
		if n := namedOf(rc.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	dir := strings.TrimPrefix(strings.TrimPrefix(pkgOf(g), w.ModPath), "/")
	return !known[dir+"|"+recv+"|"+g.Name()]
}
