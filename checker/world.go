package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program under analysis: every package of the module,
// type-checked with the sources of its dependencies, and its SSA form.
type World struct {
	memo    map[string]interface{}
	Dir     string
	ModPath string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	ByPath  map[string]*packages.Package
	Prog    *ssa.Program
	SSAPkgs map[string]*ssa.Package
	Funcs   []*ssa.Function // every function with a body in the module, incl. anonymous ones
	inMod   map[*ssa.Function]bool
	sites   map[*ssa.Function][]*ssa.CallCommon
	regs    *RegTable
	mods    map[*ssa.Function]map[string]bool
	invC    map[string][]*ssa.Function
	envfx   *EnvFx
	cg      *callgraph.Graph
	callIn  map[*ssa.CallCommon]ssa.Instruction
	reachC  map[*ssa.Function]map[*ssa.Function]bool
}

// Anchor failures abort the analysis of a property with a violation: an
// anchored construct that cannot be found leaves the property undecided.
type Undecided struct{ Msg string }

func undecided(f string, a ...interface{}) { panic(Undecided{fmt.Sprintf(f, a...)}) }

func LoadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
	}
	overlay, notes := normalizeSource(dir, *cfg)
	cfg.Overlay = overlay
	if len(notes) > 0 {
		fmt.Printf("normalised: %d call(s) of new functions put back\n", len(notes))
	}
	pkgs, err := packages.Load(cfg, "./...")
	if len(overlay) > 0 {
		bad := err != nil
		for _, p := range pkgs {
			bad = bad || len(p.Errors) > 0
		}
		if bad {
			fmt.Println("the normalised program does not load: using the program as it is")
			cfg.Overlay = nil
			pkgs, err = packages.Load(cfg, "./...")
		}
	}
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found under %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	w := &World{Dir: dir, ByPath: map[string]*packages.Package{}, SSAPkgs: map[string]*ssa.Package{},
		inMod: map[*ssa.Function]bool{}}
	w.Pkgs = pkgs
	w.Fset = pkgs[0].Fset
	for _, p := range pkgs {
		w.ByPath[p.PkgPath] = p
		if p.Module != nil && p.Module.Main {
			w.ModPath = p.Module.Path
		}
	}
	if w.ModPath == "" {
		return nil, fmt.Errorf("main module not found")
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.SSAPkgs[sp.Pkg.Path()] = sp
	}
	prog.Build()
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		w.inMod[f] = true
		if f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "package init") {
			w.Funcs = append(w.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range w.SSAPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Pkg != nil && w.SSAPkgs[fn.Pkg.Pkg.Path()] != nil {
							add(fn)
						} else if fn != nil && fn.Synthetic != "" {
							// promoted / pointer wrapper: body delegates, do not report it
							w.inMod[fn] = len(fn.Blocks) > 0 && fn.Object() != nil && fn.Object().Pkg() != nil && w.SSAPkgs[fn.Object().Pkg().Path()] != nil
						}
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.FuncKey(w.Funcs[i]) < w.FuncKey(w.Funcs[j]) })
	return w, nil
}

func (w *World) InModule(f *ssa.Function) bool { return f != nil && w.inMod[f] && len(f.Blocks) > 0 }

// FuncKey is a stable, line-free name of a function: pkg/path.(Recv).Name$anon
func (w *World) FuncKey(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, w.ModPath+"/pkg/", "")
	return s
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// InstrPos finds the best position for an instruction.
func (w *World) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	b := in.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for i := idx; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return w.Pos(b.Instrs[i].Pos()) + "~"
		}
	}
	return w.Pos(in.Parent().Pos()) + "~"
}

func (w *World) pkgPath(short string) string { return w.ModPath + "/pkg/" + short }

// Fn resolves a package-level function, e.g. Fn("core/execute", "asyncExecute").
func (w *World) Fn(pkg, name string) *ssa.Function {
	f := w.FnOpt(pkg, name)
	if f == nil {
		undecided("anchor not found: function %s.%s", pkg, name)
	}
	return f
}

func (w *World) FnOpt(pkg, name string) *ssa.Function {
	sp := w.SSAPkgs[w.pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (w *World) NamedOpt(pkg, name string) *types.Named {
	sp := w.SSAPkgs[w.pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (w *World) Named(pkg, name string) *types.Named {
	n := w.NamedOpt(pkg, name)
	if n == nil {
		undecided("anchor not found: type %s.%s", pkg, name)
	}
	return n
}

// Method resolves a method of T or *T.
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	f := w.MethodOpt(pkg, typ, name)
	if f == nil {
		undecided("anchor not found: method (%s.%s).%s", pkg, typ, name)
	}
	return f
}

func (w *World) MethodOpt(pkg, typ, name string) *ssa.Function {
	n := w.NamedOpt(pkg, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := w.Prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(n.Obj().Pkg(), name)
		if sel == nil {
			continue
		}
		fn := w.Prog.MethodValue(sel)
		if fn != nil {
			// unwrap pointer wrappers for value-receiver methods
			if fn.Synthetic != "" {
				if o, ok := sel.Obj().(*types.Func); ok {
					if d := w.Prog.FuncValue(o); d != nil {
						return d
					}
				}
			}
			return fn
		}
	}
	return nil
}

// Field checks a struct field exists and returns its index.
func (w *World) Field(n *types.Named, name string) int {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		undecided("anchor: %s is not a struct", n)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	undecided("anchor not found: field %s of %s", name, n)
	return -1
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = deref(t)
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (w *World) isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Name() == name && n.Obj().Pkg().Path() == w.pkgPath(pkg)
}

// isPtrTo: t is exactly *pkg.name
func (w *World) isPtrTo(t types.Type, pkg, name string) bool {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return false
	}
	return w.isNamed(t, pkg, name)
}

// calleeObj returns the called function object: static callee, interface method
// or nil for a dynamic call.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

// isStd reports a call to a std (or dependency) function by full name such as
// "os.RemoveAll" or "(*os.File).Close".
func fullName(c *ssa.CallCommon) string {
	if o := calleeObj(c); o != nil {
		return o.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return constantStringVal(c), true
		}
	}
	return "", false
}
