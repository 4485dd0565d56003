package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: describing, listing and checking change nothing; background commands work on copies.

func init() {
	register(&Prop{
		ID: "C04", Title: "Describing, listing and checking change nothing and run nothing",
		Explain: "Interprocedural environment-mutation summaries for every function, reachability of destructive effects and of command execution over a type-flow call graph, and ownership (freshness) of what a background command is handed.",
		Assume:  []string{"a describing or listing command is a registered command body named Dump*, List*, GlobalFind*, FindByTags*, *SessionDesc* or SessionStatus, or one marked as describing the rest of its line"},
		Run:     runC04,
	})
}

func (w *World) describers() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, s := range w.Registrations().Sites {
		for _, f := range s.Funcs {
			if seen[f] || !w.isCmdFunc(f) {
				continue
			}
			n := f.Name()
			if strings.HasPrefix(n, "Dump") || strings.HasPrefix(n, "List") || strings.HasPrefix(n, "GlobalFind") || strings.HasPrefix(n, "FindByTags") || strings.Contains(n, "SessionDesc") || n == "SessionStatus" {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// checkers: the checks made before a flow runs, and what the executor prints
func (w *World) checkersAndPrinters() []*ssa.Function {
	out := []*ssa.Function{w.Fn("core/model", "CheckEnvOps"), w.Fn("core/model", "CollectDepends")}
	if f := w.FnOpt("core/model", "AutoMapArg2EnvForCmdsInFlow"); f != nil {
		out = append(out, f)
	}
	for _, f := range w.Funcs {
		if w.inPkg(f, "cli/display") && f.Parent() == nil && token.IsExported(f.Name()) {
			out = append(out, f)
		}
	}
	return out
}

func (w *World) chain(m map[*ssa.Function]*ssa.Function, f *ssa.Function) []string {
	var out []string
	for ; f != nil; f = m[f] {
		out = append(out, w.FuncKey(f))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// effect of a function outside the module: "" when harmless
func destructive(f *ssa.Function) string {
	n := f.String()
	switch n {
	case "os.WriteFile", "os.Create", "os.CreateTemp", "os.Remove", "os.RemoveAll", "os.Rename", "os.MkdirTemp", "os.Truncate",
		"os.Symlink", "os.Link", "os.Chmod", "os.Chown", "os.Chdir", "os.Chtimes", "os.OpenFile", "os.Setenv", "os.Unsetenv", "os.Exit",
		"(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).Truncate", "io/ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir",
		"syscall.Kill", "syscall.Unlink", "syscall.Rename", "syscall.Rmdir", "syscall.Exec",
		"(*os.Process).Kill":
		return n
	}
	if strings.HasPrefix(n, "os/exec.Command") || strings.HasPrefix(n, "(*os/exec.Cmd).") {
		return n
	}
	return ""
}

func runC04(w *World, r *Report) {
	c04Env(w, r)
	c04Effects(w, r)
	c04Blender(w, r)
	c04Checking(w, r)
	c04Background(w, r)
	c04Deep(w, r)
}

func c04Env(w *World, r *Report) {
	fx := w.EnvFx()
	judge := func(rule string, f *ssa.Function) {
		for _, p := range fx.envParams(f) {
			k := w.FuncKey(f)
			r.Funcs[k] = true
			if m := fx.Mutates(f, p); m != 0 {
				r.Violation(rule, k, w.Pos(f.Pos()), "may change the environment it was only asked about", fx.Why(f, p, m&-m))
			} else {
				r.Ok(rule, k, w.Pos(f.Pos()), f.Params[p].Name())
			}
		}
	}
	rule := "describing-leaves-the-environment-alone"
	for _, f := range w.describers() {
		judge(rule, f)
	}
	for _, s := range w.Registrations().Sites {
		if s.Has("SetIgnoreFollowingDeps") {
			for _, f := range s.Funcs {
				if w.isCmdFunc(f) {
					judge(rule, f)
				}
			}
		}
	}
	r.Floor(rule, 30)
	rule = "checking-and-printing-leave-the-environment-alone"
	for _, f := range w.checkersAndPrinters() {
		judge(rule, f)
	}
	r.Floor(rule, 20)
}

func c04Effects(w *World, r *Report) {
	rule := "describing-runs-and-writes-nothing"
	inv := w.Method("core/model", "Blender", "Invoke")
	execs := map[*ssa.Function]bool{}
	for _, n := range []string{"Execute", "execute", "executeByType", "executeFlow", "executeFile", "executeFileNFlow"} {
		if f := w.MethodOpt("core/model", "Cmd", n); f != nil {
			execs[f] = true
		}
	}
	execs[w.Method("core/execute", "Executor", "Execute")] = true
	roots := append(w.describers(), w.checkersAndPrinters()...)
	for _, f := range roots {
		m := w.Reach(func(g *ssa.Function) bool { return w.InModule(g) && g != inv && !execs[g] }, f)
		k := w.FuncKey(f)
		r.Funcs[k] = true
		bad := false
		var gs []*ssa.Function
		for g := range m {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
		for _, g := range gs {
			what := ""
			if execs[g] {
				what = "runs commands"
			} else if !w.InModule(g) {
				if d := destructive(g); d != "" {
					what = "reaches " + d
				}
			}
			if what != "" && !bad {
				bad = true
				r.Violation(rule, k, w.Pos(f.Pos()), "only describes, lists or checks, but "+what, w.chain(m, g))
			}
		}
		if !bad {
			r.Ok(rule, k, w.Pos(f.Pos()), fmt.Sprintf("%d functions reachable", len(m)))
		}
	}
	r.Floor(rule, 40)
}

// flow-rewriting commands are the only ones that may run while rendering, on a copy
func c04Blender(w *World, r *Report) {
	rule := "only-flow-rewriting-commands-run-while-rendering"
	inv := w.Method("core/model", "Blender", "Invoke")
	fx := w.EnvFx()
	n := 0
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		st := &envState{fx: fx, f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := c.Common()
			g := cc.StaticCallee()
			if g != nil && g.Signature.Recv() != nil && w.isPtrTo(g.Signature.Recv().Type(), "core/model", "Cmd") && execLike(g) {
				n++
				k := w.FuncKey(f) + ": " + g.Name()
				if !guardedBy(in, func(v ssa.Value) bool {
					rc := w.calledGetter(v, "core/model", "Cmd", "IsBlenderCmd")
					return rc != nil && sameValue(rc, cc.Args[0])
				}) {
					r.Violation(rule, k, w.InstrPos(in), "a command that does not rewrite flows may run while a flow is being rendered", nil)
					return
				}
				for i, a := range cc.Args {
					if fx.isEnv(a.Type()) && i > 0 {
						if os := st.origins(a); len(os) != 0 {
							bad := false
							for o := range os {
								bad = bad || o.Rel != relAbove || o.Param < 0
							}
							if bad || len(os) > 0 && anyMutAbove(fx, w, cc, i) {
								r.Violation(rule, k+" env", w.InstrPos(in), "a flow-rewriting command runs on the environment itself while a flow is being rendered, not on a copy", nil)
								return
							}
						}
					}
				}
				r.Ok(rule, k, w.InstrPos(in), "")
				return
			}
			if g != nil && w.inPkg(g, "core/model") && g.Signature.Recv() != nil && w.isPtrTo(g.Signature.Recv().Type(), "core/model", "Blender") {
				scan(g)
			}
		})
	}
	scan(inv)
	r.Floor(rule, 1)

	rule = "flow-rewriting-commands-only-rewrite"
	for _, s := range w.Registrations().Sites {
		if !s.Has("SetIsBlenderCmd") {
			continue
		}
		for _, f := range s.Funcs {
			if !w.isCmdFunc(f) {
				continue
			}
			k := w.FuncKey(f)
			bad := false
			for _, p := range fx.envParams(f) {
				if m := fx.Mutates(f, p); m != 0 {
					r.Violation(rule, k, w.Pos(f.Pos()), "a flow-rewriting command changes the environment", fx.Why(f, p, m&-m))
					bad = true
				}
			}
			m := w.Reach(w.InModule, f)
			for g := range m {
				if !w.InModule(g) && destructive(g) != "" {
					r.Violation(rule, k, w.Pos(f.Pos()), "a flow-rewriting command reaches "+destructive(g), w.chain(m, g))
					bad = true
				}
			}
			if !bad {
				r.Ok(rule, k, w.Pos(f.Pos()), "")
			}
		}
	}
	r.Floor(rule, 1)
}

func execLike(g *ssa.Function) bool {
	return strings.HasPrefix(strings.ToLower(g.Name()), "execute")
}

func anyMutAbove(fx *EnvFx, w *World, c *ssa.CallCommon, i int) bool {
	for _, g := range w.Callees(c) {
		if fx.Mutates(g, i)&mutAnc != 0 {
			return true
		}
	}
	return false
}

// guardedBy: the instruction only runs after a branch on a value for which is
// holds was taken with outcome true (through && chains).
func guardedBy(in ssa.Instruction, is func(v ssa.Value) bool) bool {
	return guardedWith(in.Block(), is, true)
}

func guardedWith(b *ssa.BasicBlock, is func(v ssa.Value) bool, want bool) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		br, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for s := 0; s < 2; s++ {
			t := id.Succs[s]
			if id.Succs[0] == id.Succs[1] || len(t.Preds) != 1 || !t.Dominates(b) {
				continue
			}
			if condImplies(br.Cond, s == 0, is, want, 0) {
				return true
			}
		}
	}
	return false
}

// condImplies: cond having the outcome means some value with is(v) had the outcome want.
func condImplies(cond ssa.Value, outcome bool, is func(v ssa.Value) bool, want bool, depth int) bool {
	if depth > 6 {
		return false
	}
	if is(cond) && outcome == want {
		return true
	}
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return condImplies(c.X, !outcome, is, want, depth+1)
		}
	case *ssa.Phi:
		// a && b (false on the short cut), a || b (true on the short cut)
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.String() == fmt.Sprint(!outcome) {
				continue
			}
			p := c.Block().Preds[i]
			if condImplies(e, outcome, is, want, depth+1) || guardedWith(p, is, want) || edgeImplies(p, c.Block(), is, want, depth) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

func edgeImplies(p, to *ssa.BasicBlock, is func(v ssa.Value) bool, want bool, depth int) bool {
	br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	return condImplies(br.Cond, p.Succs[0] == to, is, want, depth+1)
}

// sameValue: two SSA values that denote the same thing (same value, or loads of
// the same unchanging variable or field path).
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameValue(x.X, y.X) && sameValue(x.Index, y.Index)
	case *ssa.Call:
		// pure getters on the same receiver
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !sameValue(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// checks and descriptions render nested flows on a copy of the rewriting state
func c04Checking(w *World, r *Report) {
	rule := "checks-render-on-a-copy"
	rend := w.Method("core/model", "Cmd", "RenderedFlowStrs")
	flow := w.Method("core/model", "Cmd", "Flow")
	roots := append(w.describers(), w.checkersAndPrinters()...)
	m := w.Reach(func(g *ssa.Function) bool { return w.InModule(g) && g != rend && g != flow }, roots...)
	var fs []*ssa.Function
	for f := range m {
		if w.InModule(f) && f != flow && f != rend {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := c.Common().StaticCallee()
			if g != rend && g != flow {
				return
			}
			k := w.FuncKey(f) + ": " + g.Name()
			a := c.Common().Args[lastBoolParam(g)]
			if cs, ok := a.(*ssa.Const); ok && cs.Value != nil && cs.Value.String() == "true" {
				r.Ok(rule, k, w.InstrPos(in), "")
			} else {
				r.Violation(rule, k, w.InstrPos(in), "a nested flow is rendered for description or checking without working on a copy of the flow-rewriting state", nil)
			}
		})
	}
	r.Floor(rule, 2)

	// for-checking rendering rewrites with a cloned state, and passes the mode on
	for _, root := range []*ssa.Function{rend, flow} {
		root := root
		isInv := func(c *ssa.CallCommon) bool { return w.callsMethod(c, "core/model", "Blender", "Invoke") }
		isRend := func(c *ssa.CallCommon) bool { return root != rend && c.StaticCallee() == rend }
		sp := &Spec{Name: rule, Event: func(c *ssa.CallCommon) bool { return isInv(c) || isRend(c) }}
		n := 0
		sp.Call = func(x *Ctx, c *ssa.CallCommon, callee *ssa.Function, args []*AV) *Action {
			if isRend(c) {
				n++
				if x.St.Eval(args[lastBoolParam(rend)]) != "true" {
					x.Report(w.FuncKey(root), "the checking mode is not passed on to the rendering")
				}
				return &Action{Opaque: true}
			}
			if w.callsMethod(c, "core/model", "Cli", "CloneForChecking") {
				return &Action{Alts: []Alt{{Results: []*AV{avNonNil("@copy")}}}}
			}
			if isInv(c) {
				n++
				if args[0].K != kSym || !strings.HasPrefix(args[0].Sym, "@copy") {
					x.Report(w.FuncKey(root)+": Blender.Invoke", "the flow-rewriting state itself (not a copy) is used while a flow is rendered for checking")
				}
				return &Action{Opaque: true}
			}
			return nil
		}
		e := NewEngine(w, r, rule, sp)
		e.Run(root, map[string]*AV{root.Params[lastBoolParam(root)].Name(): avBool(true)}, nil)
		r.Engine(e)
		if n == 0 {
			r.Violation(rule, w.FuncKey(root)+" instances", w.Pos(root.Pos()), "rendering no longer goes through the flow-rewriting state the way this check understands", nil)
		} else {
			r.Ok(rule, w.FuncKey(root), w.Pos(root.Pos()), fmt.Sprintf("%d judged uses", n))
		}
	}
	w.clonedCli(r, rule, w.Method("core/model", "Cli", "CloneForChecking"), func(t types.Type) bool {
		return !w.isPtrTo(t, "core/model", "Blender") && !w.isNamed(t, "core/model", "Arg2EnvAutoMapCmds")
	})
}

func lastBoolParam(f *ssa.Function) int {
	for i := len(f.Params) - 1; i >= 0; i-- {
		if b, ok := f.Params[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return i
		}
	}
	undecided("%s has no bool parameter", f)
	return -1
}

// clonedCli: a function that builds a Cli from another one: fields whose type is not
// shareable must be fresh objects not built from the old one's.
func (w *World) clonedCli(r *Report, rule string, f *ssa.Function, shareable func(t types.Type) bool) {
	cli := w.Named("core/model", "Cli")
	st := cli.Underlying().(*types.Struct)
	self := f.Params[0]
	n := 0
	var objs []ssa.Value
	forEachInstr(f, func(in ssa.Instruction) {
		if ret, ok := in.(*ssa.Return); ok {
			o, ok := w.freshObj(ret.Results[0], 0)
			if !ok {
				r.Violation(rule, w.FuncKey(f), w.InstrPos(in), "does not return a new state", nil)
				return
			}
			objs = append(objs, o...)
		}
	})
	set := map[ssa.Value]bool{}
	for _, o := range objs {
		if o.Parent() != f {
			undecided("%s builds its result elsewhere (%s)", f, o.Parent())
		}
		set[o] = true
	}
	forEachInstr(f, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if set[s.Addr] {
			r.Violation(rule, w.FuncKey(f), w.InstrPos(in), "copies the whole state, sharing everything in it", nil)
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !set[fa.X] {
			return
		}
		fl := st.Field(fa.Field)
		if !sharing(fl.Type()) || shareable(fl.Type()) {
			return
		}
		n++
		k := w.FuncKey(f) + " " + fl.Name()
		if why := w.notOwn(s.Val, self, 0); why != "" {
			r.Violation(rule, k, w.InstrPos(in), "the copy shares "+fl.Name()+" with the original: "+why, nil)
		} else {
			r.Ok(rule, k, w.InstrPos(in), "")
		}
	})
	if n == 0 {
		r.Violation(rule, w.FuncKey(f)+" fields", w.Pos(f.Pos()), "no owned field recognised in the copy", nil)
	}
}

// notOwn: why a value may share storage with what root refers to ("" when it does not)
func (w *World) notOwn(v ssa.Value, root ssa.Value, depth int) string {
	isRoot := func(x ssa.Value) bool { return x == root }
	if derivedFrom(v, isRoot, map[ssa.Value]bool{}) {
		return "taken over as it is"
	}
	objs, ok := w.freshObj(v, 0)
	if !ok {
		return "not a new object"
	}
	if c, ok := v.(*ssa.Call); ok {
		return w.callShares(&c.Call, root, depth)
	}
	for _, o := range objs {
		if why := w.objShares(o, root, depth); why != "" {
			return why
		}
	}
	return ""
}

// callShares: may the object built by the call share storage with root's?
func (w *World) callShares(c *ssa.CallCommon, root ssa.Value, depth int) string {
	if depth > 4 {
		return "too deep to decide"
	}
	isRoot := func(x ssa.Value) bool { return x == root }
	for _, g := range w.Callees(c) {
		for i := range g.Params {
			a := argOf(c, g, i)
			if a == nil || !sharing(a.Type()) || !derivedFrom(a, isRoot, map[ssa.Value]bool{}) {
				continue
			}
			p := g.Params[i]
			var why string
			forEachInstr(g, func(in ssa.Instruction) {
				ret, ok := in.(*ssa.Return)
				if !ok || why != "" {
					return
				}
				for _, x := range ret.Results {
					if !sharing(x.Type()) {
						continue
					}
					if xc, ok := x.(*ssa.Call); ok {
						why = w.callShares(&xc.Call, p, depth+1)
						continue
					}
					if mi, ok := x.(*ssa.MakeInterface); ok {
						if xc, ok := mi.X.(*ssa.Call); ok {
							why = w.callShares(&xc.Call, p, depth+1)
							continue
						}
					}
					objs, ok := w.freshObj(x, 0)
					if !ok {
						why = w.FuncKey(g) + " may return an existing object"
						return
					}
					for _, o := range objs {
						if why == "" {
							why = w.objShares(o, p, depth+1)
						}
					}
				}
			})
			if why != "" {
				return why
			}
		}
	}
	return ""
}

func (w *World) objShares(o, root ssa.Value, depth int) string {
	isRoot := func(x ssa.Value) bool { return x == root }
	a, ok := o.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return ""
	}
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == a && sharing(u.Val.Type()) && derivedFrom(u.Val, isRoot, map[ssa.Value]bool{}) {
				return "copied as a whole in " + w.FuncKey(a.Parent())
			}
		case *ssa.FieldAddr:
			for _, uu := range *u.Referrers() {
				if s, ok := uu.(*ssa.Store); ok && s.Addr == u && sharing(s.Val.Type()) {
					// strings and immutable values are not sharing; elements copied into a fresh slice are judged by the slice
					if derivedFrom(s.Val, isRoot, map[ssa.Value]bool{}) {
						return fieldName(u.X.Type(), u.Field) + " is taken over in " + w.FuncKey(a.Parent())
					}
					if c, ok := s.Val.(*ssa.Call); ok && depth < 4 {
						if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && derivedFrom(c.Call.Args[0], isRoot, map[ssa.Value]bool{}) {
							return fieldName(u.X.Type(), u.Field) + " appends to the original's storage in " + w.FuncKey(a.Parent())
						}
					}
				}
			}
		}
	}
	return ""
}

// what a goroutine is handed
func c04Background(w *World, r *Report) {
	rule := "background-commands-work-on-copies"
	fx := w.EnvFx()
	n := 0
	for _, f := range w.Funcs {
		f := f
		if !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			var vals []ssa.Value
			vals = append(vals, g.Call.Args...)
			if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
				vals = append(vals, mc.Bindings...)
			}
			for _, v := range vals {
				t := deref(v.Type())
				env := fx.isEnv(t) || w.isPtrTo(t, "core/model", "Env")
				cli := w.isNamed(t, "core/model", "Cli") || w.isPtrTo(t, "core/model", "Cli")
				flow := w.isNamed(t, "core/model", "ParsedCmds") || w.isPtrTo(t, "core/model", "ParsedCmds")
				if !env && !cli && !flow {
					continue
				}
				n++
				w.ownedByGo(r, rule, f, v, in, map[ssa.Value]bool{}, env, cli)
			}
		})
	}
	r.Floor(rule, 3)

	// what the delayed command would set is only applied to the caller's environment on request
	rule = "a-delayed-command-sets-nothing-early-unless-asked"
	isDelay := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && w.callsMethod(&c.Call, "core/model", "SysArgVals", "IsDelay")
	}
	isEarly := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && w.callsMethod(&c.Call, "core/model", "SysArgVals", "IsDelayEnvEarlyApply")
	}
	for _, f := range w.Funcs {
		f := f
		uses := false
		if !w.InModule(f) || !w.inPkg(f, "core/execute") {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok && isDelay(v) {
				uses = true
			}
		})
		if !uses {
			continue
		}
		st := &envState{fx: fx, f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
		forEachInstr(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || !w.callsMethod(&c.Call, "core/model", "ParsedCmd", "ApplyMappingGenEnvAndArgv") {
				return
			}
			own := false
			for _, a := range c.Call.Args {
				if fx.isEnv(a.Type()) {
					own = own || len(st.origins(a)) != 0
				}
			}
			if !own {
				r.Ok(rule, w.FuncKey(f), w.InstrPos(in), "on a copy")
				return
			}
			if guardedWith(in.Block(), isDelay, false) || guardedWith(in.Block(), isEarly, true) {
				r.Ok(rule, w.FuncKey(f), w.InstrPos(in), "")
			} else {
				r.Violation(rule, w.FuncKey(f)+": applies to the caller's environment", w.InstrPos(in), "the settings of a delayed command are applied to the environment of the flow that schedules it without being asked to", nil)
			}
		})
	}
	r.Floor(rule, 2)
}

func (w *World) ownedByGo(r *Report, rule string, f *ssa.Function, v ssa.Value, in ssa.Instruction, seen map[ssa.Value]bool, env, cli bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	k := w.FuncKey(f)
	what := "flow"
	if env {
		what = "environment"
	} else if cli {
		what = "run state"
	}
	// parameters of the function: every caller must hand over a copy
	if p, ok := v.(*ssa.Parameter); ok {
		idx := paramIndex(f, p)
		if _, isGo := in.(*ssa.Go); !isGo && p.Referrers() != nil && len(*p.Referrers()) > 1 {
			r.Violation(rule, k+" "+what, w.InstrPos(in), "a background command is handed the caller's "+what+", not a copy", nil)
			return
		}
		cs := w.callersOf()[f]
		if len(cs) == 0 {
			r.Violation(rule, k+" "+what, w.InstrPos(in), "a goroutine works on a "+what+" whose owner is not known", nil)
		}
		for _, c := range cs {
			ci := w.instrOf(c)
			if ci == nil || idx >= len(c.Args) {
				undecided("call of %s", f)
			}
			w.ownedByGo(r, rule, ci.Parent(), c.Args[idx], ci, seen, env, cli)
		}
		return
	}
	if a, ok := v.(*ssa.Alloc); ok {
		if _, isPtr := deref(a.Type()).Underlying().(*types.Pointer); isPtr {
			for _, s := range storesTo(a) {
				w.ownedByGo(r, rule, f, s.Val, s, seen, env, cli)
			}
			return
		}
	}
	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			w.ownedByGo(r, rule, f, e, in, seen, env, cli)
		}
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			w.ownedByGo(r, rule, f, a, in, seen, env, cli)
			return
		}
	}
	if env {
		st := &envState{fx: w.EnvFx(), f: f, memo: map[ssa.Value]map[envOrigin]bool{}, busy: map[ssa.Value]bool{}}
		if os := st.origins(v); len(os) != 0 {
			r.Violation(rule, k+" "+what, w.InstrPos(in), "a background command is handed the caller's environment, not a copy", nil)
			return
		}
		r.Ok(rule, k+" "+what, w.InstrPos(in), "")
		return
	}
	if _, ok := w.freshObj(v, 0); !ok {
		r.Violation(rule, k+" "+what, w.InstrPos(in), "a background command is handed the caller's "+what+", not a copy", nil)
		return
	}
	r.Ok(rule, k+" "+what, w.InstrPos(in), "")
	if c, ok := v.(*ssa.Call); ok && cli {
		for _, g := range w.Callees(&c.Call) {
			w.clonedCli(r, rule, g, func(t types.Type) bool {
				for _, n := range []string{"CmdTree", "CliParser", "EnvAbbrs", "Helps", "BgTasks", "EnvKeysInfo"} {
					if w.isNamed(deref(t), "core/model", n) {
						return true
					}
				}
				return false
			})
		}
	}
}

// instrOf: the instruction of a call
func (w *World) instrOf(c *ssa.CallCommon) ssa.Instruction {
	if w.callIn == nil {
		w.callIn = map[*ssa.CallCommon]ssa.Instruction{}
		for f := range w.inMod {
			forEachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					w.callIn[ci.Common()] = in
				}
			})
		}
	}
	return w.callIn[c]
}

// layers never share their storage, and a copy copies the whole chain
func c04Deep(w *World, r *Report) {
	rule := "environment-copies-share-nothing"
	fx := w.EnvFx()
	for _, f := range w.Funcs {
		f := f
		if !w.InModule(f) {
			continue
		}
		forEachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !fx.isEnv(fa.X.Type()) {
				return
			}
			if _, isMap := s.Val.Type().Underlying().(*types.Map); !isMap {
				return
			}
			k := w.FuncKey(f) + " " + fieldName(fa.X.Type(), fa.Field)
			if objs, ok := w.freshObj(s.Val, 0); !ok || len(objs) == 0 {
				r.Violation(rule, k, w.InstrPos(in), "two environment layers may share their values", nil)
			} else {
				r.Ok(rule, k, w.InstrPos(in), "")
			}
		})
	}
	cl := w.Method("core/model", "Env", "Clone")
	for o := range fx.sums[cl].ret[0] {
		r.Violation(rule, w.FuncKey(cl), w.Pos(cl.Pos()), fmt.Sprintf("a copied environment still refers to the original (%v)", o), nil)
	}
	r.Floor(rule, 3)
}
